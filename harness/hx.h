// Shared helpers of the harnesses.
#pragma once
#include "sx.h"
#include "Narsese/Parser/NarseseParser.h"
#include "Interpreter/include/Interpreter.hpp"
#include "Narsese/include/Narsese.h"
#include <map>
#include <string>
#include <vector>
using NARSESEPARSER::NarseseParser;
using TERM::pTerm; using TERM::Term; using TERM::Terms; using TERM::pTerms; using TERM::TermType;
using COMPOUND::Compound; using STATEMENT::Statement; using VARIABLE::Variable; using INTERVAL::Interval;
using CONNECTOR::Connector; using COPULA::Copula;
using TASK::pTask; using TASK::Task;
#ifndef SX_TIER
#define SX_TIER 1
#endif
#define THOROUGH (SX_TIER == 2)
#define REACH(x) sx_reach(x)

enum Out { OK_TASK, SYNTAX, THROWN };
// parse through the public entry point; every std::exception is an ordinary outcome, anything else escapes
inline pTask hx_parse(NarseseParser &p, const std::string &text, Out &o) {
  std::string s(text); pTask t(nullptr);
  try { t = p.parse_task(s); o = t == nullptr ? SYNTAX : OK_TASK; } catch (const std::exception &) { o = THROWN; }
  return t;
}
inline pTask hx_parse(NarseseParser &p, const std::string &text) { Out o; return hx_parse(p, text, o); }
inline std::string hx_print(Task &t) { return INTERPRETER::interpreter.interpret(t); }
inline std::string hx_print(Term &t) { return INTERPRETER::interpreter.interpret(t); }
inline NarseseParser &P() { static NarseseParser *p = new NarseseParser; return *p; }
inline int len(Terms &t) { return (int)t.size(); }

// ---- expected terms: an independent description of what a text says ----
// the documented notation, written down here a second time
struct Cop { const char *s; Copula v; };
inline const Cop COPS[12] = {{"-->", Copula::Inheritance}, {"<->", Copula::Similarity}, {"{--", Copula::Instance}, {"--]", Copula::Property}, {"{-]", Copula::InstanceProperty}, {"==>", Copula::Implication},
  {"=/>", Copula::PredictiveImplication}, {"=|>", Copula::ConcurrentImplication}, {"=\\>", Copula::RetrospectiveImplication}, {"<=>", Copula::Equivalence}, {"</>", Copula::PredictiveEquivalence}, {"<|>", Copula::ConcurrentEquivalence}};
struct Con { const char *s; Connector v; bool comm; };
inline const Con CONS[14] = {{"&&", Connector::Conjunction, true}, {"||", Connector::Disjunction, true}, {"*", Connector::Product, false}, {"&|", Connector::ParallelEvents, true}, {"&/", Connector::SequentialEvents, false}, {"|", Connector::IntensionalIntersection, true},
  {"&", Connector::ExtensionalIntersection, true}, {"-", Connector::ExtensionalDifference, false}, {"~", Connector::IntensionalDifference, false}, {"--", Connector::Negation, false}, {"[", Connector::IntensionalSet, true}, {"{", Connector::ExtensionalSet, true}, {"\\", Connector::IntensionalImage, false}, {"/", Connector::ExtensionalImage, false}};
inline const char *con_str(Connector c) { for (auto &x : CONS) if (x.v == c) return x.s; return "?"; }
inline bool con_comm(Connector c) { for (auto &x : CONS) if (x.v == c) return x.comm; return false; }
inline const char *cop_str(Copula c) { for (auto &x : COPS) if (x.v == c) return x.s; return "?"; }

enum EK { ATOM, IVAR, DVAR, QVAR, NUM, OPR, STM, CMP };
struct Ex { EK k; std::string name; int num = 0; Copula cop = Copula::None; Connector con = Connector::None; std::vector<Ex> c; };
inline Ex atom(std::string n) { return {ATOM, n}; }
inline Ex ivar(std::string n) { return {IVAR, n}; }
inline Ex dvar(std::string n) { return {DVAR, n}; }
inline Ex qvar(std::string n) { return {QVAR, n}; }
inline Ex num(int n) { Ex e{NUM}; e.num = n; return e; }
inline Ex opr(std::string n) { return {OPR, n}; }
inline Ex stm(Ex s, Copula c, Ex p) { Ex e{STM}; e.cop = c; e.c = {s, p}; return e; }
inline Ex cmp(Connector k, std::vector<Ex> v) { Ex e{CMP}; e.con = k; e.c = v; return e; }
// operation statement (op, a, b) / op(a, b)
inline Ex opst(std::string op, std::vector<Ex> args) { return stm(cmp(Connector::Product, args), Copula::Inheritance, opr(op)); }

inline std::string itos(int n) { bool neg = n < 0; unsigned u = neg ? 0u - (unsigned)n : (unsigned)n; std::string s; do { s.insert(s.begin(), (char)('0' + u % 10)); u /= 10; } while (u); return neg ? "-" + s : s; }
// canonical text of an expected term
inline std::string text(const Ex &e) {
  switch (e.k) {
  case ATOM: return e.name;
  case IVAR: return "$" + e.name; case DVAR: return "#" + e.name; case QVAR: return "?" + e.name;
  case NUM: return "+" + itos(e.num); case OPR: return "^" + e.name;
  case STM: if (e.c[0].k == CMP && e.c[0].con == Connector::Product && e.c[0].c.empty()) return "(" + text(e.c[1]) + ")";   // an operation without arguments
    return "<" + text(e.c[0]) + " " + cop_str(e.cop) + " " + text(e.c[1]) + ">";
  case CMP: {
    std::string s;
    if (e.con == Connector::ExtensionalSet) s = "{"; else if (e.con == Connector::IntensionalSet) s = "["; else s = std::string("(") + con_str(e.con);
    for (size_t i = 0; i < e.c.size(); i++) { if (i || s.size() > 1 || s[0] == '(') s += ", "; s += text(e.c[i]); }
    return s + (e.con == Connector::ExtensionalSet ? "}" : e.con == Connector::IntensionalSet ? "]" : ")");
  } }
  return "";
}
// what the text means: the instance and property copulas abbreviate inheritance from/to a set
inline Ex meaning(const Ex &e) {
  Ex r = e; for (auto &x : r.c) x = meaning(x);
  if (e.k == STM) {
    if (e.cop == Copula::Instance || e.cop == Copula::InstanceProperty) r.c[0] = cmp(Connector::ExtensionalSet, {r.c[0]});
    if (e.cop == Copula::Property || e.cop == Copula::InstanceProperty) r.c[1] = cmp(Connector::IntensionalSet, {r.c[1]});
    if (e.cop == Copula::Instance || e.cop == Copula::Property || e.cop == Copula::InstanceProperty) r.cop = Copula::Inheritance;
  }
  return r;
}
struct Vars { std::map<std::string, int> m[3]; };
inline int var_index(Term &t, int kind) { auto &iv = kind == 0 ? t._vars_independent : kind == 1 ? t._vars_dependent : t._vars_query; return iv->indices.size() == 1 ? *iv->indices[0] : -1; }
// does the real term t say what e says? (no normalisation; commutative components as a set)
inline bool match(const Ex &e, Term &t, Vars &vs) {
  switch (e.k) {
  case ATOM: return t.type == TermType::ATOM && !t.is_var && !t.is_interval && !t.is_operation && INTERPRETER::interpreter.check(t.hash_value) && INTERPRETER::interpreter.get(t.hash_value) == e.name;
  case OPR: return t.type == TermType::ATOM && !t.is_var && !t.is_interval && t.is_operation && INTERPRETER::interpreter.check(t.hash_value) && INTERPRETER::interpreter.get(t.hash_value) == "^" + e.name;
  case NUM: return t.type == TermType::ATOM && !t.is_var && t.is_interval && ((Interval &)t).interval == e.num;
  case IVAR: case DVAR: case QVAR: {
    int kd = e.k - IVAR; if (t.type != TermType::ATOM || !t.is_var || t.is_ivar != (kd == 0) || t.is_dvar != (kd == 1) || t.is_qvar != (kd == 2)) return false;
    int ix = var_index(t, kd); if (ix < 0) return false;
    for (auto &p : vs.m[kd]) if ((p.first == e.name) != (p.second == ix)) return false;
    vs.m[kd][e.name] = ix; return true; }
  case STM: return t.type == TermType::STATEMENT && t.copula == e.cop && t.subject != nullptr && t.predicate != nullptr && match(e.c[0], *t.subject, vs) && match(e.c[1], *t.predicate, vs);
  case CMP: {
    if (t.type != TermType::COMPOUND || t.connector != e.con || t.terms == nullptr || t.terms->size() != e.c.size()) return false;
    std::vector<pTerm> ts; for (auto it = t.terms->begin(); it != t.terms->end(); ++it) ts.push_back(*it);
    if (!con_comm(e.con)) { for (size_t i = 0; i < ts.size(); i++) if (!match(e.c[i], *ts[i], vs)) return false; return true; }
    std::vector<char> used(ts.size(), 0);
    for (auto &x : e.c) { bool hit = false; for (size_t i = 0; i < ts.size() && !hit; i++) if (!used[i]) { Vars v2 = vs; if (match(x, *ts[i], v2)) { vs = v2; used[i] = 1; hit = true; } } if (!hit) return false; }
    return true; } }
  return false;
}
inline bool match(const Ex &e, Term &t) { Vars v; return match(e, t, v); }
// a name of n symbolic lower-case letters
inline std::string sym_name(const char *id, int n = 1) {
  std::string s; char b[8]; sx_sym_bytes(b, n, id);
  for (int i = 0; i < n; i++) sx_assume(b[i] >= 'a' && b[i] <= 'z');
  return std::string(b, n);
}
