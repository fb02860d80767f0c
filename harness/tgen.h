// Building real terms through their constructors, and an independent notion of "the same term".
#pragma once
#include "ref.h"
using VARIABLE::VarPrefix;
inline pTerm A(const char *n) { return Term::create(n); }
inline INDEXVAR::pIndexVar ivx(Term &t, int kind) { return kind == 0 ? t._vars_independent : kind == 1 ? t._vars_dependent : t._vars_query; }
inline pTerm V(int kind, int idx) { pTerm v(new Variable((VarPrefix)kind, VARIABLE::Repr[kind] + "v")); ivx(*v, kind)->add(idx, {}); return v; }
inline pTerm N(int n) { return pTerm(new Interval(n)); }
inline pTerm S(pTerm s, Copula c, pTerm p, bool in = true) { return pTerm(new Statement(s, c, p, in)); }
inline pTerm K(Connector c, std::vector<pTerm> v, bool in = true) { return pTerm(new Compound(c, v, in)); }
inline std::vector<pTerm> parts(Term &t) {
  std::vector<pTerm> r;
  if (t.type == TermType::STATEMENT) { r.push_back(t.subject); r.push_back(t.predicate); }
  if (t.type == TermType::COMPOUND) for (auto it = t.terms->begin(); it != t.terms->end(); ++it) r.push_back(*it);
  return r;
}
// equality by structure: atoms by identity, intervals by value, variables by kind and index, order-insensitive compounds as sets
inline bool same(Term &a, Term &b) {
  if (a.type != b.type) return false;
  if (a.type == TermType::ATOM) {
    if (a.is_var != b.is_var || a.is_interval != b.is_interval) return false;
    if (a.is_var) { int k = a.is_ivar ? 0 : a.is_dvar ? 1 : 2, l = b.is_ivar ? 0 : b.is_dvar ? 1 : 2; return k == l && *ivx(a, k)->indices[0] == *ivx(b, k)->indices[0]; }
    if (a.is_interval) return ((Interval &)a).interval == ((Interval &)b).interval;
    return &a == &b;
  }
  if (a.type == TermType::STATEMENT) return a.copula == b.copula && same(*a.subject, *b.subject) && same(*a.predicate, *b.predicate);
  auto x = parts(a), y = parts(b); if (a.connector != b.connector || x.size() != y.size()) return false;
  if (!con_comm(a.connector)) { for (size_t i = 0; i < x.size(); i++) if (!same(*x[i], *y[i])) return false; return true; }
  std::vector<char> used(y.size(), 0);
  for (auto &p : x) { bool hit = false; for (size_t j = 0; j < y.size() && !hit; j++) if (!used[j] && same(*p, *y[j])) { used[j] = 1; hit = true; } if (!hit) return false; }
  return true;
}
// a real term from an expected one; the name of a variable is its index
inline pTerm build(const Ex &e, bool in = true) {
  switch (e.k) {
  case ATOM: return A(e.name.c_str());
  case IVAR: case DVAR: case QVAR: return V(e.k - IVAR, e.name[0] - '0');
  case NUM: return N(e.num);
  case OPR: { void *op = NARSESEPARSER::operation(nullptr, {(void *)new std::string(e.name)}); pTerm r(*(pTerm *)op); delete (pTerm *)op; return r; }
  case STM: return S(build(e.c[0], in), e.cop, build(e.c[1], in), in);
  default: { std::vector<pTerm> v; for (auto &x : e.c) v.push_back(build(x, in)); return K(e.con, v, in); }
  }
}
#ifndef IDXMAX
#define IDXMAX 255
#endif
inline int sidx(const char *n) { int i = (int)sx_sym(8, n); sx_assume(i <= IDXMAX); return i; }
