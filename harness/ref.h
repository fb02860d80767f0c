// Reference reading of Narsese text, written from the grammar (narsese.par) and independent of the generated parser:
// all readings of a text, as expected terms; and the documented normalisation of compounds on expected terms.
#pragma once
#include "hx.h"
#include <functional>

inline bool ex_eq(const Ex &a, const Ex &b) {
  if (a.k != b.k) return false;
  if (a.k == STM) return a.cop == b.cop && ex_eq(a.c[0], b.c[0]) && ex_eq(a.c[1], b.c[1]);
  if (a.k == NUM) return a.num == b.num;
  if (a.k != CMP) return a.name == b.name;
  if (a.con != b.con || a.c.size() != b.c.size()) return false;
  if (!con_comm(a.con)) { for (size_t i = 0; i < a.c.size(); i++) if (!ex_eq(a.c[i], b.c[i])) return false; return true; }
  for (auto &x : a.c) { bool h = false; for (auto &y : b.c) if (ex_eq(x, y)) { h = true; break; } if (!h) return false; }   // both sides have distinct components
  return true;
}
inline bool ex_in(const Ex &x, const std::vector<Ex> &v) { for (auto &y : v) if (ex_eq(x, y)) return true; return false; }
inline void ex_add(std::vector<Ex> &v, const Ex &x) { if (!ex_in(x, v)) v.push_back(x); }
// the documented normalisation, bottom-up
inline Ex normal(Ex e) {
  for (auto &x : e.c) x = normal(x);
  if (e.k != CMP) return e;
  Connector K = e.con;
  bool reducible = con_comm(K) || K == Connector::SequentialEvents;
  if (!reducible) return e;
  std::vector<Ex> flat;
  for (auto &x : e.c) if (x.k == CMP && x.con == K) for (auto &y : x.c) flat.push_back(y); else flat.push_back(x);
  if (!con_comm(K)) { e.c = flat; return e; }
  std::vector<Ex> v; for (auto &x : flat) ex_add(v, x);
  if (K == Connector::ExtensionalIntersection || K == Connector::IntensionalIntersection) {
    std::vector<Ex> out;
    for (auto &x : v) if (!(x.k == CMP && (x.con == Connector::ExtensionalSet || x.con == Connector::IntensionalSet))) out.push_back(x);
    for (Connector S : {Connector::ExtensionalSet, Connector::IntensionalSet}) {
      std::vector<Ex> sets; for (auto &x : v) if (x.k == CMP && x.con == S) sets.push_back(x);
      if (sets.empty()) continue;
      bool inter = (K == Connector::ExtensionalIntersection) == (S == Connector::ExtensionalSet);
      std::vector<Ex> m = sets[0].c;
      for (size_t i = 1; i < sets.size(); i++) {
        if (inter) { std::vector<Ex> n; for (auto &x : m) if (ex_in(x, sets[i].c)) n.push_back(x); m = n; }
        else for (auto &x : sets[i].c) ex_add(m, x);
      }
      if (m.empty()) for (auto &x : sets) out.push_back(x); else out.push_back(cmp(S, m));
    }
    if (out.size() == 1 && out[0].k == CMP && (out[0].con == Connector::ExtensionalSet || out[0].con == Connector::IntensionalSet)) return out[0];
    v = out;
  }
  e.c = v; return e;
}

struct Ref {
  typedef std::vector<std::pair<Ex, int>> R;
  const std::string &s; int n; std::map<int, R> memo;
  Ref(const std::string &t) : s(t), n((int)t.size()) {}
  int ws(int p) { while (p < n && (s[p] == ' ' || s[p] == '\t')) p++; return p; }
  // position behind the token, or -1
  int tok(int p, const char *t) { p = ws(p); for (int i = 0; t[i]; i++, p++) if (p >= n || s[p] != t[i]) return -1; return p; }
  static bool wordc(char c) { for (const char *x = "-+<>=\"&|!.?@~%;,:/\\*#$[]{}()^ "; *x; x++) if (c == *x) return false; return c > 0 && c != '\n'; }
  void word(int p, std::vector<std::pair<std::string, int>> &out) {
    // a tab may begin a word or separate tokens
    for (int q = p;; q++) {
      if (q < n && wordc(s[q])) { int e = q; while (e < n && wordc(s[e])) e++; out.push_back({s.substr(q, e - q), e}); }
      else if (q < n && s[q] == '"') { int e = q + 1; while (e < n && s[e] > 0 && s[e] != '\\' && s[e] != '"') { e++; if (e + 1 < n && s[e] == '\\' && (s[e + 1] == '\\' || s[e + 1] == '"')) e += 2; } if (e < n && s[e] == '"') out.push_back({s.substr(q, e + 1 - q), e + 1}); }
      if (!(q < n && (s[q] == ' ' || s[q] == '\t'))) break;
    }
  }
  bool integer(int p, int &v, int &e) {
    p = ws(p); bool neg = false; if (p < n && s[p] == '-') { neg = true; p++; } long x = 0; int d = p; while (d < n && s[d] >= '0' && s[d] <= '9') { if (x <= 100000000000L) x = x * 10 + (s[d] - '0'); d++; }
    if (d == p) return false; if (neg) x = -x; e = d; v = (int)x; return x >= -2147483648L && x <= 2147483647L;
  }
  void list(int p, const char *sep, int min, std::vector<std::pair<std::vector<Ex>, int>> &out) {   // term (sep term)*, at least min terms
    std::function<void(std::vector<Ex>, int)> go = [&](std::vector<Ex> v, int q) {
      for (auto &[t, e] : term(q)) { auto w = v; w.push_back(t); if ((int)w.size() >= min) out.push_back({w, e}); int r = tok(e, sep); if (r >= 0) go(w, r); } };
    go({}, p);
  }
  void infix(int p, R &out) {   // a op b op c, one operator
    for (auto K : {Connector::Product, Connector::Disjunction, Connector::Conjunction, Connector::SequentialEvents, Connector::ParallelEvents, Connector::IntensionalIntersection, Connector::ExtensionalIntersection}) {
      std::vector<std::pair<std::vector<Ex>, int>> l; list(p, con_str(K), 2, l); for (auto &[v, e] : l) out.push_back({cmp(K, v), e}); }
  }
  void tm(int p, R &out) { for (auto &x : term(p)) out.push_back(x); infix(p, out); }
  void statement(int p, R &out) {
    for (int b = 0; b < 2; b++) { int q = tok(p, b ? "(" : "<"); if (q < 0) continue;
      for (auto &[a, e] : term(q)) for (auto &c : COPS) { int f = tok(e, c.s); if (f < 0) continue; for (auto &[x, g] : term(f)) { int h = tok(g, b ? ")" : ">"); if (h >= 0) out.push_back({stm(a, c.v, x), h}); } } }
    int q = tok(p, "(");
    if (q >= 0 && (q = tok(q, "^")) >= 0) { std::vector<std::pair<std::string, int>> ws_; word(q, ws_);
      for (auto &[w, e] : ws_) { int h = tok(e, ")"); if (h >= 0) out.push_back({opst(w, {}), h}); int c = tok(e, ","); if (c >= 0) { std::vector<std::pair<std::vector<Ex>, int>> l; list(c, ",", 1, l); for (auto &[v, f] : l) if ((h = tok(f, ")")) >= 0) out.push_back({opst(w, v), h}); } } }
    std::vector<std::pair<std::string, int>> ws_; word(p, ws_);
    for (auto &[w, e] : ws_) { int c = tok(e, "("); if (c < 0) continue; std::vector<std::pair<std::vector<Ex>, int>> l; list(c, ",", 1, l); for (auto &[v, f] : l) { int h = tok(f, ")"); if (h >= 0) out.push_back({opst(w, v), h}); } }
  }
  void compound(int p, R &out) {
    std::vector<std::pair<std::vector<Ex>, int>> l; int q, h;
    if ((q = tok(p, "{")) >= 0) { list(q, ",", 1, l); for (auto &[v, e] : l) if ((h = tok(e, "}")) >= 0) out.push_back({cmp(Connector::ExtensionalSet, v), h}); }
    if ((q = tok(p, "[")) >= 0) { l.clear(); list(q, ",", 1, l); for (auto &[v, e] : l) if ((h = tok(e, "]")) >= 0) out.push_back({cmp(Connector::IntensionalSet, v), h}); }
    if ((q = tok(p, "--")) >= 0) for (auto &[t, e] : term(q)) out.push_back({cmp(Connector::Negation, {t}), e});
    if ((q = tok(p, "(")) < 0) return;
    auto pre = [&](Connector K, int min, int max) { int r = tok(q, con_str(K)); if (r < 0 || (r = tok(r, ",")) < 0) return; l.clear(); list(r, ",", min, l); for (auto &[v, e] : l) if ((int)v.size() <= max && (h = tok(e, ")")) >= 0) out.push_back({cmp(K, v), h}); };
    pre(Connector::Negation, 1, 1); pre(Connector::IntensionalImage, 1, 99); pre(Connector::ExtensionalImage, 1, 99); pre(Connector::Product, 1, 99);
    for (auto K : {Connector::Conjunction, Connector::Disjunction, Connector::ParallelEvents, Connector::SequentialEvents, Connector::IntensionalIntersection, Connector::ExtensionalIntersection}) pre(K, 2, 99);
    l.clear(); list(q, ",", 2, l); for (auto &[v, e] : l) if (v[0].k != OPR && (h = tok(e, ")")) >= 0) out.push_back({cmp(Connector::Product, v), h});
    R x; infix(q, x); for (auto &[t, e] : x) if ((h = tok(e, ")")) >= 0) out.push_back({t, h});
    for (auto K : {Connector::ExtensionalDifference, Connector::IntensionalDifference}) {
      R a; int r = tok(q, con_str(K));
      if (r >= 0 && (r = tok(r, ",")) >= 0) { tm(r, a); for (auto &[t, e] : a) { int c = tok(e, ","); if (c < 0) continue; R b; tm(c, b); for (auto &[u, f] : b) if ((h = tok(f, ")")) >= 0) out.push_back({cmp(K, {t, u}), h}); } }
      a.clear(); tm(q, a); for (auto &[t, e] : a) { int c = tok(e, con_str(K)); if (c < 0) continue; R b; tm(c, b); for (auto &[u, f] : b) if ((h = tok(f, ")")) >= 0) out.push_back({cmp(K, {t, u}), h}); } }
  }
  R term(int p) {
    p = ws_min(p); auto it = memo.find(p); if (it != memo.end()) return it->second;
    R out; std::vector<std::pair<std::string, int>> w;
    for (int k = 0; k < 3; k++) { int q = tok(p, k == 0 ? "$" : k == 1 ? "#" : "?"); if (q >= 0) { w.clear(); word(q, w); for (auto &[x, e] : w) out.push_back({Ex{k == 0 ? IVAR : k == 1 ? DVAR : QVAR, x}, e}); } }
    int q = tok(p, "+"), v, e; if (q >= 0 && integer(q, v, e)) out.push_back({num(v), e});
    q = tok(p, "^"); if (q >= 0) { w.clear(); word(q, w); for (auto &[x, f] : w) out.push_back({opr(x), f}); }
    w.clear(); word(p, w); for (auto &[x, f] : w) out.push_back({atom(x), f});
    compound(p, out); statement(p, out);
    memo[p] = out; return out;
  }
  int ws_min(int p) { return p; }
  // the rest behind the punctuation, the budget in front
  struct Sent { Ex term; int punct; bool budget; int bp[3], be[3]; int tense; int when; bool truth; int tp[3], te[3]; };
  // one number; kind 0: [0,1], 1: (0,1), 2: positive integer. all prefixes that are numbers
  void number(int p, int kind, std::vector<std::pair<int, int>> &out) {
    p = ws(p); if (kind == 2) { int e = p; if (e < n && s[e] >= '1' && s[e] <= '9') { while (e < n && s[e] >= '0' && s[e] <= '9') e++; out.push_back({p, e}); } return; }
    auto dig = [&](int q) { return q < n && s[q] >= '0' && s[q] <= '9'; };
    int q = p; bool one = false; if (q < n && (s[q] == '0' || s[q] == '1')) { one = s[q] == '1'; q++; if (kind == 0) out.push_back({p, q}); }
    if (q < n && s[q] == '.') { int e = q + 1; bool nz = false; while (dig(e)) { if (s[e] != '0') nz = true; e++; }
      if (one) { if (kind == 0 && !nz) out.push_back({p, e}); }
      else if (e > q + 1 && (kind == 0 || nz)) out.push_back({p, e}); }
  }
  int numbers(int p, const char *q, int k0, int k1, int k2, int *b, int *e) {   // q n (; n (; n)?)? q
    int kinds[3] = {k0, k1, k2}; for (int i = 0; i < 3; i++) b[i] = e[i] = -1;
    p = tok(p, q); if (p < 0) return -1;
    for (int i = 0; i < 3; i++) {
      std::vector<std::pair<int, int>> l; number(p, kinds[i], l); if (l.empty()) return -1;
      b[i] = l.back().first; e[i] = l.back().second; p = e[i];
      int r = tok(p, q); if (r >= 0) return r;
      p = tok(p, ";"); if (p < 0) return -1;
    }
    return -1;
  }
  std::vector<Sent> sentences() {
    std::vector<Sent> out;
    for (int b = 0; b < 2; b++) {
      Sent se{}; int p = 0; se.budget = b;
      if (b) { p = numbers(0, "$", 0, 1, 0, se.bp, se.be); if (p < 0) continue; }
      for (auto &[t, e] : term(p)) {
        if (t.k == IVAR || t.k == DVAR || t.k == QVAR) continue;
        for (int k = 0; k < 4; k++) {
          const char *ps[4] = {".", "?", "!", "@"}; int q = tok(e, ps[k]); if (q < 0) continue;
          Sent x = se; x.term = t; x.punct = k; x.tense = 0;
          int v, f; int r = tok(q, ":!");
          if (r >= 0 && integer(r, v, f) && (r = tok(f, ":")) >= 0) { x.tense = 4; x.when = v; q = r; }
          else if ((r = tok(q, ":/:")) >= 0) { x.tense = 3; q = r; } else if ((r = tok(q, ":|:")) >= 0) { x.tense = 2; q = r; } else if ((r = tok(q, ":\\:")) >= 0) { x.tense = 1; q = r; }
          if (k == 0 || k == 2) { r = numbers(q, "%", 0, 1, 2, x.tp, x.te); if (r >= 0) { x.truth = true; q = r; } }
          if (ws(q) == n) out.push_back(x);
        }
      }
    }
    return out;
  }
};
// does the parsed task say one of the readings of the text? (terms, punctuation, tense; numbers are another property)
inline bool reads_as(const std::string &txt, Task &task) {
  Ref r(txt); auto &se = *task.sentence;
  for (auto &x : r.sentences()) {
    if ((int)se.punct != x.punct) continue;
    if (!match(normal(meaning(x.term)), *se.term)) continue;
    auto &st = *se.stamp; if (st.is_eternal != (x.tense == 0)) continue;
    int D = (int)CONFIG::temporal_duration, T = (int)GLOBAL::time;
    if (x.tense == 1 && st.t_occurrence != T - D) continue; if (x.tense == 2 && st.t_occurrence != T) continue; if (x.tense == 3 && st.t_occurrence != T + D) continue; if (x.tense == 4 && st.t_occurrence != x.when) continue;
    return true;
  }
  return false;
}
