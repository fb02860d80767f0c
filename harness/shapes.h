// terms with symbolic variables: every kind of node over every kind of leaf
#pragma once
#include "ref.h"
#include "tgen.h"
struct Occ { int kind; int idx; std::vector<int> pos; Term *at; };
inline pTerm leafv(int k, const char *id) { switch (k) { case 0: return A("a"); case 1: return V(0, sidx(id)); case 2: return V(1, sidx(id)); case 3: return V(2, sidx(id)); case 4: return N(sx_choose(2, "negative") ? -12 : 5); default: return build(opr("op")); } }
inline pTerm node(int k, std::vector<pTerm> v, bool in) {   // 10 kinds of node
  switch (k) {
  case 0: return S(v[0], Copula::Inheritance, v[1], in); case 1: return S(v[0], Copula::Similarity, v[1], in); case 2: return S(v[0], Copula::PredictiveImplication, v[1], in);
  case 3: return K(Connector::Product, v, in); case 4: return K(Connector::Negation, {v[0]}, in); case 5: return K(Connector::SequentialEvents, v, in); case 6: return K(Connector::ExtensionalDifference, {v[0], v[1]}, in);
  case 7: return K(Connector::Conjunction, v, in); case 8: return K(Connector::ExtensionalSet, v, in); default: return K(Connector::IntensionalIntersection, v, in);
  }
}
// the variables that occur in a term, in the order of its components
inline void occurrences(Term &t, std::vector<Occ> &out, std::vector<int> pos = {}) {
  if (t.is_atom()) { if (t.is_var) { int k = t.is_ivar ? 0 : t.is_dvar ? 1 : 2; sx_check(ivx(t, k)->indices.size() == 1, "a variable has one index"); out.push_back({k, *ivx(t, k)->indices[0], pos, &t}); } return; }
  auto p = parts(t); for (size_t i = 0; i < p.size(); i++) { auto q = pos; q.push_back((int)i); occurrences(*p[i], out, q); }
}
inline pTerm any_term(int depth, bool in) {
  int k = sx_choose(10, "node"), l0 = sx_choose(4, "l0"), l1 = sx_choose(4, "l1");
  pTerm a = leafv(l0, "i0"), b = leafv(l1, "i1");
  if (depth == 1) return node(k, {a, b, leafv(sx_choose(6, "l2"), "i2")}, in);
  int j = sx_choose(10, "inner"), at = sx_choose(2, "at"); pTerm n = node(j, {a, b}, in), c = leafv(1 + (l0 + k) % 3, "i2");
  return at ? node(k, {n, c, A("z")}, in) : node(k, {c, n, A("z")}, in);
}
