// The order of terms is a strict weak order whose equivalence is equality.
#include "tgen.h"
// The order of atoms follows their hashes, which mix their addresses: the hashes of the atoms are any two different values.
static pTerm pick(int k, const pTerm *at, const char *id) {
  const pTerm &a = at[0], &b = at[1]; auto v = [&](int kind) { return V(kind, sidx(id)); };
  switch (k) {
  case 0: return a; case 1: return b; case 2: return v(0); case 3: return v(1); case 4: return v(2); case 5: { int n = (int)sx_sym(32, id); sx_assume(n >= 0); return N(n); }
  case 6: return S(v(0), Copula::Inheritance, a); case 7: return S(v(0), Copula::Inheritance, b); case 8: return S(a, Copula::Inheritance, v(0)); case 9: return S(a, Copula::Similarity, b);
  case 10: return K(Connector::Product, {v(1), a}); case 11: return K(Connector::ExtensionalSet, {v(1), a, b}); case 12: return K(Connector::Conjunction, {S(v(0), Copula::Inheritance, a), S(a, Copula::Inheritance, v(1))});
  case 13: return K(Connector::ExtensionalSet, {v(1), b}); case 14: return S(v(2), Copula::Inheritance, K(Connector::Product, {v(2), v(0)})); default: return K(Connector::Product, {a, b, v(0)});
  }
}
extern "C" int sx_main() {
  pTerm x, y, z;
#if MODE == 0      // triples over atoms at any addresses, variables of any index, and terms of both
  pTerm at[2] = {A("a"), A("b")};
  int i = sx_choose(NK, "x"), j = sx_choose(NK, "y"), k = sx_choose(NK, "z"); sx_assume(i <= j && j <= k);
  if (k < 6) { size_t h[2] = {sx_sym(64, "hash a"), sx_sym(64, "hash b")}; sx_assume(h[0] != h[1]); for (int m = 0; m < 2; m++) { at[m]->hash_value = h[m]; } }
  else if (sx_choose(2, "order")) std::swap(at[0]->hash_value, at[1]->hash_value);
  x = pick(i, at, "xi"); y = pick(j, at, "yi"); z = pick(k, at, "zi");
  for (auto &t : {x, y, z}) if (t->is_interval) sx_assume(t->hash_value != at[0]->hash_value && t->hash_value != at[1]->hash_value);
#elif MODE == 1    // terms of one shape that differ in indices only: every index symbolic
  int s = sx_choose(8, "shape"); pTerm at[2] = {A("a"), A("b")};
  auto mk = [&](const char *p, const char *q) {
    auto v = [&](int kind, const char *id) { int n = (int)sx_sym(8, id); sx_assume(n < NIDX); return V(kind, n); };
    switch (s) {
    case 0: return S(v(0, p), Copula::Inheritance, v(0, q)); case 1: return S(v(0, p), Copula::Inheritance, v(1, q)); case 2: return K(Connector::Product, {v(1, p), v(1, q)});
    case 3: return S(S(v(0, p), Copula::Inheritance, at[0]), Copula::Implication, S(v(0, q), Copula::Inheritance, at[1]));
    case 4: return K(Connector::Conjunction, {S(v(0, p), Copula::Inheritance, at[0]), S(v(2, q), Copula::Inheritance, at[1])});
    case 5: return K(Connector::ExtensionalSet, {v(0, p), v(2, q), at[0]}); case 6: return K(Connector::Product, {K(Connector::Product, {v(0, p)}), S(v(1, q), Copula::Similarity, at[0])});
    default: return K(Connector::ExtensionalSet, {v(1, p), v(1, q)});
    }
  };
  x = mk("x0", "x1"); y = mk("y0", "y1"); z = mk("z0", "z1");
#endif
  bool xy = *x < *y, yx = *y < *x, yz = *y < *z, zy = *z < *y, xz = *x < *z, zx = *z < *x;
  sx_check(!(*x < *x) && !(*y < *y) && !(*z < *z), "no term precedes itself");
  sx_check(!(xy && yx) && !(yz && zy) && !(xz && zx), "of two terms at most one precedes the other");
  sx_check((!xy && !yx) == same(*x, *y) && (!yz && !zy) == same(*y, *z) && (!xz && !zx) == same(*x, *z), "exactly one of two different terms precedes the other");
  sx_check(!(xy && yz && !xz) && !(yx && xz && !yz) && !(xz && zy && !xy) && !(zx && xy && !zy) && !(yz && zx && !yx) && !(zy && yx && !zx), "the order is transitive");
  if (same(*x, *y)) REACH("equivalent"); else REACH("different");
  // containers ordered by it agree
#if MODE == 0
  struct Restore { pTerm *at; ~Restore() { for (int m = 0; m < 2; m++) at[m]->do_hashing(); } } restore{at};   // before the dictionary is asked again
#endif
  Terms t(true); t.push_back(x); t.push_back(y); t.push_back(z);
  size_t n = 1 + !same(*x, *y) + (!same(*x, *z) && !same(*y, *z));
  sx_check(t.size() == n, "a set of terms holds every term once");
  return 0;
}
