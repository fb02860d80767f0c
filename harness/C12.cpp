// Collections of terms: union, intersection and difference are those of sets; ordered collections keep order.
#include "tgen.h"
using TERM::Terms; using TERM::pTerms;
static std::vector<pTerm> pool;
static std::vector<pTerm> sub(unsigned m, bool rev = false) { std::vector<pTerm> v; for (size_t i = 0; i < pool.size(); i++) { size_t j = rev ? pool.size() - 1 - i : i; if (m >> j & 1) v.push_back(pool[j]); } return v; }
static unsigned mask(Terms &t) { unsigned m = 0; for (auto it = t.begin(); it != t.end(); ++it) { bool hit = false; for (size_t i = 0; i < pool.size(); i++) if (same(**it, *pool[i])) { sx_check(!(m >> i & 1), "a set holds no term twice"); m |= 1u << i; hit = true; } sx_check(hit, "a set holds nothing but the given terms"); } return m; }
extern "C" int sx_main() {
  int i = sidx("i"), j = sidx("j"); sx_assume(i < j);
  pool = {A("a"), V(0, i), V(0, j), S(V(1, j), Copula::Inheritance, A("a"))};
#if MODE == 0
  unsigned m[3]; int n = 1 + sx_choose(3, "operands"); std::vector<pTerms> v; static const char *id[] = {"x", "y", "z"};
  for (int k = 0; k < n; k++) { m[k] = sx_choose(16, id[k]); v.push_back(Terms::create(sub(m[k]), true)); }
  unsigned in = m[0], un = m[0], df = m[0]; for (int k = 1; k < n; k++) { in &= m[k]; un |= m[k]; df &= ~m[k]; }
  auto ti = Terms::intersection(v), tu = Terms::union_(v), td = Terms::difference(v);
  sx_check(mask(*ti) == in && ti->size() == __builtin_popcount(in), "the intersection holds the common terms");
  sx_check(mask(*tu) == un && tu->size() == __builtin_popcount(un), "the union holds the terms of any operand");
  sx_check(mask(*td) == df && td->size() == __builtin_popcount(df), "the difference holds the terms of the first operand only");
  for (int k = 0; k < n; k++) sx_check(mask(*v[k]) == m[k], "operands are left as they were");
  sx_check(ti->_is_commutative && tu->_is_commutative && td->_is_commutative, "results are sets");
  REACH("combined");
#elif MODE == 1    // building collections in every way, in any order, with repetitions
  unsigned m = sx_choose(16, "x"), r = sx_choose(16, "again"); bool comm = sx_choose(2, "set"), rev = sx_choose(2, "reversed"); int way = sx_choose(5, "way");
  std::vector<pTerm> v = sub(m, rev), w = sub(r & m); v.insert(v.end(), w.begin(), w.end());
  Terms from(true); for (auto &t : v) from.push_back(t);
  pTerms t; std::vector<pTerm> exp = v;
  if (way == 0) t = pTerms(new Terms(v, comm)); else if (way == 1) t = pTerms(new Terms(std::list<pTerm>(v.begin(), v.end()), comm)); else if (way == 2) { t = Terms::create(comm); for (auto &x : v) t->push_back(x); }
  else { t = way == 3 ? pTerms(new Terms(from, comm)) : pTerms(new Terms(from.terms_unordered, comm)); exp = std::vector<pTerm>(from.begin(), from.end()); }
  std::vector<pTerm> out = *t;
  size_t n = 0; for (auto it = t->begin(); it != t->end(); ++it, n++) sx_check(n < out.size() && out[n] == *it, "iterating and converting to a vector agree");
  sx_check(n == t->size() && n == out.size(), "the size is the number of terms");
  if (comm) { sx_check(mask(*t) == m, "a set holds the given terms"); sx_check(n == __builtin_popcount(m), "a set holds every term once"); }
  else { sx_check(n == exp.size(), "an ordered collection keeps every term"); for (size_t k = 0; k < n && k < exp.size(); k++) sx_check(&*out[k] == &*exp[k], "an ordered collection keeps the order given"); }
  REACH("built");
#elif MODE == 2    // operands that are not sets are refused
  int at = sx_choose(3, "ordered one"), op = sx_choose(3, "op"), n = 1 + at + sx_choose(2, "more"); std::vector<pTerms> v; for (int k = 0; k < n; k++) v.push_back(Terms::create(sub(3 + k), k != at));
  bool threw = false; try { op == 0 ? Terms::intersection(v) : op == 1 ? Terms::union_(v) : Terms::difference(v); } catch (const std::runtime_error &) { threw = true; }
  sx_check(threw, "an operand that is not a set is refused"); 
  threw = false; std::vector<pTerms> none; try { op == 0 ? Terms::intersection(none) : op == 1 ? Terms::union_(none) : Terms::difference(none); } catch (const std::runtime_error &) { threw = true; }
  sx_check(threw, "no operands are refused"); REACH("refused");
#endif
  pool.clear(); return 0;
}
