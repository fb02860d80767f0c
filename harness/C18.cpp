// Evidential bases: merging neither invents nor loses evidence, up to the maximal length.
#include "hx.h"
#include <set>
using EVIDENCE::Base; using EVIDENCE::pBase; typedef std::set<size_t> Ids;
#ifndef NMAX
#define NMAX (THOROUGH ? 4 : 3)
#endif
static Ids ids(int n, const char *w) { Ids s; size_t last = 0; for (int i = 0; i < n; i++) { size_t x = (uint8_t)sx_sym(8, (std::string(w) + char('0' + i)).c_str()); if (i) sx_assume(x > last); s.insert(s.end(), last = x); } return s; }   // every set of n ids
static bool sub(const Ids &a, const Ids &b) { for (size_t x : a) if (!b.count(x)) return false; return true; }
static Ids both(Ids a, const Ids &b) { for (size_t x : b) a.insert(x); return a; }
static void merged(const Ids &r, const Ids &a, const Ids &b, size_t max) {
  Ids u = both(a, b);
  sx_check(sub(r, u), "a merged base contains evidence of neither base"); sx_check(r.size() <= max, "a merged base is longer than the maximal length");
  if (a.size() + b.size() <= max) { sx_check(r == u, "a merged base lost evidence"); REACH("all"); }
  else { REACH("cut"); size_t h = max / 2; for (const Ids *s : {&a, &b}) { size_t i = 0; for (size_t x : *s) { if (i++ >= h) break; sx_check(r.count(x), "a merged base does not contain the first evidence of each base"); } } }
}
extern "C" int sx_main() {
#if MODE == 0 || MODE == 1
  int na = sx_choose(NMAX + 1, "na"), nb = sx_choose(NMAX + 1, "nb"); Ids A = ids(na, "a"), B = ids(nb, "b"); size_t max = sx_choose(2 * NMAX + 2, "max"); CONFIG::maximum_evidential_base_length = max;
  Base a(A), b(B);
#if MODE == 0
  pBase r = Base::interleave(a, b); merged(*r->_set, A, B, max); sx_check(*a._set == A && *b._set == B, "merging into a new base changed its operands");
  sx_check(r->size() == r->_set->size(), "the size of a base is not the number of its evidence");
  pBase q = Base::interleave(a, b); sx_check(*q->_set == *r->_set && q->__hash__() == r->__hash__(), "merging twice gives different bases");
#else
  a.__hash__(); size_t hb = b.__hash__(); a.extend(b); merged(*a._set, A, B, max); sx_check(*b._set == B && b.__hash__() == hb, "extending a base changed the other one");
  Base f(*a._set); sx_check(a.__hash__() == f.__hash__(), "the hash of an extended base is stale");
  pBase r = Base::interleave(Base(A), Base(B)); sx_check(*r->_set == *a._set, "extending and interleaving differ");
#endif
#elif MODE == 2
  int na = sx_choose(NMAX + 1, "na"), nb = sx_choose(NMAX + 1, "nb"); Ids A = ids(na, "a"), B = ids(nb, "b"); Base a(A), b(B);
  bool share = false; for (size_t x : A) if (B.count(x)) share = true;
  sx_check(a.is_overlaped(b) == share && b.is_overlaped(a) == share, "two bases overlap exactly when they share evidence"); sx_check(*a._set == A && *b._set == B, "the test for overlap changed a base");
  if (share) REACH("overlap"); else REACH("disjoint");
  a.__hash__(); size_t x = (uint8_t)sx_sym(8, "x"); bool had = A.count(x); sx_check(a.add(x) == &a, "add gives the base itself"); Ids E = A; E.insert(x); sx_check(*a._set == E && a.size() == A.size() + !had, "adding evidence adds exactly that");
  Base f(E); sx_check(a.__hash__() == f.__hash__(), "the hash of a base is stale after adding evidence");
  if (na == nb && na <= 2 && A == B) { Base c(A); sx_check(c.__hash__() == b.__hash__(), "equal bases have different hashes"); REACH("equal"); }
#elif MODE == 3                                     // every source of new evidence is distinct
  GLOBAL::_input_id = (uint32_t)sx_sym(32, "next"); std::vector<pBase> bs; int n = 3; std::vector<SENTENCE::pStamp> keep;
  for (int i = 0; i < n; i++) switch (sx_choose(7, "source")) {
    case 0: bs.push_back(pBase(new Base())); break;
    case 1: { auto s = SENTENCE::Stamp::create(); bs.push_back(s->evidential_base); break; }
    case 2: { auto s = SENTENCE::Stamp::create(true); bs.push_back(s->evidential_base); break; }
    case 3: { auto s = SENTENCE::Stamp::create((signed int)sx_choose(3, "t")); bs.push_back(s->evidential_base); break; }
    case 4: { auto s = SENTENCE::Stamp::create(0, 0, -1, nullptr, sx_choose(2, "eternal")); bs.push_back(s->evidential_base); break; }
    case 5: { SENTENCE::Question q(TERM::Term::create("a")); bs.push_back(q.stamp->evidential_base); break; }
    default: { static const char *T[6] = {"<a-->b>.", "<a-->b>?", "<a-->b>. :|:", "a! :/:", "a@ :\\:", "a. :!3:"}; pTask t = hx_parse(P(), T[sx_choose(6, "text")]); sx_check(t != nullptr && t->sentence->stamp != nullptr, "parse"); bs.push_back(t->sentence->stamp->evidential_base); REACH("parsed"); } }
  for (int i = 0; i < n; i++) { sx_check(bs[i] != nullptr && bs[i]->size() == 1, "new evidence is a single item"); for (int j = 0; j < i; j++) { sx_check(bs[i] != bs[j] && !bs[i]->is_overlaped(*bs[j]), "two inputs share evidence"); sx_check(*bs[j]->_set->begin() < *bs[i]->_set->begin(), "evidence is not numbered in the order of input"); } }
  REACH("fresh");
#endif
  return 0;
}
