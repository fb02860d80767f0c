// Truth functions: results stay in their ranges and obey the laws of the logic for every pair of single-precision truth values.
#include "hx.h"
#include "NAL/Functions/include/TruthFunctions.h"
using namespace TRUTH_FUNCTIONS;
using TRUTH::Truth; using TRUTH::pTruth;
static float unit(const char *n, unsigned max = 0x3f800000u) { unsigned v = (unsigned)sx_sym(32, n); sx_assume(v <= max); float f; memcpy(&f, &v, 4); return f; }   // every float in [0, max]
static const unsigned BELOW1 = 0x3f7fffff, C9999 = 0x3f7ff972;   // the largest float below 1; 0.9999
static bool eq(const Truth &a, const Truth &b) { return a.f == b.f && a.c == b.c && a.k == b.k; }
extern "C" int sx_main() {
#if MODE == 4                                       // the connectives the truth functions are made of
  double x1 = unit("x1"), x2 = unit("x2"), x3 = unit("x3"), x4 = unit("x4");
  double a2 = And(x1, x2), a3 = And(x1, x2, x3), a4 = And(x1, x2, x3, x4), o2 = Or(x1, x2), o3 = Or(x1, x2, x3), o4 = Or(x1, x2, x3, x4);
  sx_check(a2 >= 0 && a2 <= x1 && a2 <= x2, "a conjunction of two degrees is in [0, 1] and below both");
  sx_check(a3 >= 0 && a3 <= a2 && a3 <= x3, "a conjunction of three degrees is below each of them");
  sx_check(a4 >= 0 && a4 <= a3 && a4 <= x4, "a conjunction of four degrees is below each of them");
  sx_check(o2 >= 0 && o2 <= 1 && o3 >= 0 && o3 <= 1 && o4 >= 0 && o4 <= 1, "a disjunction is in [0, 1]");
  sx_check(o3 >= o2 && o4 >= o3, "a disjunction grows with more degrees");
  const double T = 1e-15;
  sx_check(o2 >= x1 - T && o2 >= x2 - T && o3 >= x3 - T && o4 >= x4 - T, "a disjunction is above each of its degrees");
  sx_check(Or({x1, x2}) == o2 && Or({x1, x2, x3}) == o3 && Or({x1, x2, x3, x4}) == o4, "the disjunction of a list is the disjunction of its members");
  REACH("connectives"); return 0;
#else
#if MODE == 3 || MODE == 6 || MODE == 7
  static const float KS[3] = {1.0f, 0.5f, 2.0f}; float k = KS[sx_choose(3, "k")];
#else
  float k = unit("k", 0x40800000u); sx_assume(k >= 0.25f);        // evidential horizon in [0.25, 4]
#endif
#if MODE == 3 || MODE == 5
  pTruth a = Truth::create(unit("f1"), unit("c1", C9999), k), b = Truth::create(unit("f2"), unit("c2", C9999), k);
#elif MODE == 6
  static const float CS[4] = {0.01f, 0.45f, 0.9f, 0.999f}; pTruth a = Truth::create(unit("f1"), CS[sx_choose(4, "c1")], k), b = Truth::create(unit("f2"), CS[sx_choose(4, "c2")], k);
#elif MODE == 7
  static const float FS[4] = {0.0f, 0.25f, 0.9f, 1.0f}; pTruth a = Truth::create(FS[sx_choose(4, "f1")], unit("c1", C9999), k), b = Truth::create(FS[sx_choose(4, "f2")], unit("c2", C9999), k);
#else
  pTruth a = Truth::create(unit("f1"), unit("c1", BELOW1), k), b = Truth::create(unit("f2"), unit("c2", BELOW1), k);
#endif
  Truth x = *a, y = *b;
#if MODE == 0
  pTruth t = truth_deduction(a, b);
  sx_check(t != a && t != b && eq(*a, x) && eq(*b, y), "deduction leaves its premises as they were");
  sx_check(t->f >= 0 && t->c >= 0 && t->f <= x.f && t->f <= y.f, "the frequency of a deduction is in [0, 1] and not above that of a premise");
  sx_check(t->c <= x.c && t->c <= y.c && t->c <= x.f && t->c <= y.f && t->c < 1, "the confidence of a deduction is in [0, 1) and not above the confidence or frequency of a premise");
  sx_check(t->k == k, "a deduction keeps the evidential horizon"); REACH("deduction");
#elif MODE == 1
  pTruth t = truth_induction(a, b);
  sx_check(t != a && t != b && eq(*a, x) && eq(*b, y), "induction leaves its premises as they were");
  sx_check(t->f >= 0 && t->f <= 1, "the frequency of an induction is in [0, 1]");
  sx_check(t->c >= 0 && t->c <= 0.5f, "the confidence of an induction is that of at most one unit of evidence");
  REACH("induction");
#elif MODE == 2
  sx_assume(x.f >= 0.001f && y.f >= 0.001f); pTruth t = truth_comparison(a, b);
  sx_check(t != a && t != b && eq(*a, x) && eq(*b, y), "comparison leaves its premises as they were");
  sx_check(t->f >= 0 && t->f <= 1, "the frequency of a comparison is in [0, 1]");
  sx_check(t->c >= 0 && t->c <= 0.5f, "the confidence of a comparison is that of at most one unit of evidence");
  REACH("comparison");
#elif MODE == 3 || MODE == 6 || MODE == 7
  sx_assume(x.c >= 0.001f && y.c >= 0.001f); truth_revision(a, b);
  sx_check(eq(*b, y) && a->k == k, "revision changes neither the second truth value nor the evidential horizon");
#if MODE == 3
  sx_check(a->c > 0 && a->c < 1, "the confidence of a revision is in (0, 1)");
  sx_check(a->c >= x.c - 1e-4f && a->c >= y.c - 1e-4f, "revision does not lower confidence");
#else
  float lo = x.f < y.f ? x.f : y.f, hi = x.f < y.f ? y.f : x.f;
  sx_check(a->f >= lo - 1e-4f && a->f <= hi + 1e-4f, "the frequency of a revision lies between those of its premises");
#endif
  REACH("revision");
#elif MODE == 5
  pTruth p = Truth::create(x.f, x.c, k), q = Truth::create(y.f, y.c, k);
  truth_revision(a, b); truth_revision(*q, *p); sx_check(a->f == q->f && a->c == q->c, "revision does not depend on the order of its premises"); REACH("order");
#endif
  return 0;
#endif
}
