// Projection discounts confidence by temporal distance and by nothing else, for every source, target and current time.
#include "hx.h"
#include "NAL/Functions/include/TemporalFunctions.h"
using TRUTH::Truth; using TRUTH::pTruth; using TEMPORAL_FUNCTIONS::project;
static float unit(const char *n, unsigned max = 0x3f800000u) { unsigned v = (unsigned)sx_sym(32, n); sx_assume(v <= max); float f; memcpy(&f, &v, 4); return f; }
#ifndef BITS
#define BITS 32
#endif
static int64_t when(const char *n) { return BITS == 32 ? (int64_t)(int32_t)sx_sym(32, n) : (int64_t)(int16_t)sx_sym(16, n); }
extern "C" int sx_main() {
  float f = unit("f"), c = unit("c"), k = unit("k", 0x40800000u); sx_assume(k >= 0.25f);
  pTruth t = Truth::create(f, c, k); int64_t s = when("source"), n = when("now"), g = when("target"); size_t d = (uint32_t)sx_sym(32, "decay"); sx_assume(d >= 1); sx_assume(d <= 1000000);
#if MODE == 0
  pTruth r = project(t, s, n, g, d);
  sx_check(r != t && t->f == f && t->c == c && t->k == k, "projection leaves the truth value as it was");
  sx_check(r->f == f && r->k == k, "projection keeps frequency and evidential horizon");
  sx_check(r->c >= 0 && r->c <= c, "projection never raises confidence and never makes it negative"); REACH("range");
#elif MODE == 1
  pTruth r = project(t, s, n, s, d); sx_check(r->c == c, "projection to the same time keeps confidence"); REACH("same");
  pTruth q = project(t, s, n, s); sx_check(q->c == c, "projection to the same time keeps confidence");
#elif MODE == 2
  pTruth a = project(t, s, n, g, d), b = project(t, g, n, s, d); sx_check(a->c == b->c, "the discount between two times is the same in both directions"); REACH("symmetric");
#elif MODE == 3
  static const int64_t TS[5] = {0, 1, -20, 1000, 123456}, DS[3] = {0, 1000, 7}; s = TS[sx_choose(5, "s")]; n = TS[sx_choose(5, "n")]; g = TS[sx_choose(5, "g")]; d = DS[sx_choose(3, "d")]; pTruth a = project(t, s, n, g, d); int64_t num = s > g ? s - g : g - s, den = (s > n ? s - n : n - s) + (g > n ? g - n : n - g) + (int64_t)d; if (den == 0) { sx_check(a->c == c, "projection without any distance keeps confidence"); REACH("zero"); return 0; }
  double x = (double)a->c * (double)den, y = (double)(den - num) * (double)c, e = (double)den * 1e-6; sx_check(x - y <= e && y - x <= e, "the discount is the distance between the times over the sum of their distances from now and the decay"); REACH("formula");
#elif MODE == 4
  pTruth a = project(t, s, n, g, 1000), b = project(t, s, n, g); sx_check(a->c == b->c, "the decay is 1000 unless given"); REACH("decay");
#endif
  return 0;
}
