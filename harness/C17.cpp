// Expectation, quality and amounts of evidence stay in their ranges and agree with each other, for every single-precision truth value.
#include "hx.h"
#include "NAL/Functions/src/UncertaintyMappingFunctions.cpp"   // nothing in the project compiles it
#ifndef NK
#define NK 3
#endif
using namespace UNCERTAINTY_MAPPING_FUNCTIONS;
using TRUTH::Truth; using BUDGET::Budget;
static float unit(const char *n, unsigned max = 0x3f800000u) { unsigned v = (unsigned)sx_sym(32, n); sx_assume(v <= max); float f; memcpy(&f, &v, 4); return f; }
static bool near(double a, double b, double rel) { double d = a - b, m = rel * b; return d <= m && -d <= m; }
extern "C" int sx_main() {
  float f = unit("f"), c = unit("c");
#if MODE == 0
  Truth t(f, c); double e = t.e();
  sx_check(e >= 0.0 && e <= 1.0, "an expectation is in [0, 1]");
  sx_check(f >= 0.5f ? e >= 0.5 : e <= 0.5, "an expectation is on the side of the frequency");
  sx_check(f >= 0.5f ? e <= f + 1e-15 : e >= f - 1e-15, "an expectation is between the frequency and 0.5"); REACH("expectation");
#elif MODE == 1
  Truth t(f, c); float q = Budget::quality_from_truth(t);
  sx_check(q > 0.42f && q <= 1.0f, "a quality is in (0.42, 1]");
  double e = t.e(), r = e > 1 - 0.4285 ? e : e < 0.4284 ? (1 - e) * 0.75 : -1;
  sx_check(r < 0 || ((double)q >= r - 1e-6 && (double)q <= r + 1e-6), "a quality is the larger of the expectation and three quarters of its complement"); REACH("quality");
#elif MODE == 2
  float k = unit("k", 0x40800000u); sx_assume(k >= 0.25f); sx_assume(c < 1.0f);
  Truth t(f, c, k); double w = t.w(), p = t.w_p(), m = t.w_m();
  sx_check(w >= 0 && p >= 0 && m >= 0, "amounts of evidence are never negative");
  REACH("amounts");
#elif MODE == 3
  static const float KS[3] = {1.0f, 0.5f, 2.0f}; float k = KS[sx_choose(NK, "k")]; sx_assume(c < 1.0f); Truth t(f, c, k); double w = t.w(), p = t.w_p(), m = t.w_m();
  sx_check(p <= w && m <= w, "positive and negative evidence are parts of all evidence");
  if (c >= 0.001f && c <= 0.999f) { sx_check(near(p + m, w, 1e-5), "positive and negative evidence together are all evidence"); REACH("split"); }
#elif MODE == 4
  static const float KS[3] = {1.0f, 0.5f, 2.0f}; float k = KS[sx_choose(NK, "k")]; sx_assume(c <= 0.999f && c >= 0.001f);
  Truth t(f, c, k); Truth u(0.5f, 0.5f, k); u.set_w(t.w_p(), t.w());
  sx_check(u.f - f <= 1e-5f && f - u.f <= 1e-5f, "set_w gives back the frequency that w_p and w came from"); sx_check(u.c - c <= 1e-5f && c - u.c <= 1e-5f, "set_w gives back the confidence that w came from");
  sx_check(u.k == k, "set_w keeps the evidential horizon"); REACH("set_w");
#elif MODE == 5
  static const float KS[3] = {1.0f, 0.5f, 2.0f}; float k = KS[sx_choose(NK, "k")]; sx_assume(c <= 0.999f && c >= 0.001f);
  Truth t(f, c, k); float p, m; w_from_truth(t, p, m); auto pr = w_from_truth(t); float w = fc_to_w(f, c, k);
  sx_check(near(p, t.w_p(), 1e-5) && near(m, t.w_m(), 1e-5) && near(w, t.w(), 1e-5), "the mapping functions give the evidence of the truth value");
  sx_check(std::get<0>(pr) == p && std::get<1>(pr) == m, "both forms of w_from_truth agree");
  Truth u = truth_from_w(p, w, k); sx_check(u.f - f <= 1e-5f && f - u.f <= 1e-5f && u.c - c <= 1e-5f && c - u.c <= 1e-5f && u.k == k, "truth_from_w gives back the truth value whose evidence it got");
  sx_check(t.f == f && t.c == c && t.k == k, "the mapping functions leave the truth value as it was"); REACH("mappings");
#elif MODE == 6                                     // no evidence at all
  float k = unit("k", 0x40800000u); sx_assume(k >= 0.25f); Truth t(f, 0.0f, k); Truth u(f, c, k); u.set_w(t.w_p(), t.w()); Truth v = truth_from_w(t.w_p(), t.w(), k);
  sx_check(t.w() == 0 && t.w_p() == 0 && t.w_m() == 0, "no confidence is no evidence"); sx_check(u.f == 0.5f && u.c == 0 && v.f == 0.5f && v.c == 0 && u.k == k && v.k == k, "no evidence gives a neutral frequency and no confidence"); REACH("none");
#endif
  return 0;
}
