// The numbers of a task are the ones written, or the configured defaults; they stay in their documented ranges.
#include "ref.h"
#include <cmath>
struct Num { std::string s; double v; };
// a number in one of its notations, with symbolic digits; kind 0: [0,1], 1: (0,1), 2: positive integer
static Num number(const char *id, int kind, int digits) {
  int form = kind == 2 ? 0 : sx_choose(kind == 0 ? 5 : 2, id); char d[12]; sx_sym_bytes(d, digits, id); unsigned long m = 0, p = 1; std::string s(d, digits);
  for (int i = 0; i < digits; i++) { sx_assume(d[i] >= '0' && d[i] <= '9'); m = m * 10 + (unsigned long)(d[i] - '0'); p *= 10; }
  if (kind == 2) { sx_assume(d[0] != '0'); return {s, (double)m}; }
  if (kind == 1) sx_assume(m != 0);
  double f = std::strtod(("0." + s).c_str(), nullptr); (void)p;
  switch (form) { case 0: return {"0." + s, f}; case 1: return {"." + s, f}; case 2: return {"0", 0.0}; case 3: return {"1", 1.0}; default: return {"1.0", 1.0}; }
}
// stored value = written value, up to the precision of the storage
static bool __attribute__((noinline)) near(double a, double b) { return std::fabs(a - b) <= 1e-6; }
static bool is(double got, double want) { if (got == (double)(float)want) return true; return near(got, want); }
static float cfg(const char *n) { float f; uint32_t b = (uint32_t)sx_sym(32, n); __builtin_memcpy(&f, &b, 4); sx_assume(f >= 0.0f && f <= 1.0f); return f; }
extern "C" int sx_main() {
  static const char *PU[] = {".", "?", "!", "@"}; int punct = sx_choose(4, "punct"); bool tr = punct == 0 || punct == 2;
  std::string s; int nb = 0, nt = 0; Num b[3], t[3]; Out o;
#if MODE == 0        // budgets
  nb = sx_choose(4, "budget");
  for (int i = 0; i < nb; i++) { static const char *id[] = {"priority", "durability", "quality"}; b[i] = number(id[i], i == 1, THOROUGH ? 3 : 2); s += (i ? ";" : "$") + b[i].s; }
  if (nb) s += "$ ";
#elif MODE == 2      // symbolic configuration
  CONFIG::priority = cfg("p"); CONFIG::durability = cfg("d"); CONFIG::quality = cfg("q"); CONFIG::p_judgement = cfg("pj"); CONFIG::d_judgement = cfg("dj"); CONFIG::p_question = cfg("pq"); CONFIG::d_question = cfg("dq");
  CONFIG::p_quest = cfg("pt"); CONFIG::d_quest = cfg("dt"); CONFIG::p_goal = cfg("pg"); CONFIG::d_goal = cfg("dg"); CONFIG::f = cfg("f"); CONFIG::c = cfg("c"); CONFIG::c_judgement = cfg("cj"); CONFIG::c_goal = cfg("cg"); CONFIG::k = 1 + cfg("k");
  nb = sx_choose(4, "budget"); static const Num fb[] = {{".25", .25}, {".5", .5}, {".75", .75}}; for (int i = 0; i < nb; i++) { b[i] = fb[i]; s += (i ? ";" : "$") + b[i].s; } if (nb) s += "$ ";
#elif MODE == 3      // extreme numbers
  static const Num lo[] = {{"0.00000000000000000000000000000000000000000000000000001", 1e-53}, {".99999999999999999999", 1.0}, {"0.000000000000001", 1e-15}, {".9999999", .9999999}};
  int e = sx_choose(4, "extreme"); nb = 2; b[0] = {"1.000000", 1}; b[1] = lo[e]; s = "$1.000000;" + lo[e].s + "$ ";
#endif
  s += std::string("<a-->b>") + PU[punct] + (sx_choose(2, "tensed") ? " :|: " : " ");
  if (tr) {
#if MODE == 1 || MODE == 2
    nt = sx_choose(4, "truth");
    for (int i = 0; i < nt; i++) { static const char *id[] = {"frequency", "confidence", "k"}; if (MODE == 1) t[i] = number(id[i], i, i == 2 ? 2 : THOROUGH ? 3 : 2); else { static const Num ft[] = {{".25", .25}, {".5", .5}, {"2", 2}}; t[i] = ft[i]; } s += (i ? ";" : "%") + t[i].s; }
    if (nt) s += "%";
#elif MODE == 3
    nt = 2; t[0] = {"1", 1}; t[1] = lo[e]; s += "%1;" + lo[e].s + "%";
#endif
  }
  pTask k = hx_parse(P(), s, o);
  sx_check(o == OK_TASK, "every documented form of the numbers is accepted"); if (o != OK_TASK) return 0;
  auto &bu = *k->budget; auto &se = *k->sentence;
  sx_check(bu.priority >= 0 && bu.priority <= 1 && bu.quality >= 0 && bu.quality <= 1, "priority and quality are in [0, 1]");
  if (nb >= 1) sx_check(is(bu.priority, b[0].v), "the priority written is the priority of the task");
  if (nb >= 2) sx_check(is(bu.durability, b[1].v), "the durability written is the durability of the task");
  if (nb >= 2) sx_check(bu.durability > 0 && bu.durability < 1, "a written durability stays strictly between 0 and 1");
  if (nb >= 3) sx_check(is(bu.quality, b[2].v), "the quality written is the quality of the task");
  float pd[] = {CONFIG::p_judgement, CONFIG::p_question, CONFIG::p_goal, CONFIG::p_quest}, dd[] = {CONFIG::d_judgement, CONFIG::d_question, CONFIG::d_goal, CONFIG::d_quest};
  if (nb == 0) { sx_check(is(bu.priority, CONFIG::priority), "an omitted budget has the configured priority"); sx_check(is(bu.durability, CONFIG::durability), "an omitted budget has the configured durability"); sx_check(is(bu.quality, CONFIG::quality), "an omitted budget has the configured quality"); }
  if (nb == 1) sx_check(is(bu.durability, dd[punct]), "an omitted durability is the configured one of the kind of sentence");
  (void)pd;
  if (!tr) { sx_check(se.truth == nullptr, "questions and quests have no truth value"); if (nb == 1 || nb == 2) sx_check(bu.quality == 1.0f, "the omitted quality of questions and quests is 1"); REACH("question"); return 0; }
  sx_check(se.truth != nullptr, "judgements and goals have a truth value"); if (se.truth == nullptr) return 0;
  auto &v = *se.truth;
  if (nt >= 1) sx_check(is(v.f, t[0].v), "the frequency written is the frequency read"); else sx_check(is(v.f, CONFIG::f), "an omitted frequency is the configured one");
  if (nt >= 2) { sx_check(is(v.c, t[1].v), "the confidence written is the confidence read"); sx_check(v.c > 0.0f && v.c < 1.0f, "a written confidence stays strictly between 0 and 1"); }
  if (nt == 1) sx_check(is(v.c, punct == 0 ? CONFIG::c_judgement : CONFIG::c_goal), "an omitted confidence is the configured one of the kind of sentence");
  if (nt == 0) sx_check(is(v.c, CONFIG::c), "the confidence of an omitted truth value is the configured one");
  if (nt >= 3) sx_check(is(v.k, t[2].v), "the evidence horizon written is the one read"); else sx_check(is(v.k, CONFIG::k), "an omitted evidence horizon is the configured one");
  sx_check(v.f >= 0.0f && v.f <= 1.0f, "frequencies are in [0, 1]");
  if (nb == 1 || nb == 2) { double e = v.c * (v.f - 0.5) + 0.5, q = e > (1 - e) * 0.75 ? e : (1 - e) * 0.75; sx_check(is(bu.quality, q), "the omitted quality of judgements and goals comes from their truth value"); }
  REACH("judgement or goal");
  return 0;
}
