// Reading a text never corrupts memory, never crashes, never hangs: it yields a task, a syntax error or an exception.
#include "corpus.h"
static void show(const pTask &t, Out o) {
  REACH(o == OK_TASK ? "task" : o == SYNTAX ? "syntax" : "thrown");
  if (o == OK_TASK) { auto s = MODE == 1 ? hx_print(*t->sentence->term) : hx_print(*t); sx_check(s.size() > 0, "an accepted text is rendered as some text"); REACH("printed"); }
}
static std::string rep(const std::string &s, int n) { std::string r; for (int i = 0; i < n; i++) r += s; return r; }
extern "C" int sx_main() {
  NarseseParser *p = new NarseseParser; Out o; std::string in;
#if MODE == 0                      // any text of N bytes
  char b[NSYM]; sx_sym_bytes(b, NSYM, "in"); in.assign(b, NSYM);
#elif MODE == 1                    // every sentence of the corpus with an arbitrary edit at an arbitrary place
  std::string t = CORPUS[sx_choose(NCORPUS, "sentence")];
  int kind = sx_choose(THOROUGH ? 5 : 4, "edit");
  if (kind == 0) in = edit(t, 1, 1, "byte"); else if (kind == 1) in = edit(t, 0, 1, "byte"); else if (kind == 2) in = edit(t, 1, 0, "byte");
  else if (kind == 3) in = t.substr(0, sx_choose((int)t.size(), "cut")); else in = edit(t, 2, 2, "byte");
#elif MODE == 2                    // long texts, with one arbitrary byte inside
  static const int L[] = {125, 126, 127, 128, 129, 130, 254, 255, 256, 257, 300, 384, 640};
  char b[2]; sx_sym_bytes(b, 1, "byte"); std::string h(b, 1);
  int shape = sx_choose(12, "shape"); int n = L[sx_choose(THOROUGH ? 13 : 9, "length")];
  switch (shape) {
  case 0: in = rep("a", n) + h + "."; break;
  case 1: in = "\"" + rep("x", n) + h + "\"."; break;
  case 2: in = "<a-->" + rep("b", n) + h + ">."; break;
  case 3: in = "a. %0." + rep("1", n) + h + "%"; break;
  case 4: in = "$0." + rep("0", n) + h + "$ a."; break;
  case 5: in = "a. :!" + rep("1", n) + h + ":"; break;
  case 6: in = "<a-->b>." + rep(" ", n) + h; break;
  case 7: in = rep("(--,", n / 2) + "a" + h + rep(")", n / 2) + "."; break;
  case 8: in = rep("{", n / 2) + "a" + h + rep("}", n / 2) + "."; break;
  case 9: in = "(*,a" + rep(",b", n / 2) + h + ")."; break;
  case 10: in = rep("<", n / 2) + "a" + h + rep("-->a>", n / 2) + "."; break;
  case 11: in = "a. %.5;.5;" + rep("1", n) + h + "%"; break;
  }
#elif MODE == 3                    // several texts through one parser, each arbitrary in a few bytes
  static const char *PRE[] = {"", "(a,", "$.5$", "a.%.5", "<a-->", "{+1,"};
  for (int i = 0; i < 2; i++) { char b[4]; int n = THOROUGH ? 2 - i : 1; sx_sym_bytes(b, n, i ? "second" : "first"); std::string s = std::string(PRE[sx_choose(6, "start")]) + std::string(b, n); auto t = hx_parse(*p, s, o); REACH(o == OK_TASK ? "task" : o == SYNTAX ? "syntax" : "thrown"); }
  in = "<(&&,$x,a)-->+99999999999>.";
#endif
  auto k = hx_parse(*p, in, o); show(k, o);
  k = pTask(nullptr); delete p; REACH("parser destroyed");
  return 0;
}
