// Exactly the documented language is accepted, and read as documented.
#include "corpus.h"
#include "ref.h"
extern "C" int sx_main() {
  std::string in; Out o; GLOBAL::time = 50;
#if MODE == 0
  static const char *PRE[] = {"", "<a", "(a", "a.", "$.", "{a", "a.%", "a.:", "(^", "(-", "\"", "<a-->", "(&"}; static const char *POST[] = {"", "b>.", "b).", "", "$a.", "}.", "%", ":", ".", "a.", ".", ">.", ",a,b)."};
  int k = sx_choose(13, "frame"); int n = k == 0 ? NSYM : THOROUGH ? NSYM : NSYM - 1; char b[8]; sx_sym_bytes(b, n, "byte"); in = PRE[k] + std::string(b, n) + POST[k];
#elif MODE == 1
  in = edit(CORPUS[sx_choose(NCORPUS, "sentence")], 1, 1, "byte");
#elif MODE == 2
  in = edit(CORPUS[sx_choose(NCORPUS, "sentence")], 0, 1, "byte");
#elif MODE == 3
  std::string s = CORPUS[sx_choose(NCORPUS, "sentence")]; if (sx_choose(2, "cut")) in = s.substr(0, sx_choose((int)s.size(), "at")); else in = edit(s, 1 + sx_choose(2, "drop"), 0, "byte");
#elif MODE == 4
  in = edit(CORPUS[sx_choose(NCORPUS, "sentence")], 2, 2, "byte");
#elif MODE == 5    // long tokens, wide and deep texts with an arbitrary byte inside
  static const int L[] = {30, 31, 32, 33, 39, 40, 41, 63, 64, 65, 127, 128, 129, 256}; char b[1]; sx_sym_bytes(b, 1, "byte"); std::string h(b, 1);
  auto rep = [](const std::string &s, int n) { std::string r; for (int i = 0; i < n; i++) r += s; return r; };
  int shape = sx_choose(9, "shape"), n = shape < 5 ? L[sx_choose(14, "length")] : 2 + 3 * sx_choose(THOROUGH ? 8 : 4, "size");
  switch (shape) {
  case 0: in = rep("a", n) + h + "b."; break;
  case 1: in = "\"" + rep("x", n) + h + "y\"?"; break;
  case 2: in = "<a" + rep(" ", n) + h + rep(" ", n) + "-->b>."; break;
  case 3: in = "<$" + rep("c", n) + h + "--]b>!"; break;
  case 4: in = "(^" + rep("c", n) + ",b" + h + ")@"; break;
  case 5: in = rep("(--,", n) + "a" + h + rep(")", n) + "."; break;
  case 6: in = rep("{", n) + "a" + h + "b" + rep("}", n) + "."; break;
  case 7: in = "(*,a" + rep(",b", n) + h + ")."; break;
  case 8: in = "(a" + rep(" && b", n) + h + "c)."; break;
  }
#endif
  pTask t = hx_parse(P(), in, o);
  std::string txt = until_eof(in);
  if (o == OK_TASK) { REACH("accepted"); sx_check(reads_as(txt, *t), "an accepted text is a sentence of the grammar and is read as it says"); }
  else { Ref r(txt); bool any = txt.find('\t') == std::string::npos && !r.sentences().empty(); /* a tab may be read as a blank or as part of a word */ REACH("rejected"); sx_check(!any, "a sentence of the grammar is accepted"); }
  return 0;
}
