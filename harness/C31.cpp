// Lifetime: whatever is built, shared, copied and dropped, nothing is leaked, freed twice or used after it was freed.
#include "corpus.h"
#include "shapes.h"
using INTERPRETER::interpreter;
static std::string quiet(Term &t) { return hx_print(t); }
extern "C" int sx_main() {
  GLOBAL::time = 100; { Out o; for (auto s : {"<$x-->(^op, {a}, [b], +1)>! :|: %0.5%", "(&&, #x, ?y, q)?", "a@ ."}) hx_parse(P(), s, o); REACH(interpreter.dictionary.empty() ? "warm" : "warm: names remain"); }
#if MODE == 0
  // a term and a clone, dropped in either order; components outlive what contained them
  size_t live = sx_live_heap(); {
    pTerm *z = new pTerm(A("z")); pTerm *t = new pTerm(any_term(1 + THOROUGH, sx_choose(2, "mode"))), *c = new pTerm(Term::clone(*t)); std::vector<pTerm> keep = parts(**t); std::string s = quiet(**t), k; for (auto &p : keep) k += quiet(*p);
    switch (sx_choose(4, "order")) {
    case 0: delete t; sx_check(quiet(**c) == s, "a clone outlives its original"); delete z; delete c; break;
    case 1: delete c; sx_check(quiet(**t) == s, "a term outlives its clone"); delete z; delete t; break;
    case 2: delete z; delete t; { std::string r; for (auto &p : keep) r += quiet(*p); sx_check(r == k, "components outlive the term they were part of"); } delete c; break;
    default: { pTerm *n = new pTerm(K(Connector::Product, {*t, *c, *z})); delete t; delete c; sx_check(quiet(**n).find(s) != std::string::npos, "a term outlives its handle while it is part of another"); delete n; delete z; } break;
    }
    REACH("dropped");
  }
  sx_check(interpreter.dictionary.empty() && interpreter.objects.empty(), "names are forgotten when nothing refers to them"); sx_check(sx_live_heap() <= live, "dropped terms leave no memory behind");
#elif MODE == 1
  // reading a text again and again takes no more memory, whether it is accepted or not; a parser that is gone leaves nothing
  static const char *BIG[4] = {"(&/, <a --> b>, +2147483648, [c]).", "<(*, {a}, $x) ==> +9999999999>!", "a. :!3000000000: %0.5;0.5%", "$0.5;0.5;0.5$ (&&, #x, (^op, +2147483648)). %0.5%"};
  Out o; std::string in; if (sx_choose(2, "kind") == 0) in = edit(CORPUS[sx_choose(NCORPUS, "sentence")], 1 + THOROUGH, 1, "byte"); else in = edit(BIG[sx_choose(4, "number")], 1, 1, "byte"); size_t base = sx_live_heap(); {
    NarseseParser p; { pTask t = hx_parse(p, in, o); } { pTask t = hx_parse(p, in, o); } size_t a = sx_live_heap(); { pTask t = hx_parse(p, in, o); } { pTask t = hx_parse(p, in, o); } size_t b = sx_live_heap();
    REACH(o == OK_TASK ? "accepted" : o == SYNTAX ? "syntax error" : "exception");
    if (o == THROWN) sx_check(b <= a, "reading a text that ends in an exception again takes no more memory"); else sx_check(b <= a, "reading a text again takes no more memory");
  }
  if (o == THROWN) return 0;
  sx_check(interpreter.dictionary.empty(), "names that were read are forgotten when nothing refers to them"); sx_check(sx_live_heap() <= base, "a destroyed parser leaves no memory behind");
#elif MODE == 2
  // any history of building, sharing, cloning and dropping
  size_t live = sx_live_heap(); { pTerm *s[3] = {new pTerm(A("m")), new pTerm(V(0, 1)), new pTerm(A("n"))};
    for (int i = 0; i < STEPS; i++) {
      int op = sx_choose(5, "op"), x = sx_choose(3, "x"), y = sx_choose(3, "y"); pTerm *n;
      switch (op) {
      case 0: n = new pTerm(S(*s[x], Copula::Similarity, *s[y], sx_choose(2, "mode"))); break;
      case 1: n = new pTerm(K(Connector::Conjunction, {*s[x], *s[y]}, sx_choose(2, "mode"))); break;
      case 2: n = new pTerm(Term::clone(*s[x])); break;
      case 3: n = new pTerm((*s[x])->is_atom() ? *s[x] : parts(**s[x])[0]); break;
      default: n = new pTerm(A(y == 0 ? "m" : y == 1 ? "k" : "n")); break;
      }
      int w = (x + 1) % 3; delete s[w]; s[w] = n; for (auto q : s) quiet(**q); REACH("step");
    }
    for (auto q : s) delete q;
  }
  sx_check(interpreter.dictionary.empty(), "names are forgotten when nothing refers to them"); sx_check(sx_live_heap() <= live, "dropped terms leave no memory behind"); REACH("dropped");
#elif MODE == 3
  // tasks and sentences share their parts with whoever asks for them
  size_t live = sx_live_heap(); { Out o; pTask *t = new pTask(hx_parse(P(), CORPUS[sx_choose(NCORPUS, "sentence")], o)); sx_check(o == OK_TASK, "corpus"); auto *se = new SENTENCE::pSentence((*t)->sentence); auto *te = new pTerm((*se)->term); std::string s = hx_print(**te); auto *st = new SENTENCE::pStamp((*se)->stamp); auto *tr = new TRUTH::pTruth((*se)->truth);
    int k = sx_choose(3, "first"); if (k == 0) delete t; if (k == 1) delete se; if (k == 2) delete te; Out o2; hx_parse(P(), "<other-->text>.", o2);
    if (k != 2) sx_check(hx_print(**te) == s, "a term outlives its task"); if (k != 1) sx_check(hx_print(*(*se)->term) == s, "a sentence outlives its task"); (void)(*st)->tense(); if (*tr) sx_check((*tr)->c >= 0, "a truth value outlives its sentence");
    if (k != 0) delete t; if (k != 2) delete te; if (k != 1) delete se; delete st; delete tr; REACH("shared"); { Out o3; hx_parse(P(), "a.", o3); } }
  size_t a = sx_live_heap(); { Out o; hx_parse(P(), "a.", o); } sx_check(sx_live_heap() <= a, "memory"); sx_check(interpreter.dictionary.empty(), "names are forgotten when nothing refers to them");
#endif
  return 0;
}
