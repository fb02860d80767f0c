// Reading a text does not depend on what was read before with the same parser.
#include "corpus.h"
#include "ref.h"
static const char *const SECOND[] = {"<<$y-->(/,r,_,#z)>==><$y-->?w>>. :|: %0.5;0.25%", "$0.5;.25;1$ (&/,a,+3,(^op,{b})) ! :/:", "(a,b?", "<a --> +99999999999>.", "$a."};
extern "C" int sx_main() {
  NarseseParser *p = new NarseseParser, *q = new NarseseParser; Out o1, o2, o3;
  std::string first;
#if MODE == 0
  char b[NSYM]; sx_sym_bytes(b, NSYM, "first"); first.assign(b, NSYM);
#else
  static const char *const FIRST[] = {"<<$x-->a>==><$y-->?w>>.", "<#z-->$y>. :!7: %.5", "$.5;.5$ (a,{b,[c", "(&/,+2,$q,+99999999999)!", "<\"a b\"-->(^op,{c})>?", "a.\nb.", "<a-->b>.%1;.5;99999999999999999999%"};
#if MODE == 2
  static const char *const MORE[] = {"<<$x-->(*,#y,?z)>==><$y-->?x>>.", "(a,(b,{", "$.5;.5;.5$ <a<=>b>! :|: %.5;.5%", "<a-->+99999999999>?", "a.%", "(^op,{c},#q)@"};
  for (int i = 0, n = 1 + sx_choose(THOROUGH ? 4 : 2, "before"); i < n; i++) { pTask t0 = hx_parse(*p, MORE[sx_choose(6, "earlier")], o1); }
#endif
  std::string t = FIRST[sx_choose(7, "first")];
#if MODE == 2
  int kind = 1;
#else
  int kind = sx_choose(THOROUGH ? 3 : 2, "edit");
#endif
  first = MODE == 2 ? t : kind == 0 ? edit(t, 1, 1, "byte") : kind == 1 ? t.substr(0, sx_choose((int)t.size() + 1, "cut")) : edit(t, 0, 1, "byte");
#endif
  std::string second = SECOND[sx_choose(5, "second")]; int keep = second[0] == '<';
  pTask t1 = hx_parse(*p, first, o1); if (!keep) t1 = pTask(nullptr);
  bool kept = keep && o1 == OK_TASK; std::string before; if (kept) before = hx_print(*t1);
  pTask a = hx_parse(*p, second, o2);
  pTask c = hx_parse(*q, second, o3);
  sx_check(o2 == o3, "a used parser and a fresh one accept and reject the same texts");
  if (kept) sx_check(hx_print(*t1) == before, "a task returned earlier is not changed by later reading");
  REACH(o1 == OK_TASK ? "first accepted" : "first rejected");
  if (o2 == OK_TASK && o3 == OK_TASK) {
    sx_check(hx_print(*a) == hx_print(*c), "a used parser and a fresh one read the same task");
    sx_check(*a->sentence->term == *c->sentence->term, "a used parser and a fresh one read equal terms");
    sx_check(reads_as(second, *a), "a used parser reads what the text says");
    sx_check(a->sentence->stamp->t_creation == c->sentence->stamp->t_creation && a->sentence->stamp->t_occurrence == c->sentence->stamp->t_occurrence, "a used parser and a fresh one give the same times");
    REACH("second accepted");
  } else REACH("second rejected");
  return 0;
}
