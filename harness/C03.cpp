// The task read from a text has the structure the text writes down.
#include "ref.h"
static Ex leaf(int k, const char *n) {
  switch (k) { case 0: return atom(n); case 1: return ivar(n); case 2: return dvar(n); case 3: return qvar(n); case 4: return num(-7); case 5: return opr(n); default: return atom(std::string("\"") + n + " ,.\""); }
}
constexpr int NLEAF = 7;
// all kinds of terms with the given parts
static Ex shape(int k, Ex a, Ex b, Ex c) {
  if (k < 12) return stm(a, COPS[k].v, b);
  k -= 12;
  if (k < 14) {
    auto K = CONS[k].v;
    if (K == Connector::Negation) return cmp(K, {a});
    if (K == Connector::ExtensionalDifference || K == Connector::IntensionalDifference) return cmp(K, {a, b});
    return cmp(K, {a, b, c});
  }
  k -= 14;
  switch (k) { case 0: return opst("op", {a, b}); case 1: return cmp(Connector::ExtensionalSet, {a}); case 2: return cmp(Connector::IntensionalSet, {b}); case 3: return cmp(Connector::Product, {a}); default: return opst("op", {}); }
}
constexpr int NSHAPE = 12 + 14 + 5;
static void expect(const Ex &e, int punct, int tense) {
  static const char *PU[] = {".", "?", "!", "@"}; static const char *TE[] = {"", " :\\:", " :|:", " :/:", " :!-31:"};
  std::string s = text(e) + PU[punct] + TE[tense]; Out o;
  pTask t = hx_parse(P(), s, o);
  sx_check(o == OK_TASK, "a sentence of the language is accepted");
  if (o != OK_TASK) return;
  auto &se = *t->sentence;
  sx_check((int)se.punct == punct, "the punctuation written is the punctuation read");
  sx_check(se.is_judgement() == (punct == 0) && se.is_question() == (punct == 1) && se.is_goal() == (punct == 2) && se.is_quest() == (punct == 3), "the kind of the sentence is the one its punctuation says");
  sx_check((se.truth != nullptr) == (punct == 0 || punct == 2), "judgements and goals have a truth value, questions and quests have none");
  sx_check(match(normal(meaning(e)), *se.term), "the term read has the structure the text writes down");
  sx_check(&*t.term() == &t->term() && &t->term() == &*se.term, "task and sentence show the same term");
  auto &st = *se.stamp; int T = (int)GLOBAL::time, D = (int)CONFIG::temporal_duration;
  sx_check(st.is_eternal == (tense == 0), "a sentence is eternal exactly when no tense is written");
  if (tense) sx_check(st.t_occurrence == (tense == 1 ? T - D : tense == 2 ? T : tense == 3 ? T + D : -31), "the tense written sets the time of the event");
  sx_check(st.t_creation == T, "the sentence is created now");
  REACH("read");
}
extern "C" int sx_main() {
#if MODE == 0      // every kind of term over every pair of leaves
  GLOBAL::time = 100;
  Ex a = leaf(sx_choose(NLEAF, "a"), "ab"), b = leaf(sx_choose(NLEAF, "b"), sx_choose(2, "same") ? "ab" : "c");
  int k = sx_choose(NSHAPE, "shape"); Ex c = leaf(THOROUGH ? sx_choose(NLEAF, "c") : 1, "d");
  Ex e = shape(k, a, b, c);
  expect(e, THOROUGH ? sx_choose(4, "punct") : k % 4, 0);
#elif MODE == 1    // every kind of term inside every kind of term
  GLOBAL::time = 100;
  int k = sx_choose(NSHAPE, "outer"), j = sx_choose(NSHAPE, "inner");
  Ex in = shape(j, leaf(j % 4, "x"), leaf((j + k) % 4, "y"), atom("c"));
  int at = sx_choose(THOROUGH ? 3 : 2, "place");
  Ex e = at == 0 ? shape(k, in, ivar("x"), atom("b")) : at == 1 ? shape(k, qvar("y"), in, dvar("x")) : shape(k, in, in, atom("z"));
  expect(e, (j + k) % 4, (j + k) % 5);
#elif MODE == 2    // names are arbitrary words: equal names are equal, different names differ
  GLOBAL::time = 100;
  auto w = [](const char *id) { char b[4]; int n = 1 + sx_choose(2, "len"); sx_sym_bytes(b, n, id); for (int i = 0; i < n; i++) sx_assume(Ref::wordc(b[i]) && b[i] != '\t'); return std::string(b, n); };
  std::string x = w("x"), y = w("y");
  int k = sx_choose(6, "shape");
  Ex e = k == 0 ? stm(atom(x), Copula::Inheritance, atom(y)) : k == 1 ? cmp(Connector::ExtensionalSet, {atom(x), atom(y)}) : k == 2 ? stm(ivar(x), Copula::Implication, stm(ivar(y), Copula::Similarity, dvar(x)))
       : k == 3 ? cmp(Connector::Conjunction, {qvar(x), qvar(y)}) : k == 4 ? opst(x, {atom(y)}) : cmp(Connector::SequentialEvents, {atom(x), opr(y)});
  expect(e, 0, 0);
#elif MODE == 3    // punctuation, tense and clock
  GLOBAL::time = (unsigned long)(sx_sym(16, "now")); CONFIG::temporal_duration = (unsigned)(1 + (sx_sym(8, "duration")));
  expect(stm(atom("a"), Copula::Inheritance, atom("b")), sx_choose(4, "punct"), sx_choose(5, "tense"));
#elif MODE == 4    // integers
  GLOBAL::time = 100; static const char *PRE[] = {"", "3276", "16777", "214748364", "429496729", "922337203685477580", "1000000000000000000000"};
  int pre = sx_choose(7, "prefix"), n = 1 + sx_choose(pre ? (pre < 3 ? 4 : pre == 3 ? 2 : 1) : THOROUGH ? 10 : 5, "digits"); bool neg = sx_choose(2, "minus"); char d[12]; if (pre < 5) sx_sym_bytes(d, n, "digit"); else d[0] = sx_choose(2, "digit") ? '9' : '0';
  long v = 0; if (pre < 5) for (const char *q = PRE[pre]; *q; q++) v = v * 10 + (*q - '0');
  for (int i = 0; i < n; i++) { sx_assume(d[i] >= '0' && d[i] <= '9'); v = v * 10 + (d[i] - '0'); } if (neg) v = -v;
  std::string s = PRE[pre] + std::string(d, n); if (neg) s = "-" + s; Out o;
  pTask t = hx_parse(P(), "<(&/,a,+" + s + ")==>b>. :!" + s + ":", o);
  bool in = pre < 5 && v >= -2147483648L && v <= 2147483647L;
  sx_check((o == OK_TASK) == in, "an integer is accepted exactly when it can be represented");
  if (o == OK_TASK) { auto &c = *t->sentence->term->subject; auto i = ++c.terms->begin(); sx_check((*i)->is_interval && ((Interval &)**i).interval == v, "an interval has the written length"); sx_check(t->sentence->stamp->t_occurrence == v, "an explicit time is the written one"); REACH("read"); }
#elif MODE == 5    // long names that differ in one byte, or in their length, or not at all
  GLOBAL::time = 100; static const int LEN[] = {3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257};
  int n = LEN[sx_choose(19, "length")], how = sx_choose(3, "where"); std::string x; for (int i = 0; i < n; i++) x += (char)('a' + i % 26);
  std::string y = x; int at = how == 0 ? 0 : how == 1 ? n - 1 : n / 2; char b; sx_sym_bytes(&b, 1, "byte"); sx_assume(Ref::wordc(b)); sx_assume(b != '\t');
  if (sx_choose(2, "longer")) y.insert(y.begin() + at, b); else y[at] = b;
  int k = sx_choose(7, "shape");
  Ex e = k == 0 ? stm(atom(x), Copula::Inheritance, atom(y)) : k == 1 ? cmp(Connector::ExtensionalSet, {atom(x), atom(y)}) : k == 2 ? stm(ivar(x), Copula::Implication, stm(ivar(y), Copula::Similarity, dvar(x)))
       : k == 3 ? cmp(Connector::Conjunction, {qvar(x), qvar(y)}) : k == 4 ? opst(x, {opr(y)}) : k == 5 ? cmp(Connector::Product, {dvar(x), dvar(y)}) : stm(atom("\"" + x + " .\""), Copula::Similarity, atom("\"" + y + " .\""));
  expect(e, 0, 0);
#elif MODE == 6    // wide compounds, deep nesting, many variables
  GLOBAL::time = 100; int what = sx_choose(4, "what"), n = 1 + sx_choose(22, "size"); if (n > 18) n = n == 19 ? 30 : n == 20 ? 50 : n == 21 ? 100 : 200; char d[1]; sx_sym_bytes(d, 1, "name"); sx_assume(d[0] >= 'a'); sx_assume(d[0] <= 'z');
  std::string nm(d, 1); Ex e = atom(nm);
  if (what == 0) { std::vector<Ex> v; for (int i = 0; i < n + 1; i++) v.push_back(atom("t" + itos(i))); v.push_back(atom("t" + nm)); e = cmp(sx_choose(2, "ordered") ? Connector::Product : Connector::Conjunction, v); }
  else if (what == 1) { std::vector<Ex> v; for (int i = 0; i < n + 1; i++) v.push_back(i % 3 == 0 ? ivar("v" + itos(i / 3)) : i % 3 == 1 ? dvar("v" + itos(i / 3)) : qvar("v" + itos(i / 3))); v.push_back(dvar(nm)); v.push_back(ivar("v0")); e = cmp(Connector::Product, v); }
  else if (what == 2) for (int i = 0; i < n; i++) e = i % 3 == 0 ? cmp(Connector::Product, {atom("x"), e}) : i % 3 == 1 ? stm(e, Copula::Implication, atom("y")) : cmp(Connector::Negation, {e});
  else for (int i = 0; i < n; i++) e = i % 2 ? opst("f", {e, ivar("z")}) : cmp(Connector::ExtensionalSet, {stm(dvar(nm), Copula::Inheritance, e)});
  expect(e, n % 4, n % 5);
#endif
  return 0;
}
