// Sentences: their kind, defaults and parts, however they are made.
#include "hx.h"
#include "tgen.h"
using namespace SENTENCE;
using TRUTH::pTruth; using TRUTH::Truth;
static float sf(const char *n) { unsigned b = (unsigned)sx_sym(32, n); float f; __builtin_memcpy(&f, &b, 4); return f; }
static bool bits(float a, float b) { unsigned x, y; __builtin_memcpy(&x, &a, 4); __builtin_memcpy(&y, &b, 4); return x == y; }
static void kinds(Sentence &s, int k) {
  sx_check(s.is_judgement() == (k == 0) && s.is_question() == (k == 1) && s.is_goal() == (k == 2) && s.is_quest() == (k == 3), "a sentence is of exactly the kind of its punctuation"); sx_check((int)s.punct == k, "a sentence has the punctuation of its kind");
}
extern "C" int sx_main() {
  pTerm t = S(A("a"), Copula::Inheritance, A("b")); GLOBAL::time = (unsigned)sx_sym(30, "now");
  int k = sx_choose(4, "kind"), how = sx_choose(3, "how"), given = sx_choose(2, "truth"), stamped = sx_choose(2, "stamp");
  float f = sf("f"), c = sf("c"), kk = sf("k"), df = sf("default f"), cj = sf("default judgement"), cg = sf("default goal"), dk = sf("default k");
  for (float x : {f, c, kk, df, cj, cg, dk}) { sx_assume(x >= 0.0f); sx_assume(x <= 1.0f); }
  CONFIG::f = df; CONFIG::c_judgement = cj; CONFIG::c_goal = cg; CONFIG::k = dk;
  pTruth tr = given ? pTruth(new Truth(f, c, kk)) : nullptr; pStamp st = stamped ? Stamp::create((int)sx_sym(30, "occurs")) : nullptr; if (k == 1 || k == 3) tr = nullptr;
  std::unique_ptr<Sentence> own; pSentence sh; Sentence *s = nullptr;
  if (how == 0) { if (k == 0) own.reset(new Judgement(t, tr, st)); if (k == 1) own.reset(new Question(t, st)); if (k == 2) own.reset(new Goal(t, tr, st)); if (k == 3) own.reset(new Quest(t, st)); s = own.get(); REACH("own class"); }
  else if (how == 1) { own.reset(new Sentence(t, (PUNCTUATION::Punctuation)k, tr, st)); s = own.get(); REACH("sentence"); }
  else { sh = Sentence::create(t, (PUNCTUATION::Punctuation)k, tr, st); s = sh.get(); REACH("created"); }
  kinds(*s, k); sx_check(s->term.get() == t.get(), "a sentence has the term it was made with"); sx_check(s->stamp != nullptr, "a sentence has a stamp");
  if (stamped) sx_check(s->stamp == st, "a sentence has the stamp it was given"); else { sx_check(s->stamp->is_eternal && s->stamp->tense() == TENSE::Eternal, "a sentence without a stamp is eternal"); sx_check(s->stamp->t_creation == (int)GLOBAL::time && s->stamp->evidential_base->_set->size() == 1, "a sentence without a stamp is created now, on evidence of its own"); REACH("eternal"); }
  if (k == 1 || k == 3) sx_check(s->truth == nullptr, "questions and quests have no truth value");
  else if (given) { sx_check(s->truth == tr, "a judgement or goal has the truth value it was given"); sx_check(bits(tr->f, f) && bits(tr->c, c) && bits(tr->k, kk), "a truth value given to a sentence is left alone"); REACH("given"); }
  else if (how == 0) { sx_check(s->truth != nullptr, "a judgement or goal has a truth value"); if (s->truth) sx_check(s->truth->f == df && s->truth->c == (k == 0 ? cj : cg) && s->truth->k == dk, "an omitted truth value is the configured one of its kind"); REACH("default"); }
  if (k == 2 && how == 0) { auto &g = (Goal &)*s; sx_check(&g.desire == &s->truth, "the desire of a goal is its truth value"); REACH("goal"); }
  // a task keeps its sentence and budget
  BUDGET::pBudget b(new BUDGET::Budget(f, c, kk)); sx_check(bits(b->priority, f) && bits(b->durability, c) && bits(b->quality, kk), "a budget has the values it was given"); if (sh) { Task task(b, sh); sx_check(task.sentence == sh && task.budget == b && &task.term() == t.get(), "a task has the sentence and budget it was made with"); pTask pt(new Task(b, sh)); sx_check(pt.sentence() == sh && pt.term().get() == t.get(), "a task handle gives the sentence and term of the task"); REACH("task"); }
  return 0;
}
