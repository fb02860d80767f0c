// Stamps: tense relative to the clock, times, and evidence that is always present.
#include "hx.h"
using SENTENCE::Stamp; using SENTENCE::pStamp; using TENSE::Tense; using EVIDENCE::Base;
static const int LIM = 1 << 29;
static int small(const char *n) { int v = (int)sx_sym(32, n); sx_assume(v > -LIM); sx_assume(v < LIM); return v; }
static int nonneg(const char *n) { int v = (int)sx_sym(32, n); sx_assume(v >= 0); sx_assume(v < LIM); return v; }
extern "C" int sx_main() {
  int now = nonneg("now"), dur = nonneg("duration"); GLOBAL::time = now; CONFIG::temporal_duration = dur; sx_assume(dur > 0);
#if MODE == 0
  int occ = small("occurrence"), cre = small("creation"), put = small("put"); bool eternal = sx_choose(2, "eternal");
  pStamp s = Stamp::create(occ, cre, put, nullptr, eternal);
  sx_check(s->t_occurrence == occ && s->t_creation == cre && s->t_put == put && s->is_eternal == eternal, "a stamp holds other times than it was given"); sx_check(s->evidential_base != nullptr && s->evidential_base->size() == 1, "a stamp without evidence");
  Tense want = eternal ? Tense::Eternal : occ >= now + dur ? Tense::Future : occ <= now - dur ? Tense::Past : Tense::Present;
  sx_check(s->tense() == want, "the tense of a stamp is not that of its time of occurrence");
  switch (want) { case Tense::Eternal: REACH("eternal"); break; case Tense::Future: REACH("future"); break; case Tense::Past: REACH("past"); break; default: REACH("present"); }
  s->eternalize(); sx_check(s->is_eternal && s->tense() == Tense::Eternal && s->t_occurrence == occ && s->t_creation == cre, "eternalizing changes only whether a stamp is eternal");
#elif MODE == 1
  pStamp a = Stamp::create(), b = Stamp::create(true), c = Stamp::create(small("occurrence")); int occ = c->t_occurrence;
  sx_check(!a->is_eternal && a->t_occurrence == now && a->t_creation == now && a->t_put == -1 && a->tense() == Tense::Present, "a new stamp is of the present");
  sx_check(b->is_eternal && b->t_creation == now && b->tense() == Tense::Eternal, "an eternal stamp is eternal"); sx_check(!c->is_eternal && c->t_creation == now && c->t_put == -1, "a stamp of a time is an event created now"); REACH("constructors");
  GLOBAL::time = now + 2 * dur; sx_check(a->tense() == Tense::Past, "what was present is past later"); sx_check(occ == c->t_occurrence, "time");
  Base x(std::set<size_t>{1000, 1001}); size_t id = *a->evidential_base->_set->begin(); a->extend_evidenital_base(x); sx_check(a->evidential_base->size() == 3 && a->evidential_base->_set->count(id) && a->evidential_base->_set->count(1000) && a->evidential_base->_set->count(1001) && x.size() == 2, "extending a stamp adds the evidence");
  a->evidential_base = nullptr; a->extend_evidenital_base(x); sx_check(a->evidential_base != nullptr && a->evidential_base->size() == 3, "extending a stamp without evidence"); REACH("extended");
#elif MODE == 2
  static const char *BODY[4] = {"<a-->b>.", "<a-->b>?", "a!", "a@"}; static const char *TN[6] = {"", " :|:", " :/:", " :\\:", " :!", " :!-"};
  int b = sx_choose(4, "body"), t = sx_choose(6, "tense"); int k = 0; std::string text = std::string(BODY[b]) + TN[t];
  if (t >= 4) { k = sx_choose(THOROUGH ? 1000 : 120, "digits"); text += itos(k) + ":"; if (t == 5) k = -k; }
  pTask q = hx_parse(P(), text); sx_check(q != nullptr, "a tensed sentence is not accepted"); auto &s = *q->sentence->stamp;
  sx_check(s.is_eternal == (t == 0), "a sentence is eternal exactly when it has no tense"); sx_check(s.t_creation == now, "a sentence is created at the current time");
  Tense want = t == 0 ? Tense::Eternal : t == 1 ? Tense::Present : t == 2 ? Tense::Future : t == 3 ? Tense::Past : k >= now + dur ? Tense::Future : k <= now - dur ? Tense::Past : Tense::Present;
  sx_check(s.tense() == want, "the tense of a sentence is not the one written"); if (t >= 4) sx_check(s.t_occurrence == k, "the time of a sentence is not the one written"); REACH("written");
#endif
  return 0;
}
