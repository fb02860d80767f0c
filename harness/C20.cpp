// Rendering: what is printed is a sentence of the grammar that says exactly what was printed.
#include "corpus.h"
#include "ref.h"
#include "shapes.h"
using TENSE::Tense;
static const char *LONE = "a compound with a single component is printed as a text that is not accepted";
static bool lone(Term &t) {
  if (t.type == TermType::COMPOUND && t.terms->size() < 2 && t.connector != Connector::ExtensionalSet && t.connector != Connector::IntensionalSet && t.connector != Connector::Negation && t.connector != Connector::Product) return true;
  for (auto &p : parts(t)) if (lone(*p)) return true; return false;
}
// prints a term, reads the text again, and compares both with what the text says
static void round_trip(Term &t, const char *punct, pTask &back) {
  std::string s = hx_print(t) + punct; Out o; Ref r(s); auto all = r.sentences(); back = hx_parse(P(), s, o);
  if (lone(t)) { REACH("lone"); sx_check(o == OK_TASK, LONE); if (o != OK_TASK) return; }
  sx_check(o == OK_TASK, "a printed term is not accepted by the parser"); if (o != OK_TASK) return;
  sx_check(all.size() == 1, "a printed term is not an unambiguous sentence of the grammar");
  bool a = false, b = false; for (auto &x : all) { Ex e = normal(meaning(x.term)); if (match(e, t)) a = true; if (match(e, *back->sentence->term)) b = true; }
  sx_check(a, "a printed term does not say what the term is"); sx_check(b, "a printed term is read as another term");
  REACH("round trip");
}
static bool near(double a, double b, double e) { return a - b <= e && b - a <= e; }
extern "C" int sx_main() {
  GLOBAL::time = 100; pTask back(nullptr);
#if MODE == 0 || MODE == 1
  auto named = [](const char *n) { Out o; return hx_parse(P(), std::string(n) + ".", o); }; pTask k1 = named("a"), k2 = named("z");
  pTerm t = MODE == 0 && sx_choose(2, "leaf") == 0 ? leafv(sx_choose(2, "kind") == 0 ? 0 : 5, "i0") : any_term(MODE + 1, true);
  round_trip(*t, ".", back);
  if (back != nullptr) { sx_check(back->sentence->term->hash_value == t->hash_value || t->has_var, "a term without variables has the hash of the term its text is read as"); if (!t->has_var) { sx_check(*t == *back->sentence->term, "a term without variables equals the term its text is read as"); REACH("equal"); } }
#elif MODE == 2
  std::string in = edit(CORPUS[2 + sx_choose(NCORPUS - 2, "sentence")], 1, 1, "byte"); for (size_t i = 0; i < in.size(); i++) sx_assume(in[i] != '\t'); Out o; pTask t = hx_parse(P(), in, o); if (o != OK_TASK) return 0; REACH("accepted");
  static const char *PU[] = {".", "?", "!", "@"}; round_trip(*t->sentence->term, PU[(int)t->sentence->punct], back);
#elif MODE == 3
  static const float F[6] = {1.0f, 0.0f, 0.5f, 0.1234f, 0.9996f, 0.0004f}, C[6] = {0.9f, 0.25f, 0.00051f, 0.99961f, 0.5f, 0.1f}, B[4] = {0.8f, 0.0f, 1.0f, 0.123f};
  static const char *PU[] = {".", "?", "!", "@"}; static const char *BODY[4] = {"<a-->b>", "(^op, a)", "<$x==>(&/, a, +3)>", "{a, [b]}"};
  int pu = sx_choose(4, "punct"); pTask t = hx_parse(P(), std::string(BODY[sx_choose(4, "body")]) + PU[pu]); auto &se = *t->sentence;
  int te = sx_choose(4, "tense"); se.stamp = te == 0 ? SENTENCE::Stamp::create(true) : SENTENCE::Stamp::create(te == 1 ? 90 : te == 2 ? 100 : 110);
  if (se.truth) { se.truth->f = F[sx_choose(6, "f")]; se.truth->c = C[sx_choose(6, "c")]; }
  int b = sx_choose(4, "budget"); t->budget->priority = B[b]; t->budget->durability = B[(b + 1) % 4]; t->budget->quality = B[(b + 2) % 4];
  
  std::string s = hx_print(*t); Out o; back = hx_parse(P(), s, o); sx_check(o == OK_TASK, "a printed task is not accepted by the parser"); if (o != OK_TASK) return 0;
  auto &sb = *back->sentence; sx_check(sb.punct == se.punct, "a printed task is read with another punctuation"); sx_check(sb.stamp->tense() == se.stamp->tense(), "a printed task is read with another tense");
  sx_check((sb.truth != nullptr) == (se.truth != nullptr), "truth"); if (se.truth) sx_check(near(sb.truth->f, se.truth->f, 0.000501) && near(sb.truth->c, se.truth->c, 0.00101), "a printed truth value is read as one further away than rounding explains");
  sx_check(near(back->budget->priority, t->budget->priority, 0.0056) && near(back->budget->durability, t->budget->durability, 0.0101) && near(back->budget->quality, t->budget->quality, 0.0056), "a printed budget is read as one further away than rounding explains");
  sx_check(hx_print(*se.term) == hx_print(*sb.term), "a printed task is read with another term"); sx_check(hx_print(*back) == s, "printing what was read from a printed task gives another text"); REACH("task");
#elif MODE == 4    // wide and deep terms
  int what = sx_choose(6, "what"), n = 1 + sx_choose(THOROUGH ? 16 : 9, "size"); char d[1]; sx_sym_bytes(d, 1, "name"); sx_assume(d[0] >= 'a'); sx_assume(d[0] <= 'z'); std::string nm(d, 1); Ex e = atom(nm); std::vector<Ex> v;
  for (int i = 0; i < n + 1; i++) v.push_back(what == 1 ? (i % 3 == 0 ? ivar("v" + itos(i / 3)) : i % 3 == 1 ? dvar("v" + itos(i / 3)) : qvar("v" + itos(i / 3))) : what == 2 ? num((i % 2 ? 1 : -1) * (1 << (3 * i % 31))) : atom("t" + itos(i)));
  v.push_back(e);
  if (what == 0 || what == 2) e = cmp(what == 0 ? (sx_choose(2, "set") ? Connector::ExtensionalSet : Connector::Conjunction) : Connector::SequentialEvents, v); else if (what == 1) e = cmp(Connector::Product, v);
  else if (what == 3) for (int i = 0; i < n; i++) e = i % 3 == 0 ? cmp(Connector::Product, {atom("x"), e}) : i % 3 == 1 ? stm(e, Copula::Implication, atom("y")) : cmp(Connector::Negation, {e});
  else if (what == 4) for (int i = 0; i < n; i++) e = i % 2 ? opst("f", {e, ivar("z")}) : cmp(Connector::ExtensionalSet, {stm(dvar("u"), Copula::Inheritance, e)});
  else e = opst("op", v);
  static const char *PU[] = {".", "?", "!", "@"}; Out o; pTask t = hx_parse(P(), text(e) + PU[n % 4], o); sx_check(o == OK_TASK, "a sentence of the language is accepted"); if (o != OK_TASK) return 0; round_trip(*t->sentence->term, PU[n % 4], back); REACH("wide or deep");
#endif
  return 0;
}
