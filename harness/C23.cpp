// The tables of connectors and copulas, against the documented notation and the grammar.
#include "hx.h"
#include "ref.h"
#include "tgen.h"
static bool member(int v, std::initializer_list<int> l) { bool r = false; for (int x : l) r |= v == x; return r; }
extern "C" int sx_main() {
#if MODE == 0
  // arity: every connector, every number of components
  int c = (int)sx_sym(8, "connector"); sx_assume(c < 15); unsigned n = (unsigned)sx_sym(32, "components"); Connector k = (Connector)c;
  bool one = c == Connector::Negation, two = member(c, {Connector::ExtensionalDifference, Connector::IntensionalDifference}), any = member(c, {Connector::ExtensionalSet, Connector::IntensionalSet, Connector::List});
  sx_check(CONNECTOR::check_valid(k, n) == (one ? n == 1 : two ? n == 2 : any ? n >= 1 : n >= 2), "the numbers of components a connector takes are the documented ones");
  sx_check(CONNECTOR::is_single_only(k) == one, "only negation takes exactly one component"); sx_check(CONNECTOR::is_double_only(k) == two, "only differences take exactly two components");
  sx_check(CONNECTOR::is_temporal(k) == member(c, {Connector::ParallelEvents, Connector::SequentialEvents}), "only events are temporal");
  bool comm = member(c, {Connector::Conjunction, Connector::Disjunction, Connector::ParallelEvents, Connector::IntensionalIntersection, Connector::ExtensionalIntersection, Connector::ExtensionalSet, Connector::IntensionalSet});
  sx_check(CONNECTOR::is_commutative(k) == comm, "the order-insensitive connectors are the documented ones"); sx_check(CONNECTOR::is_reducible(k) == (comm || c == Connector::SequentialEvents), "the connectors whose nesting is unfolded are the documented ones"); REACH("connectors");
  // copulas
  int p = (int)sx_sym(8, "copula"); sx_assume(p < 12); Copula q = (Copula)p;
  bool temporal = member(p, {Copula::PredictiveImplication, Copula::ConcurrentImplication, Copula::RetrospectiveImplication, Copula::PredictiveEquivalence, Copula::ConcurrentEquivalence}), equiv = member(p, {Copula::Equivalence, Copula::PredictiveEquivalence, Copula::ConcurrentEquivalence}), sym = member(p, {Copula::Similarity, Copula::Equivalence, Copula::ConcurrentEquivalence});
  sx_check(COPULA::is_temporal(q) == temporal, "the temporal copulas are the documented ones"); sx_check(COPULA::is_commutative(q) == sym, "the symmetric copulas are the documented ones"); sx_check(COPULA::is_higher_order(q) == (p >= Copula::Implication), "implications and equivalences, and no others, are of higher order");
  Copula s = COPULA::symmetrize(q), r = COPULA::reverse(q);
  if (s != Copula::None) { sx_check(COPULA::symmetrize(s) == s, "symmetrising twice is symmetrising once"); sx_check(s == Copula::Similarity || member(s, {Copula::Equivalence, Copula::PredictiveEquivalence, Copula::ConcurrentEquivalence}), "symmetrising gives a similarity or an equivalence"); sx_check(COPULA::is_temporal(s) == temporal && COPULA::is_higher_order(s) == (p >= Copula::Implication), "symmetrising keeps temporality and order"); REACH("symmetrised"); }
  sx_check((s == Copula::None) == member(p, {Copula::Instance, Copula::Property, Copula::InstanceProperty, Copula::RetrospectiveImplication}), "every copula with a symmetric counterpart has it"); if (equiv || p == Copula::Similarity) sx_check(s == q, "a similarity or equivalence is its own symmetric counterpart");
  if (r != Copula::None) { sx_check(COPULA::reverse(r) == q, "reversing twice changes nothing"); sx_check(COPULA::is_temporal(r) == temporal && COPULA::is_commutative(r) == sym, "reversing keeps temporality and symmetry"); REACH("reversed"); }
  if (p == Copula::PredictiveImplication) sx_check(r == Copula::RetrospectiveImplication, "the reverse of a prediction is a retrospection"); if (p == Copula::ConcurrentImplication || p == Copula::ConcurrentEquivalence) sx_check(r == q, "the reverse of a concurrent copula is itself");
#elif MODE == 1
  // the text of every connector is read as that connector with exactly the numbers of components it takes
  int c = sx_choose(14, "connector"), n = sx_choose(4, "components") + 1; Connector k = (Connector)c; static const char *X[4] = {"a", "b", "c", "d"}; const std::string &rep = CONNECTOR::Repr[c]; sx_check(rep == con_str(k), "a connector has its documented text");
  bool set = c == Connector::ExtensionalSet || c == Connector::IntensionalSet; std::string s = set ? rep : "(" + rep; std::vector<Ex> v; for (int i = 0; i < n; i++) { if (i || !set) s += ", "; s += X[i]; v.push_back(atom(X[i])); } s += set ? (rep == "{" ? "}" : "]") : ")"; s += ".";
  bool image = c == Connector::ExtensionalImage || c == Connector::IntensionalImage, lone = c == Connector::Product && n == 1; Out o; pTask t = hx_parse(P(), s, o); if (image || lone) { REACH("other syntax"); if (o != OK_TASK) return 0; }
  else sx_check((o == OK_TASK) == CONNECTOR::check_valid(k, n), "the parser accepts a compound exactly when its connector takes that many components");
  if (o != OK_TASK) { REACH("refused"); return 0; } sx_check(match(cmp(k, v), *t->sentence->term), "the text of a connector is read as that connector"); sx_check(t->sentence->term->terms->_is_commutative == CONNECTOR::is_commutative(k), "components are kept in order exactly for the connectors for which it matters"); REACH("compound");
#elif MODE == 2
  int p = sx_choose(12, "copula"); Copula q = (Copula)p; const std::string &rep = COPULA::Repr[p]; sx_check(rep == cop_str(q), "a copula has its documented text"); Out o; pTask t = hx_parse(P(), "<a " + rep + " b>.", o); sx_check(o == OK_TASK, "the text of a copula is read"); if (o != OK_TASK) return 0;
  auto &x = *t->sentence->term; sx_check(match(meaning(stm(atom("a"), q, atom("b"))), x), "the text of a copula is read as that copula"); sx_check(x.is_higher_order == COPULA::is_higher_order(x.copula) && ((Statement &)x).is_commutative == COPULA::is_commutative(x.copula), "a statement has the order and symmetry of its copula"); REACH("copula");
  static const char *PU[] = {".", "?", "!", "@"}; for (int i = 0; i < 4; i++) sx_check(SENTENCE::PUNCTUATION::Repr[i] == PU[i], "a punctuation mark has its documented text"); static const char *TE[] = {":\\:", ":|:", ":/:", ":-:"}; for (int i = 0; i < 4; i++) sx_check(TENSE::Repr[i] == TE[i], "a tense has its documented text");
  static const char *VA[] = {"$", "#", "?"}; for (int i = 0; i < 3; i++) sx_check(VARIABLE::Repr[i] == VA[i], "a variable prefix has its documented text");
#endif
  return 0;
}
