// Complexity and order of terms: the number of nodes and the kind of copula, whatever way a term is built.
#include "corpus.h"
#include "ref.h"
#include "shapes.h"
static int nodes(Term &t) { int n = t.is_compound() ? 0 : 1; for (auto &p : parts(t)) n += nodes(*p); return n; }
static void all(Term &t) {
  sx_check(t.complexity == nodes(t), "the complexity of a compound is the sum of those of its components, that of a statement one more");
  sx_check(t.is_atom() + t.is_statement() + t.is_compound() == 1, "a term is an atom, a statement or a compound");
  if (t.is_statement()) { bool op = t.copula == Copula::Inheritance && t.predicate->is_atom() && t.predicate->is_operation && t.subject->is_compound() && t.subject->connector == Connector::Product; sx_check(t.is_operation == op, "a statement is an operation exactly when it gives a product to an operation"); sx_check(t.is_higher_order == (std::string(cop_str(t.copula)).find('=') != std::string::npos || t.copula == Copula::PredictiveEquivalence || t.copula == Copula::ConcurrentEquivalence), "a statement is of higher order exactly when its copula is"); if (op) REACH("operation"); }
  if (t.is_compound()) sx_check(!t.is_higher_order && !t.is_operation && ((Compound &)t).is_commutative == con_comm(t.connector) && t.terms->_is_commutative == con_comm(t.connector), "a compound is order-insensitive exactly when its connector is");
  if (!t.is_statement()) sx_check(t.subject == nullptr && t.predicate == nullptr && t.copula == Copula::None, "only statements have subject, predicate and copula"); if (!t.is_compound()) sx_check(t.terms == nullptr && t.connector == Connector::None, "only compounds have components and a connector");
  for (auto &p : parts(t)) all(*p);
}
extern "C" int sx_main() {
#if MODE == 0
  Out o; pTask k1 = hx_parse(P(), "a.", o), k2 = hx_parse(P(), "z.", o);
  pTerm t = sx_choose(2, "leaf") == 0 ? leafv(sx_choose(6, "kind"), "i0") : any_term(1 + THOROUGH, sx_choose(2, "mode")); all(*t); pTerm c = Term::clone(t); all(*c); sx_check(c->complexity == t->complexity, "a clone has the complexity of the original"); REACH("built");
#elif MODE == 1
  std::string in = edit(CORPUS[2 + sx_choose(NCORPUS - 2, "sentence")], 1, 1, "byte"); Out o; pTask t = hx_parse(P(), in, o); if (o != OK_TASK) return 0; all(*t->sentence->term); REACH("read");
#elif MODE == 2
  // every connector over terms that merge, unfold or stay
  int c = sx_choose(15, "connector"), d = sx_choose(15, "inner"); pTerm a = A("a"), b = A("b"), x = A("x"), i = K((Connector)d, {b, a}), e = S(a, (Copula)(THOROUGH ? sx_choose(12, "copula") : (c + d) % 12), sx_choose(2, "op") ? build(opr("op")) : i);
  pTerm third; switch (sx_choose(3, "third")) { case 0: third = x; break; case 1: third = i; break; default: third = a; }
  pTerm t = K((Connector)c, {i, e, third}, sx_choose(2, "mode")); all(*t); REACH("merged");
#endif
  return 0;
}
