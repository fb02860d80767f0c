// Compounds are normalised as documented, however they are built.
#include "ref.h"
#include "tgen.h"
static const Connector ALL[] = {Connector::Conjunction, Connector::Disjunction, Connector::ParallelEvents, Connector::SequentialEvents, Connector::IntensionalIntersection, Connector::ExtensionalIntersection, Connector::IntensionalSet, Connector::ExtensionalSet, Connector::Product, Connector::ExtensionalDifference, Connector::IntensionalDifference, Connector::Negation, Connector::IntensionalImage, Connector::ExtensionalImage};
static Ex L(const char *id) { int k = sx_choose(NLEAF, id); return k == 0 ? atom("a") : k == 1 ? atom("b") : k == 2 ? ivar("0") : k == 3 ? atom("c") : dvar("1"); }
static void expect(const Ex &e, bool in) {
  pTerm t = build(e, in); Ex n = normal(e);
  sx_check(match(n, *t), "a compound is normalised as documented");
  if (n.k == CMP) { auto &c = (Compound &)*t; sx_check(c.is_commutative == con_comm(n.con) && c.terms->_is_commutative == con_comm(n.con), "a normalised compound is stored as its connector demands"); }
  int cx = 0; std::function<int(const Ex &)> cpx = [&](const Ex &x) { if (x.k != STM && x.k != CMP) return 1; int s = x.k == STM; for (auto &y : x.c) s += cpx(y); return s; }; cx = cpx(n);
  sx_check(t->complexity == cx, "the complexity is that of the normalised term");
  REACH("normalised");
}
extern "C" int sx_main() {
#if MODE == 0      // a compound of two compounds
  Connector o = ALL[sx_choose(14, "outer")], p = ALL[sx_choose(14, "first")], q = ALL[sx_choose(14, "second")]; bool in = true;
  auto mk = [&](Connector c, const char *a, const char *b) { Ex x = L(a); return c == Connector::Negation ? cmp(c, {x}) : cmp(c, {x, L(b)}); };
  Ex f = mk(p, "a", "b"); expect(o == Connector::Negation ? cmp(o, {f}) : cmp(o, {f, mk(q, "c", "d")}), in);
#elif MODE == 1    // an intersection, set or event of three sets, intersections or atoms
  Connector o = ALL[sx_choose(8, "outer")]; bool in = sx_choose(2, "in"); std::vector<Ex> v;
  static const char *id[] = {"k0", "k1", "k2", "x0", "x1", "x2", "y0", "y1", "y2"};
  for (int i = 0; i < 3; i++) {
    int k = sx_choose(5, id[i]);
    if (k == 0) v.push_back(L(id[3 + i])); else if (k == 4) v.push_back(cmp(o, {L(id[3 + i]), atom("d")}));
    else v.push_back(cmp(k == 1 ? Connector::ExtensionalSet : k == 2 ? Connector::IntensionalSet : Connector::ExtensionalIntersection, {L(id[3 + i]), i == 1 ? ivar("0") : atom("a")}));
  }
  expect(cmp(o, v), in);
#elif MODE == 2    // three levels
  Connector o = ALL[sx_choose(8, "outer")], m = ALL[sx_choose(8, "middle")], n = ALL[sx_choose(8, "inner")]; bool in = sx_choose(2, "in");
  Ex i = cmp(n, {L("a"), atom("b")}), j = cmp(m, {i, sx_choose(2, "also") ? cmp(n, {atom("b"), atom("d")}) : L("c")}); expect(cmp(o, {j, sx_choose(2, "also2") ? cmp(m, {atom("d"), L("e")}) : L("e")}), in);
#endif
  return 0;
}
