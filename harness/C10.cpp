// The order and repetition of components is immaterial exactly for the order-insensitive connectors.
#include "ref.h"
#include "tgen.h"
static const Connector COMM[] = {Connector::Conjunction, Connector::Disjunction, Connector::ParallelEvents, Connector::IntensionalIntersection, Connector::ExtensionalIntersection, Connector::IntensionalSet, Connector::ExtensionalSet};
static const int PERM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
static int vi, vj;
static pTerm comp(int k, const pTerm &a, const pTerm &b) {
  switch (k) { case 0: return a; case 1: return b; case 2: return V(0, vi); case 3: return V(0, vj); case 4: return S(V(1, vj), Copula::Inheritance, a); case 5: return K(Connector::Product, {a, V(0, vi)}); default: return S(V(1, vi), Copula::Inheritance, a); }
}
static void equal(Term &x, Term &y) {
  sx_check(x == y && y == x, "reordered or repeated components of an order-insensitive connector make the same term");
  sx_check(UTILS::hash(x) == UTILS::hash(y), "reordered or repeated components do not change the hash");
  sx_check(hx_print(x) == hx_print(y), "reordered or repeated components do not change the text");
  sx_check(x.complexity == y.complexity && x.terms->size() == y.terms->size(), "reordered or repeated components do not change size and complexity");
  REACH("reordered");
}
extern "C" int sx_main() {
#if MODE == 0      // three components and any permutation of them, any repetition
  bool sw = sx_choose(2, "first atom"); pTerm p = A(sw ? "b" : "a"), q = A(sw ? "a" : "b"), a = sw ? q : p, b = sw ? p : q;
  vi = sidx("i"); vj = sidx("j"); Connector c = COMM[sx_choose(7, "connector")]; bool in = true;
  int NP = THOROUGH ? 7 : 6; int k[3] = {sx_choose(NP, "x"), sx_choose(NP, "y"), sx_choose(NP, "z")}; sx_assume(k[0] <= k[1] && k[1] <= k[2]);
  const int *pm = PERM[sx_choose(6, "permutation")]; int rep = sx_choose(2, "repeat") ? 2 : 3;
  std::vector<pTerm> u, v; for (int i = 0; i < 3; i++) { u.push_back(comp(k[i], a, b)); v.push_back(comp(k[pm[i]], a, b)); }
  if (rep < 3) v.push_back(comp(k[rep], a, b));
  pTerm x(new Compound(c, u, in)), y(new Compound(c, v, in)); equal(*x, *y);
#elif MODE == 1    // where the order matters, it is kept and makes a different term
  static const Connector ORD[] = {Connector::Product, Connector::SequentialEvents, Connector::IntensionalImage, Connector::ExtensionalImage, Connector::ExtensionalDifference, Connector::IntensionalDifference};
  pTerm a = A("a"), b = A("b"); vi = sidx("i"); vj = sidx("j"); Connector c = ORD[sx_choose(6, "connector")];
  int m = sx_choose(7, "x"), n = sx_choose(7, "y"); bool in = sx_choose(2, "in");
  pTerm x = K(c, {comp(m, a, b), comp(n, a, b)}, in), y = K(c, {comp(n, a, b), comp(m, a, b)}, in); bool alike = same(*comp(m, a, b), *comp(n, a, b));
  sx_check((*x == *y) == alike, "the order of components matters for order-sensitive connectors");
  auto px = parts(*x); sx_check(px.size() == 2 && same(*px[0], *comp(m, a, b)) && same(*px[1], *comp(n, a, b)), "ordered components stay in the order given, repetitions included");
  REACH("ordered");
#elif MODE == 2    // read from text, nested: any order of three components on two levels
  static const char *C[] = {"&&", "||", "&|", "|", "&"}; int c = sx_choose(5, "outer"), d = THOROUGH ? sx_choose(5, "inner") : (c + 2 * sx_choose(2, "inner")) % 5; const int *pm = PERM[sx_choose(6, "permutation")]; bool sw = sx_choose(2, "swap");
  char b[3]; sx_sym_bytes(b, 3, "names"); for (char ch : b) sx_assume(ch >= 'a' && ch <= 'c');
  auto I = [&](int i) { return std::string(1, b[i]); };
  std::string in1 = std::string("(") + C[d] + ", <" + I(0) + "-->$x>, <$x-->" + I(1) + ">, q)", in2 = std::string("(") + C[d] + ", q, <$x-->" + I(1) + ">, <" + I(0) + "-->$x>)";
  std::string e[3] = {in1, "{" + I(2) + ", " + I(0) + "}", "<p<->{" + I(2) + ", " + I(1) + "}>"}, f[3] = {sw ? in2 : in1, "{" + I(0) + ", " + I(2) + "}", "<p<->{" + I(1) + ", " + I(2) + "}>"};
  std::string s = std::string("(") + C[c], t = s; for (int i = 0; i < 3; i++) { s += ", " + e[i]; t += ", " + f[pm[i]]; }
  if (c != 3 && c != 4) { s += ", [" + I(0) + "," + I(1) + "]"; t += ", [" + I(1) + "," + I(0) + "," + I(1) + "]"; }
  pTask x = hx_parse(P(), s + ")."), y = hx_parse(P(), t + ")."); sx_check(x != nullptr && y != nullptr, "the sentences are accepted"); if (x == nullptr || y == nullptr) return 0;
  equal(*x->sentence->term, *y->sentence->term);
#endif
  return 0;
}
