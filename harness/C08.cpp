// Two terms are equal exactly when they are built alike; equal terms have equal hashes.
#include "tgen.h"
static pTerm leaf(int k, const char *id) { switch (k) { case 0: return A("a"); case 1: return A("b"); case 2: return V(0, sidx(id)); case 3: return V(1, sidx(id)); case 4: return V(2, sidx(id)); case 5: return N((int)sx_sym(32, id)); default: return build(opr("op")); } }
static const Copula CO[] = {Copula::Inheritance, Copula::Similarity, Copula::Implication, Copula::Equivalence};
static const Connector CN[] = {Connector::Product, Connector::Conjunction, Connector::ExtensionalSet, Connector::SequentialEvents, Connector::IntensionalDifference, Connector::ExtensionalIntersection};
static void compare(Term &x, Term &y) {
  bool e = x == y, s = same(x, y);
  sx_check(e == s, "terms are equal exactly when they are built alike");
  sx_check((y == x) == e, "equality is symmetric");
  if (e) sx_check(UTILS::hash(x) == UTILS::hash(y), "equal terms have equal hashes");
  sx_check(x == x && y == y, "every term equals itself");
  if (e) REACH("equal"); else REACH("different");
}
static pTerm one(int k, const char *id) {       // a term of depth one
  bool in = true; pTerm p = leaf(sx_choose(4, id), id), q = leaf(sx_choose(4, id), id);
  return k < 3 ? S(p, CO[k], q, in) : K(CN[k - 3], {p, q}, in);
}
extern "C" int sx_main() {
#if MODE == 0      // all pairs of leaves
  pTerm x = leaf(sx_choose(7, "x"), "xi"), y = leaf(sx_choose(7, "y"), "yi"); compare(*x, *y);
#elif MODE == 1    // all pairs of terms of depth one
  pTerm x = one(sx_choose(7, "kx"), "x"), y = one(sx_choose(7, "ky"), "y"); compare(*x, *y);
#elif MODE == 2    // a nested term and a second one in which one leaf, connector, copula or order differs
  // the choices are made once: the second term repeats the symbolic parts of the first
  int c = sx_choose(2, "cop"), o = sx_choose(3, "outer"), n = sx_choose(4, "inner"), var = sx_choose(3, "var"), i = sidx("i"), j = sidx("j"), change = sx_choose(10, "change");
  auto make = [&](int ch) {
    pTerm l[4] = {A("a"), V(var, i), A("c"), V(var == 2 ? 0 : var + 1, j)};
    if (ch >= 0 && ch < 4) l[ch] = leaf(sx_choose(5, "new"), "new");
    Connector cn = CN[n], oc = CN[o]; Copula cp = CO[c];
    if (ch == 4) cn = CN[(n + 1) % 6]; if (ch == 5) cp = CO[c + 2]; if (ch == 6) std::swap(l[0], l[1]); if (ch == 7) std::swap(l[2], l[3]);
    pTerm in = K(cn, {l[0], l[1]}), st = S(l[2], cp, l[3]);
    return ch == 8 ? K(oc, {st, in}) : K(oc, {in, st});
  };
  pTerm x = make(-1), y = make(change); compare(*x, *y);
#elif MODE == 3    // read from text: the same text twice, and texts that differ in one name
  int k = sx_choose(6, "text"); static const char *T[] = {"<X-->Y>.", "{X,Y,3}.", "<<$X-->a>==><$X-->Y>>.", "(&&,<#X-->Y>,<?X<->b>).", "(X*Y*(--,Y)).", "X(Y,{+3,Y})."};
  char b[2]; sx_sym_bytes(b, 2, "name"); for (char ch : b) sx_assume(ch >= 'a' && ch <= 'z');
  auto fill = [&](char x, char y) { std::string s = T[k]; for (char &ch : s) if (ch == 'X') ch = x; else if (ch == 'Y') ch = y; return s; };
  pTask t = hx_parse(P(), fill('p', b[0])), u = hx_parse(P(), fill('p', b[1]));
  sx_check(t != nullptr && u != nullptr, "the texts are accepted"); if (t == nullptr || u == nullptr) return 0;
  compare(*t->sentence->term, *u->sentence->term);
  sx_check((*t->sentence->term == *u->sentence->term) == (b[0] == b[1]), "two texts denote equal terms exactly when the names agree");
#endif
  return 0;
}
