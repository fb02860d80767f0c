// A name denotes one atom for as long as anything refers to it; distinct names denote distinct atoms; nothing is left behind.
#include "tgen.h"
#include <optional>
using INTERPRETER::Interpreter;
#define NL 2
static std::string nm(const char *id, int n = NL) { char b[8]; sx_sym_bytes(b, n, id); for (int i = 0; i < n; i++) sx_assume(b[i] >= '!' && b[i] <= '~'); return std::string(b, n); }
extern "C" int sx_main() {
  Interpreter &I = INTERPRETER::interpreter;
#if MODE == 0      // three names of any characters
  std::string a = nm("a"), b = nm("b"), c = nm("c", 1);
  pTerm x = A(a.c_str()), y = A(b.c_str()), z = A(c.c_str()), x2 = A(a.c_str());
  sx_check((x.get() == y.get()) == (a == b), "two names denote the same atom exactly when they are equal");
  sx_check(x2.get() == x.get(), "the same name denotes the same atom again");
  sx_check(z.get() != x.get() && z.get() != y.get(), "a name and a shorter name denote different atoms");
  sx_check(I.interpret(*x) == a && I.interpret(*y) == b && I.interpret(*z) == c, "an atom prints as its name");
  sx_check(I.dictionary.size() == (a == b ? 2u : 3u), "the dictionary knows each living name once");
  REACH("names");
#elif MODE == 1    // histories: atoms are created, shared, put into terms and released in any order
  const char *NAME[2] = {"a", "b"}; std::optional<pTerm> h[3]; int own[3] = {-1, -1, -1}; Term *at[3] = {0, 0, 0};
  for (int step = 0; step < STEPS; step++) {
    int k = sx_choose(3, "slot"), op = sx_choose(4, "op"), n = op < 2 ? sx_choose(2, "name") : 0;
    if (op == 3) { h[k].reset(); own[k] = -1; }
    else if (h[k].has_value()) continue;             // only empty slots are filled: a holder is never reassigned
    else if (op == 2) { int j = (k + 1) % 3; if (!h[j].has_value()) continue; h[k].emplace(*h[j]); own[k] = own[j]; at[k] = at[j]; }
    else if (op == 0) { h[k].emplace(A(NAME[n])); own[k] = n; at[k] = h[k]->get(); }
    else { h[k].emplace(S(A(NAME[n]), Copula::Inheritance, A("c"))); own[k] = n; at[k] = (*h[k])->subject.get(); }
    bool used[2] = {false, false};
    for (int i = 0; i < 3; i++) if (own[i] >= 0) { used[own[i]] = true; for (int j = 0; j < i; j++) if (own[j] >= 0) sx_check((at[i] == at[j]) == (own[i] == own[j]), "a name keeps denoting the same atom while it is referred to"); }
    for (int i = 0; i < 2; i++) { std::string s = NAME[i]; sx_check(I.check_by_name(s) == used[i], "a name is in the dictionary exactly while something refers to its atom"); }
    for (int i = 0; i < 3; i++) if (own[i] >= 0) sx_check(I.interpret(*at[i]) == NAME[own[i]], "an atom keeps its name while it is referred to");
  }
  for (auto &o : h) o.reset();
  sx_check(I.dictionary.empty() && I.objects.empty() && I.dictionary_inv.empty(), "nothing is left in the dictionary when nothing is referred to");
  REACH("history");
#elif MODE == 2    // the atoms of two parsed sentences are shared, and released with them
  char b[3]; sx_sym_bytes(b, 3, "names"); for (char c : b) sx_assume(c >= 'a' && c <= 'e');
  static const char *T[] = {"<X-->Y>.", "(X*(--,Y)).", "{X,<$Y-->Z>}?", "(X,Y,Z)!", "<(&/,X,+1,Y)=/>Z>. :|:", "<^X-->Y>."};
  int k = sx_choose(6, "text"), first = sx_choose(2, "first");
  auto fill = [&](char x, char y, char z) { std::string s = T[k]; for (char &ch : s) if (ch == 'X') ch = x; else if (ch == 'Y') ch = y; else if (ch == 'Z') ch = z; return s; };
  std::optional<pTask> t, u; t.emplace(hx_parse(P(), fill(b[0], b[1], b[2]))); size_t n = I.dictionary.size(); u.emplace(hx_parse(P(), fill(b[0], b[1], b[2])));
  sx_check(*t != nullptr && *u != nullptr, "the texts are accepted"); if (*t == nullptr || *u == nullptr) return 0;
  sx_check(I.dictionary.size() == n, "reading the same text again makes no new atoms");
  { pTerm &p = (*t)->sentence->term, &q = (*u)->sentence->term; sx_check(*p == *q && same(*p, *q), "the same text read twice denotes the same term"); }
  std::string before = hx_print((**t)); (first ? t : u).reset();
  sx_check(I.dictionary.size() == n, "atoms in use survive the release of another task");
  if (first) sx_check(hx_print(**u) == before, "a task prints the same after another one is released"); 
  t.reset(); u.reset(); sx_check(I.dictionary.empty() && I.objects.empty(), "the atoms of a sentence are released with it");
  REACH("shared");
#endif
  return 0;
}
