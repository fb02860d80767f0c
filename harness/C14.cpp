// Variable flags and indices describe exactly the variables a term contains.
#include "shapes.h"
static void examine(Term &t) {
  std::vector<Occ> o; occurrences(t, o); bool has[3] = {false, false, false}; for (auto &x : o) has[x.kind] = true;
  sx_check(t.has_ivar == has[0] && t.has_dvar == has[1] && t.has_qvar == has[2], "a term contains a kind of variable exactly when its flag says so");
  sx_check(t.has_var == (has[0] || has[1] || has[2]), "a term contains variables exactly when its flag says so");
  sx_check(t.is_var == (t.is_atom() && !o.empty()) && t.is_var == (t.is_ivar || t.is_dvar || t.is_qvar), "only variables are variables");
  for (int k = 0; k < 3; k++) {
    std::vector<Occ *> e; for (auto &x : o) if (x.kind == k) e.push_back(&x);
    auto &iv = *ivx(t, k); sx_check(iv.indices.size() == e.size() && iv.positions.size() == e.size(), "a term lists every occurrence of its variables"); if (iv.indices.size() != e.size() || iv.positions.size() != e.size()) return;
    for (size_t i = 0; i < e.size(); i++) { sx_check(*iv.indices[i] == e[i]->idx && iv.indices[i].get() == ivx(*e[i]->at, k)->indices[0].get(), "a term lists its variables in order, linked to them"); sx_check(iv.positions[i] == e[i]->pos, "a term lists where its variables are"); }
    auto nz = iv.indices_normalized(); sx_check(nz->size() == e.size(), "normalised indices are as many as occurrences"); if (nz->size() != e.size()) return;
    for (size_t i = 0; i < e.size(); i++) { int rank = 0; for (size_t j = 0; j < e.size(); j++) { bool first = true; for (size_t l = 0; l < j; l++) if (e[l]->idx == e[j]->idx) first = false; if (first && e[j]->idx < e[i]->idx) rank++; } sx_check((*nz)[i] == rank, "normalised indices number the variables from zero"); }
  }
  for (auto &p : parts(t)) examine(*p);
}
extern "C" int sx_main() {
#if MODE == 0
  int s = sx_choose(7, "leaf"); pTerm t = s < 6 ? leafv(s, "i") : any_term(1, sx_choose(2, "in")); examine(*t); REACH("examined");
#elif MODE == 1
  pTerm t = any_term(2, sx_choose(2, "in")); examine(*t); REACH("examined");
#elif MODE == 2    // terms read from text
  static const char *T[] = {"<<$X-->a>==><$Y-->b>>.", "(&&,<#X-->a>,<#Y-->b>,<$X-->$Z>).", "<(&&,<$X-->?Y>,<#Z-->a>)==><$Z-->#X>>.", "(--,(*,$X,#Y,?Z,$Z)).", "<(&/,$X,+3,#Y)=/>(*,{$Z,$X},#Z)>.", "op(?X,$Y,{?Z})."};
  int k = sx_choose(6, "text"); char b[3]; sx_sym_bytes(b, 3, "names"); for (char c : b) sx_assume(c >= 'a' && c <= 'z');
  std::string s = T[k]; for (char &ch : s) if (ch >= 'X' && ch <= 'Z') ch = b[ch - 'X'];
  pTask t = hx_parse(P(), s); sx_check(t != nullptr, "the text is accepted"); if (t == nullptr) return 0;
  examine(*t->sentence->term);
  // occurrences of one name, and only they, have one index
  std::vector<Occ> o; occurrences(*t->sentence->term, o); Ref r(s); auto ss = r.sentences(); sx_check(ss.size() == 1 && match(normal(meaning(ss[0].term)), *t->sentence->term), "equal names of a kind, and only they, are one variable");
  REACH("read");
#endif
  return 0;
}
