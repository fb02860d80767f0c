// A clone is the same term, and independent of the original.
#include "shapes.h"
extern "C" int sx_main() {
  pTerm t;
#if MODE == 0
  int s = sx_choose(7, "leaf"); t = s < 6 ? leafv(s, "i") : any_term(1, sx_choose(2, "in"));
#else
  t = any_term(2, sx_choose(2, "in"));
#endif
  pTerm c = Term::clone(t);
  sx_check(same(*t, *c) && *t == *c, "a clone is equal to its original");
  sx_check(UTILS::hash(*t) == UTILS::hash(*c), "a clone has the hash of its original");
  std::string txt = hx_print(*t); sx_check(hx_print(*c) == txt, "a clone prints like its original");
  sx_check(c->type == t->type && c->has_var == t->has_var && c->has_ivar == t->has_ivar && c->has_dvar == t->has_dvar && c->has_qvar == t->has_qvar && c->is_var == t->is_var && c->is_ivar == t->is_ivar && c->is_dvar == t->is_dvar && c->is_qvar == t->is_qvar
           && c->is_higher_order == t->is_higher_order && c->is_operation == t->is_operation && c->is_interval == t->is_interval && c->complexity == t->complexity && c->copula == t->copula && c->connector == t->connector, "a clone has the properties of its original");
  if (!t->has_var) { sx_check(&*c == &*t, "a term without variables is shared"); REACH("shared"); return 0; }
  std::vector<Occ> o, p; occurrences(*t, o); occurrences(*c, p);
  sx_check(o.size() == p.size(), "a clone has the variables of its original"); if (o.size() != p.size()) return 0;
  for (size_t i = 0; i < o.size(); i++) for (size_t j = 0; j < p.size(); j++) sx_check(o[i].at != p[j].at && ivx(*o[i].at, o[i].kind)->indices[0].get() != ivx(*p[j].at, p[j].kind)->indices[0].get(), "a clone shares no variable with its original");
  for (int k = 0; k < 3; k++) { auto &x = ivx(*t, k)->indices, &y = ivx(*c, k)->indices; sx_check(x.size() == y.size(), "a clone lists the variables of its original"); for (size_t i = 0; i < x.size() && i < y.size(); i++) sx_check(*x[i] == *y[i] && x[i].get() != y[i].get(), "a clone lists its own variables");
    sx_check(ivx(*t, k)->positions == ivx(*c, k)->positions, "a clone lists the positions of its variables");
    if (!x.empty()) sx_check(*ivx(*c, k)->indices_normalized() == *ivx(*t, k)->indices_normalized(), "a clone has the normalised indices of its original"); }
  for (size_t i = 0; i < p.size(); i++) *ivx(*p[i].at, p[i].kind)->indices[0] = 300 + (int)i;   // renaming the variables of the clone
  sx_check(hx_print(*t) == txt, "renaming the variables of a clone leaves the original alone");
  for (size_t i = 0; i < o.size(); i++) sx_check(*ivx(*o[i].at, o[i].kind)->indices[0] == o[i].idx, "renaming the variables of a clone leaves those of the original alone");
  t = pTerm(); occurrences(*c, p); for (size_t i = 0; i < p.size(); i++) sx_check(p[i].idx >= 0, "a clone survives its original"); (void)hx_print(*c);
  REACH("cloned");
  return 0;
}
