// Iterators over components behave as positions: any history of copies, assignments and moves over both kinds of collections.
#include "hx.h"
#include "tgen.h"
using TERM::Iterator;
extern "C" int sx_main() {
  pTerm a = A("a"), b = A("b"), c = A("c"); int n = sx_choose(4, "size"); std::vector<pTerm> src = {a, b, c}; src.resize(n);
  Terms col[2] = {Terms(src, false), Terms(src, true)}; std::vector<pTerm> want[2] = {src, std::vector<pTerm>(col[1].terms_unordered.begin(), col[1].terms_unordered.end())};
  for (int k = 0; k < 2; k++) { int i = 0; for (auto it = col[k].begin(); it != col[k].end(); ++it, ++i) { sx_check(i < n, "iterating ends after the last component"); sx_check((*it).get() == want[k][i].get(), "iterating yields the components in order"); if (i >= n) return 0; } sx_check(i == n, "iterating yields every component");
    std::vector<pTerm> v = col[k]; sx_check(v.size() == want[k].size() && std::equal(v.begin(), v.end(), want[k].begin(), [](const pTerm &x, const pTerm &y) { return x.get() == y.get(); }), "a collection as a vector has the components in order"); sx_check((int)col[k].size() == n, "size"); int m = 0; for (auto t : col[k]) m += t.get() == want[k][m].get(); sx_check(m == n, "a range loop yields every component"); }
  size_t live = sx_live_heap(); {
    Iterator it[2] = {col[0].begin(), col[1].begin()}; int kind[2] = {0, 1}, pos[2] = {0, 0}; size_t held = sx_live_heap();
    for (int s = 0; s < STEPS; s++) {
      static const int D[] = {-2, -1, 0, 1, 2}; int op = sx_choose(5, "op"), i = sx_choose(2, "i"), d = op >= 3 ? D[sx_choose(5, "d")] : 1;
      switch (op) {
      case 0: if (pos[i] >= n) return 0; { Iterator &r = ++it[i]; sx_check(&r == &it[i], "incrementing returns the iterator"); } pos[i]++; REACH("increment"); break;
      case 1: if (pos[i] >= n) return 0; it[i]++; pos[i]++; break;
      case 2: { int j = sx_choose(2, "j"); Iterator &r = (it[i] = it[j]); sx_check(&r == &it[i], "assigning returns the iterator"); kind[i] = kind[j]; pos[i] = pos[j]; REACH(kind[i] ? "assign set" : "assign sequence"); break; }
      case 3: { if (pos[i] + d > n || pos[i] + d < 0) return 0; int old = pos[i]; Iterator y = it[i] + d; sx_check((it[i] == y + 0) == (d == 0), "a moved copy is another position"); sx_check(old >= n || (*it[i]).get() == want[kind[i]][old].get(), "moving a copy leaves the original alone"); it[i] = y; pos[i] += d; REACH(d < 0 ? "forward by less than nothing" : "forward"); break; }
      default: { if (pos[i] - d < 0 || pos[i] - d > n) return 0; Iterator y = it[i] - d; it[i] = y; pos[i] -= d; REACH(d < 0 ? "back by less than nothing" : "back"); break; }
      }
      for (int x = 0; x < 2; x++) {
        sx_check((it[x] != col[kind[x]].end()) == (pos[x] < n) && (it[x] == col[kind[x]].end()) == (pos[x] >= n), "an iterator is at the end exactly after the last component"); if (pos[x] >= n) continue;
        sx_check((*it[x]).get() == want[kind[x]][pos[x]].get(), "an iterator yields the component at its position");
        Iterator y(it[x]); sx_check(y == it[x] && !(y != it[x]), "a copy is at the same position"); ++y; sx_check((*it[x]).get() == want[kind[x]][pos[x]].get() && y != it[x], "moving a copy leaves the original alone");
      }
      if (kind[0] == kind[1]) { sx_check((it[0] == it[1]) == (pos[0] == pos[1]) && (it[0] != it[1]) == (pos[0] != pos[1]), "iterators of a collection are equal exactly at the same position"); REACH("compare"); }
    }
    sx_check(sx_live_heap() <= held, "iterators do not accumulate memory");
  }
  sx_check(sx_live_heap() <= live, "destroyed iterators leave no memory behind"); REACH("destroyed");
  return 0;
}
