// Variable index records: ranks, composition, editing and copies.
#include "hx.h"
using namespace INDEXVAR;
typedef std::vector<int> VI;
static int sym(const char *id) { return (int)sx_sym(THOROUGH ? 16 : 8, id); }
static VI rank(const VI &v) { VI r; for (size_t i = 0; i < v.size(); i++) { int k = 0; for (size_t j = 0; j < v.size(); j++) { bool first = true; for (size_t l = 0; l < j; l++) if (v[l] == v[j]) first = false; if (first && v[j] < v[i]) k++; } r.push_back(k); } return r; }
static VI values(IndexVar &x) { VI v; for (auto &p : x.indices) v.push_back(*p); return v; }
static void agree(IndexVar &x, const VI &v, const std::vector<VI> &pos) {
  sx_check(values(x) == v, "a record lists the indices of its parts in order");
  sx_check(x.positions == pos, "a record lists the positions of its parts in order");
  sx_check(*x.indices_normalized() == rank(v), "normalising numbers the distinct indices from zero by size");
}
extern "C" int sx_main() {
#if MODE == 0      // normalisation and hashes of two lists
  int n = sx_choose(THOROUGH ? 5 : 4, "n"), m = sx_choose(THOROUGH ? 5 : 4, "m"); VI a, b; for (int i = 0; i < n; i++) a.push_back(sym("a")); for (int i = 0; i < m; i++) b.push_back(sym("b"));
  auto mk = [](const VI &v) { auto p = IndexVar::create(); for (int i : v) { auto q = IndexVar::create(); q->add(i, {}); IndexVar::connect(p, q, true); } return p; };
  auto x = mk(a), y = mk(b); agree(*x, a, x->positions); agree(*y, b, y->positions);
  VI ra = rank(a), rb = rank(b);
  sx_check((*x == y.get()) == (ra == rb), "two records are equal exactly when they name variables alike");
  sx_check(UTILS::hash(*x) == UTILS::hash(*x), "a hash does not change by itself");
  auto c = IndexVar::clone(x); agree(*c, a, x->positions); sx_check(*c == x.get(), "a copy is equal to its original");
  for (auto &p : c->indices) *p = 1000; c->_indices_normalized = nullptr; agree(*x, a, x->positions);
  REACH("lists");
#elif MODE == 1    // a record over parts: composition, and editing followed by a rebuild
  int sh = sx_choose(THOROUGH ? 6 : 4, "shape"); static const VI SH[6] = {{1, 1}, {0, 1, 1}, {2, 1}, {1, 2}, {1, 1, 1}, {2, 2}};   // number of leaves under each part; 0: the part is empty
  auto root = IndexVar::create(); VI all; std::vector<VI> pos; std::vector<pIndexVar> parts; std::vector<std::vector<pIndexVar>> leaves; bool gen = sx_choose(2, "positions while connecting");
  std::vector<VI> val;
  for (size_t i = 0; i < SH[sh].size(); i++) {
    auto p = IndexVar::create(); leaves.push_back({}); val.push_back({});
    for (int j = 0; j < SH[sh][i]; j++) { auto l = IndexVar::create(); int v = sym("v"); l->add(v, {}); IndexVar::connect(p, l, gen); leaves.back().push_back(l); val.back().push_back(v); all.push_back(v); pos.push_back({(int)i, j}); }
    if (!gen) p->build(); parts.push_back(p); IndexVar::connect(root, p, gen);
  }
  if (!gen) root->build(); agree(*root, all, pos);
  sx_check(root->successors.size() == parts.size(), "a record knows its parts"); for (auto &p : parts) sx_check(p->predecessor.lock() == root, "a part knows the record it belongs to");
  root->build(); agree(*root, all, pos); root->rebuild(); agree(*root, all, pos);
  UTILS::hash(*root); for (auto &l : leaves) for (auto &x : l) UTILS::hash(*x);
  auto lone = [](IndexVar &x, int v) { auto f = IndexVar::create(); if (v >= 0) f->add(v, {}); sx_check(values(x) == (v >= 0 ? VI{v} : VI{}), "an edited place holds the variable put there"); sx_check(x == f.get(), "an edited place hashes as what it holds"); };
  // editing
  for (int e = 0; e < (THOROUGH ? 2 : 1); e++) {
    int op = sx_choose(3, "edit"), i = sx_choose(2, "part"), j = 0; if (SH[sh][i] == 0) i = 1; if (SH[sh][i] == 2) j = sx_choose(2, "leaf");
    if (op == 0) { root->remove({i, j}); val[i][j] = -1; }                                                   // a variable goes
    else if (op == 1) { int v = sym("w"); root->remove({i, j}); root->add(v, {i, j}); val[i][j] = v; }          // a variable is replaced
    else { int v = sym("w"); *leaves[i][j]->indices.at(0) = v; val[i][j] = v; if (val[i][j] == -1) return 0; } // a variable is renamed in place
    if (op < 2) lone(*leaves[i][j], val[i][j]);
    root->rebuild(); all.clear(); pos.clear(); for (int a = 0; a < (int)val.size(); a++) for (int b = 0; b < (int)val[a].size(); b++) if (val[a][b] >= 0) { all.push_back(val[a][b]); pos.push_back({a, b}); }
    agree(*root, all, pos);
    if (op == 0) break;
  }
  auto c = IndexVar::clone(root); agree(*c, all, pos); for (auto &p : c->indices) *p = 7; agree(*root, all, pos);
  auto d = IndexVar::create(); for (int v : all) { auto l = IndexVar::create(); l->add(v, {}); IndexVar::connect(d, l, true); } sx_check(*root == d.get(), "records of the same variables are equal whatever their parts");
  REACH("edited");
#elif MODE == 2    // long lists: two arbitrary (one) indices among many different ones
  int n = 3 + 3 * sx_choose(THOROUGH ? 8 : 5, "n"); VI a; for (int i = 0; i < n; i++) a.push_back(10 + 10 * ((i * 7) % n)); int at = sx_choose(3, "at") * (n - 1) / 2, to = (at + 1 + n / 3) % n; a[at] = sym("v"); if (n < 6) a[to] = sym("w");
  auto x = IndexVar::create(); auto y = IndexVar::create(); for (size_t i = 0; i < a.size(); i++) { auto l = IndexVar::create(); l->add(a[i], {}); IndexVar::connect(i % 2 ? x : y, l, true); }
  auto z = IndexVar::create(); IndexVar::connect(z, x, true); IndexVar::connect(z, y, true); VI b; for (int i = 1; i < n; i += 2) b.push_back(a[i]); int m = (int)b.size(); for (int i = 0; i < n; i += 2) b.push_back(a[i]);
  std::vector<VI> pos; for (int i = 0; i < n; i++) pos.push_back({i < m ? 0 : 1, i < m ? i : i - m}); agree(*z, b, pos); z->rebuild(); agree(*z, b, pos); auto c = IndexVar::clone(z); agree(*c, b, pos); sx_check(*c == z.get(), "a copy is equal to its original");
  REACH("long");
#endif
  return 0;
}
