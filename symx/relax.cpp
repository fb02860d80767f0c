// symx: floating-point constraints decided over the reals.
// Every operation that rounds becomes a real variable that lies within the rounding error of the exact result; unsatisfiability over
// the reals then implies unsatisfiability of the floating-point constraint.  A candidate from a real model, or from a few
// fixed points of the box, is only used when it satisfies the floating-point constraint exactly (evalExpr).
#include "relax.h"
#include <algorithm>
#include <cmath>
#include <cfloat>
#include <map>
#include <set>
#include <sys/wait.h>
#include <unistd.h>
#include <z3++.h>
namespace {
struct Iv { double lo, hi; };
static const double INF = INFINITY;
static double dn(double x) { return std::nextafter(x, -INF); }
static double up(double x) { return std::nextafter(x, INF); }
static Iv out(double a, double b) { return {dn(a), up(b)}; }
static double bitsToD(u128 c, unsigned w) { if (w == 32) { uint32_t u = (uint32_t)c; float f; memcpy(&f, &u, 4); return f; } uint64_t u = (uint64_t)c; double d; memcpy(&d, &u, 8); return d; }
static u128 dToBits(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t u; memcpy(&u, &d, 8); return u; }
static bool isFneg(E e) { return e->op == O_XOR && isC(e->k[1]) && e->k[1]->c == ((u128)1 << (e->w - 1)); }
static bool isFabs(E e) { return e->op == O_ZEXT && e->k[0]->op == O_EXTRACT && e->k[0]->c == 0 && e->k[0]->w == e->w - 1 && e->k[0]->k[0]->w == e->w; }
struct Relax {
  const std::vector<E> &slice; z3::context c; z3::solver s{c};
  std::vector<std::pair<E, bool>> atoms;                 // top-level conjuncts with polarity
  struct Node { bool ok = false; Iv iv{-INF, INF}; int z = -1; bool ext = false, whole = false; int nan = -1; };   // ext: may be infinite (then any real beyond the finite values stands for it) or, when the condition nan holds, not a number
  std::map<E, Node> nodes; std::vector<z3::expr> zs; std::vector<E> order, leaves; int fresh = 0; std::map<E, z3::expr> bools;
  Relax(const std::vector<E> &sl) : slice(sl) { for (E e : slice) flat(e, true); measure(); }
  void flat(E e, bool pos) {
    if (e->w == 1 && e->op == O_XOR && isC(e->k[1]) && e->k[1]->c == 1) return flat(e->k[0], !pos);
    if (e->w == 1 && e->op == (pos ? O_AND : O_OR)) { flat(e->k[0], pos); flat(e->k[1], pos); return; }
    if (e->w == 1 && e->op == O_ITE) { // and / or written as a choice
      if (pos && isFalse(e->k[2])) { flat(e->k[0], true); flat(e->k[1], true); return; } if (pos && isFalse(e->k[1])) { flat(e->k[0], false); flat(e->k[2], true); return; }
      if (!pos && isTrue(e->k[1])) { flat(e->k[0], false); flat(e->k[2], false); return; } if (!pos && isTrue(e->k[2])) { flat(e->k[0], true); flat(e->k[1], false); return; } }
    atoms.push_back({e, pos});
  }
  z3::expr real(double d) { // exact
    if (d == 0) return c.real_val(0);
    int ex; double m = std::frexp(d, &ex); int64_t n = (int64_t)std::ldexp(m, 53); ex -= 53; while (!(n & 1)) { n >>= 1; ex++; }
    z3::expr r = c.real_val(std::to_string(n).c_str()); if (ex == 0) return r; z3::expr p = c.real_val(1); z3::expr two = c.real_val(2);
    // power of two as a numeral
    std::string t = "1"; for (int i = 0; i < std::abs(ex); i++) { int cy = 0; for (int j = (int)t.size() - 1; j >= 0; j--) { int v = (t[j] - '0') * 2 + cy; t[j] = '0' + v % 10; cy = v / 10; } if (cy) t.insert(t.begin(), '1'); }
    if (ex > 0) return (r * c.real_val(t.c_str())).simplify(); return c.real_val((std::to_string(n) + "/" + t).c_str());
  }
  // bounds that the conjuncts put on the value of a node directly.  nan: no bound
  void bounds(E e, Iv &iv, bool &fin) {
    bool l = false, h = false, bitb = false;
    for (auto &[a, pos] : atoms) {
      if ((a->op == O_FLE || a->op == O_FLT) && pos) {
        bool strict = a->op == O_FLT; auto nx = [&](double d, double to) { return !strict || std::isinf(d) ? d : e->w == 32 ? (double)std::nextafterf((float)d, (float)to) : std::nextafter(d, to); };
        if (a->k[0] == e && isC(a->k[1])) { double d = bitsToD(a->k[1]->c, e->w); if (d == d) { d = nx(d, -INF); iv.hi = std::min(iv.hi, d); h = h || d < INF; } }
        if (a->k[1] == e && isC(a->k[0])) { double d = bitsToD(a->k[0]->c, e->w); if (d == d) { d = nx(d, INF); iv.lo = std::max(iv.lo, d); l = l || d > -INF; } }
      }
      if (a->op == O_FEQ && pos) for (int i = 0; i < 2; i++) if (a->k[i] == e && isC(a->k[1 - i])) { double d = bitsToD(a->k[1 - i]->c, e->w); if (d == d) { iv.lo = std::max(iv.lo, d); iv.hi = std::min(iv.hi, d); l = h = d > -INF && d < INF; } }
      // bit patterns: x <= C unsigned
      E x = nullptr; u128 C = 0; bool set = false;
      if ((a->op == O_ULE || a->op == O_ULT)) {
        if (pos && a->k[0] == e && isC(a->k[1])) { x = e; C = a->k[1]->c - (a->op == O_ULT && a->k[1]->c > 0); set = !(a->op == O_ULT && a->k[1]->c == 0); }
        if (!pos && a->k[1] == e && isC(a->k[0])) { x = e; C = a->k[0]->c - (a->op == O_ULE && a->k[0]->c > 0); set = !(a->op == O_ULE && a->k[0]->c == 0); }
      }
      u128 max = e->w == 32 ? 0x7f7fffffu : 0x7fefffffffffffffull;
      if (x && set && C <= max) { iv.lo = std::max(iv.lo, 0.0); iv.hi = std::min(iv.hi, bitsToD(C, e->w)); l = h = bitb = true; }
      if (a->op == O_EQ && pos) for (int i = 0; i < 2; i++) if (a->k[i] == e && isC(a->k[1 - i])) { double d = bitsToD(a->k[1 - i]->c, e->w); if (d == d && std::abs(d) < INF) { iv = {d, d}; l = h = true; } }
    }
    // lower bounds on the bit pattern of a value that is known to be positive
    if (bitb) for (auto &[a, pos] : atoms) if (a->op == O_ULE || a->op == O_ULT) {
      if (pos && a->k[1] == e && isC(a->k[0]) && a->k[0]->c <= (e->w == 32 ? 0x7f7fffffu : 0x7fefffffffffffffull)) iv.lo = std::max(iv.lo, bitsToD(a->k[0]->c, e->w));
      if (!pos && a->k[0] == e && isC(a->k[1]) && a->k[1]->c <= (e->w == 32 ? 0x7f7fffffu : 0x7fefffffffffffffull)) iv.lo = std::max(iv.lo, bitsToD(a->k[1]->c, e->w)); }
    fin = l && h;
  }
  static double maxOf(unsigned w) { return w == 32 ? (double)FLT_MAX : DBL_MAX; }
  z3::expr Z(const Node &n) { return zs[n.z]; }
  void put(Node &n, const z3::expr &e) { n.z = (int)zs.size(); zs.push_back(e); }
  z3::expr newReal(const char *p) { return c.real_const((std::string(p) + std::to_string(fresh++)).c_str()); }
  void limit(Node &n) { s.add(Z(n) >= real(n.iv.lo)); s.add(Z(n) <= real(n.iv.hi)); }
  // the value of a node; ok when it is finite
  const Node &node(E e) {
    auto it = nodes.find(e); if (it != nodes.end()) return it->second;
    Node n; unsigned w = e->w; Iv b{-INF, INF}; bool fin = false; bounds(e, b, fin);
    if (isC(e)) { double d = bitsToD(e->c, w); if (d == d && std::abs(d) < INF) { n.ok = true; n.iv = {d, d}; n.whole = d == std::floor(d) && std::abs(d) <= 0x1p53; put(n, real(d)); } return nodes[e] = n; }
    auto leaf = [&](Iv iv) { n.iv = {std::max(iv.lo, b.lo), std::min(iv.hi, b.hi)}; n.ok = std::abs(n.iv.lo) <= maxOf(w) && std::abs(n.iv.hi) <= maxOf(w); if (n.ok) { if (n.iv.lo > n.iv.hi) s.add(c.bool_val(false)); put(n, newReal("r")); limit(n); if (w == 32 && n.iv.hi == 1 && n.iv.lo < 1) s.add(Z(n) == 1 || Z(n) <= real(1 - std::ldexp(1.0, -24))); } if (e->op == O_VAR) leaves.push_back(e); };
    if (isFneg(e) && nodeOk(e->k[0])) { const Node &a = node(e->k[0]); n.ok = true; n.iv = {std::max(-a.iv.hi, b.lo), std::min(-a.iv.lo, b.hi)}; n.whole = a.whole; put(n, -Z(a)); return nodes[e] = n; }
    if (isFabs(e) && nodeOk(e->k[0]->k[0])) { const Node &a = node(e->k[0]->k[0]); z3::expr x = Z(a); n.ok = true; n.whole = a.whole; double m = std::max(std::abs(a.iv.lo), std::abs(a.iv.hi)); n.iv = {std::max(a.iv.lo > 0 ? a.iv.lo : a.iv.hi < 0 ? -a.iv.hi : 0.0, b.lo), std::min(m, b.hi)}; put(n, a.iv.lo >= 0 ? x : a.iv.hi <= 0 ? -x : z3::ite(x >= 0, x, -x)); return nodes[e] = n; }
    switch (e->op) {
    case O_ITE: { if (nodeExt(e->k[1]) && nodeExt(e->k[2]) && !(nodeOk(e->k[1]) && nodeOk(e->k[2]))) { const Node p = node(e->k[1]), q = node(e->k[2]); n.ok = n.ext = true; z3::expr g = B(e->k[0]); put(n, newReal("i")); s.add(Z(n) == z3::ite(g, Z(p), Z(q))); setNan(n, z3::ite(g, N(p), N(q))); return nodes[e] = n; }
      if (nodeOk(e->k[1]) && nodeOk(e->k[2])) { const Node p = node(e->k[1]), q = node(e->k[2]); n.ok = true; n.iv = {std::max(std::min(p.iv.lo, q.iv.lo), b.lo), std::min(std::max(p.iv.hi, q.iv.hi), b.hi)}; n.whole = p.whole && q.whole; put(n, newReal("i")); s.add(Z(n) == z3::ite(B(e->k[0]), Z(p), Z(q))); limit(n); } return nodes[e] = n; }
    case O_FEXT: { if (nodeOk(e->k[0])) { n = node(e->k[0]); n.iv = {std::max(n.iv.lo, b.lo), std::min(n.iv.hi, b.hi)}; } return nodes[e] = n; }
    case O_SI2F: case O_UI2F: { E k = e->k[0]; unsigned kw = k->w; bool uns = e->op == O_UI2F; if (k->op == O_ZEXT) { k = k->k[0]; kw = k->w; uns = true; } else if (k->op == O_SEXT && !uns) { k = k->k[0]; kw = k->w; }
      double m = std::ldexp(1.0, (int)std::min(kw - !uns, 200u)); Iv iv = uns ? Iv{0, m} : Iv{-m, m}; double rel = kw <= (w == 32 ? 24u : 53u) ? 0 : w == 32 ? 1e-6 : 1e-15;
      if (uns) for (auto &[a, pos] : atoms) if (a->op == O_ULE || a->op == O_ULT || a->op == O_EQ) for (int i = 0; i < 2; i++) { E x = a->k[i]; if (x->op == O_ZEXT) x = x->k[0]; if (x != k || !isC(a->k[1 - i])) continue; double C = (double)a->k[1 - i]->c, st = a->op == O_ULT;
        if (a->op == O_EQ) { if (!pos && C == 0) iv.lo = std::max(iv.lo, 1.0); if (pos) { iv.lo = std::max(iv.lo, C); iv.hi = std::min(iv.hi, C); } }
        else if ((i == 0) == pos) iv.hi = std::min(iv.hi, pos ? C - st : C - (1 - st)); else iv.lo = std::max(iv.lo, pos ? C + st : C + (1 - st)); }
      if (rel) iv = {iv.lo - std::abs(iv.lo) * rel - (iv.lo != 0), iv.hi + std::abs(iv.hi) * rel + 1}; leaf(iv); n.whole = std::abs(n.iv.lo) <= 0x1p53 && std::abs(n.iv.hi) <= 0x1p53; return nodes[e] = n; }
    case O_FTRUNC: if (nodeExt(e->k[0]) && !nodeOk(e->k[0])) { n = node(e->k[0]); z3::expr x = Z(n), v = newReal("v"); double eps = w == 32 ? std::ldexp(1.0, -24) : 0, eta = std::ldexp(1.0, -150); z3::expr a = z3::ite(x >= 0, x, -x); s.add(v - x <= a * real(eps) + real(eta)); s.add(x - v <= a * real(eps) + real(eta)); put(n, v); nodes[e] = n; trunc.push_back(e); return nodes[e]; } break;
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FMA: case O_FSQRT: case O_FRINT: break;
    default: if (fin) leaf({-INF, INF}); else if (e->op == O_VAR) leaves.push_back(e); return nodes[e] = n;
    }
    std::vector<Node> k; bool ok = true; for (int i = 0; i < e->nk; i++) { ok = ok && nodeOk(e->k[i]); k.push_back(node(e->k[i])); }
    if (!ok) { if (fin) leaf({-INF, INF}); return nodes[e] = n; }
    double eps = std::ldexp(1.0, w == 32 ? -24 : -53), eta = w == 32 ? std::ldexp(1.0, -150) : 0x1p-1074; Iv x{0, 0}; z3::expr ex = c.real_val(0);
    auto mul = [](Iv a, Iv b2) { double p[4] = {a.lo * b2.lo, a.lo * b2.hi, a.hi * b2.lo, a.hi * b2.hi}; return out(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); };
    bool div = false; z3::expr num = ex, den = ex;
    switch (e->op) {
    case O_FADD: x = out(k[0].iv.lo + k[1].iv.lo, k[0].iv.hi + k[1].iv.hi); ex = Z(k[0]) + Z(k[1]); eta = 0; break;
    case O_FSUB: x = out(k[0].iv.lo - k[1].iv.hi, k[0].iv.hi - k[1].iv.lo); ex = Z(k[0]) - Z(k[1]); eta = 0; break;
    case O_FMUL: x = mul(k[0].iv, k[1].iv); ex = Z(k[0]) * Z(k[1]); if (k[0].iv.lo >= 0 && k[1].iv.lo >= 0) x.lo = std::max(x.lo, 0.0); break;
    case O_FMA: { Iv m = mul(k[0].iv, k[1].iv); x = out(m.lo + k[2].iv.lo, m.hi + k[2].iv.hi); ex = Z(k[0]) * Z(k[1]) + Z(k[2]); break; }
    case O_FTRUNC: x = k[0].iv; ex = Z(k[0]); break;
    case O_FDIV: { if (k[1].iv.lo <= 0 && k[1].iv.hi >= 0) { // the divisor may be zero: the quotient is only known where it is not
        cur = e; n.ok = n.ext = true; z3::expr v = newReal("v"), a = Z(k[0]), d = Z(k[1]), z = c.real_val(0); put(n, v); setNan(n, a == z && d == z); z3::expr E1 = (c.real_val(1) + real(eps)).simplify(), E0 = (c.real_val(1) - real(eps)).simplify(), H = real(eta);
        if (k[0].iv.lo >= 0) nl(z3::implies(d > z, v * d <= a * E1 + H * d && v * d >= a * E0 - H * d));
        s.add(z3::implies(d > z && a <= d, v <= 1)); s.add(z3::implies(d > z && a >= d, v >= 1)); s.add(z3::implies(d > z && a >= -d, v >= -1)); s.add(z3::implies(d > z && a >= z, v >= z)); s.add(z3::implies(d > z && a <= z, v <= z)); return nodes[e] = n; }
      double p[4] = {k[0].iv.lo / k[1].iv.lo, k[0].iv.lo / k[1].iv.hi, k[0].iv.hi / k[1].iv.lo, k[0].iv.hi / k[1].iv.hi}; x = out(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); div = true; num = Z(k[0]); den = Z(k[1]);
      if (k[0].iv.lo >= 0 && k[1].iv.lo > 0) x.lo = std::max(x.lo, 0.0); break; }
    case O_FRINT: x = {std::floor(k[0].iv.lo), std::ceil(k[0].iv.hi)}; break;
    case O_FSQRT: if (k[0].iv.lo < 0) return nodes[e] = n; x = out(std::sqrt(k[0].iv.lo), std::sqrt(k[0].iv.hi)); x.lo = std::max(x.lo, 0.0); break;
    default: break;
    }
    // the rounded range: correctly rounded operations are monotone, so rounding the results at the end points is exact
    Iv r = x;
    { auto R1 = [&](double d) { return w == 32 ? (double)(float)d : d; }; std::vector<double> p; const Iv &A = k[0].iv, Bi = k.size() > 1 ? k[1].iv : Iv{0, 0};
      for (double u : {A.lo, A.hi}) { if (e->op == O_FTRUNC) p.push_back(R1(u)); else if (e->op == O_FSQRT) p.push_back(R1(std::sqrt(u))); else for (double t : {Bi.lo, Bi.hi}) switch (e->op) { case O_FADD: p.push_back(R1(u + t)); break; case O_FSUB: p.push_back(R1(u - t)); break; case O_FMUL: p.push_back(R1(u * t)); break; case O_FDIV: p.push_back(R1(u / t)); break; default: break; } }
      if (!p.empty()) r = {*std::min_element(p.begin(), p.end()), *std::max_element(p.begin(), p.end())};
      else if (e->op == O_FMA && w == 32) r = {std::nextafterf((float)x.lo, -INFINITY), std::nextafterf((float)x.hi, INFINITY)}; }
    n.iv = {std::max(r.lo, b.lo), std::min(r.hi, b.hi)};
    if (!(std::abs(r.lo) <= maxOf(w) && std::abs(r.hi) <= maxOf(w)) && !fin) return nodes[e] = n;
    cur = e; n.ok = true; put(n, newReal("v")); z3::expr v = Z(n); limit(n);
    z3::expr E1 = (c.real_val(1) + real(eps)).simplify(), E0 = (c.real_val(1) - real(eps)).simplify(), H = real(eta), zero = c.real_val(0);
    if (e->op == O_FRINT) { s.add(v >= Z(k[0]) - 1); s.add(v <= Z(k[0]) + 1); return nodes[e] = n; }
    if (e->op == O_FSQRT) { z3::expr q = newReal("q"); s.add(q >= 0); nl(q * q == Z(k[0])); s.add(v <= q * E1); s.add(v >= q * E0); return nodes[e] = n; }
    auto single = [&](E x) { return x->op == O_FEXT && x->k[0]->w == 32; };   // cases that are exact
    if (w == 64 && e->op == O_FMUL && single(e->k[0]) && single(e->k[1])) { nl(v == ex); }
    if (w == 64 && e->op == O_FSUB && k[0].iv.lo == 1 && k[0].iv.hi == 1 && single(e->k[1]) && k[1].iv.lo >= 0x1p-30 && k[1].iv.hi <= 2) { s.add(v == ex); order.push_back(e); return nodes[e] = n; }
    if ((e->op == O_FADD || e->op == O_FSUB) && k[0].whole && k[1].whole && x.lo >= -std::ldexp(1.0, w == 32 ? 24 : 53) && x.hi <= std::ldexp(1.0, w == 32 ? 24 : 53)) { nodes[e].whole = n.whole = true; s.add(v == ex); order.push_back(e); return nodes[e] = n; }
    if (e->op == O_FSUB) for (E o : order) if (o->op == O_FSUB && o->k[0] == e->k[1] && o->k[1] == e->k[0]) s.add(v == -Z(nodes[o]));
    bool lin = e->op != O_FMA && (e->op != O_FMUL || k[0].iv.lo == k[0].iv.hi || k[1].iv.lo == k[1].iv.hi); auto ad = [&](const z3::expr &x) { if (lin) s.add(x); else nl(x); };
    if (div) {
      if (k[1].iv.lo > 0 && k[0].iv.lo >= 0) { nl(v * den <= num * E1 + H * den); nl(v * den >= num * E0 - H * den); }
      else { z3::expr q = newReal("q"); nl(q * den == num); z3::expr a = z3::ite(q >= 0, q, -q); s.add(v - q <= a * real(eps) + H); s.add(q - v <= a * real(eps) + H); }
    } else if (x.lo >= 0) { ad(v <= ex * E1 + H); ad(v >= ex * E0 - H); }
    else if (x.hi <= 0) { ad(v >= ex * E1 - H); ad(v <= ex * E0 + H); }
    else { double m = std::max(std::abs(x.lo), std::abs(x.hi)); z3::expr a = z3::ite(ex >= 0, ex, -ex); ad(v - ex <= a * real(eps) + H); ad(ex - v <= a * real(eps) + H); ad(v - ex <= real(up(m * eps + eta))); ad(ex - v <= real(up(m * eps + eta))); }
    // rounding is monotone and exact on representable values: facts about the operands
    auto rep = [&](int i) { return true; }; (void)rep;
    if (e->op == O_FMUL) for (int i = 0; i < 2; i++) { const Node &a = k[i], &f = k[1 - i];
      if (a.iv.lo >= 0 && f.iv.lo >= 0 && f.iv.hi <= 1) s.add(v <= Z(a)); if (a.iv.lo >= 0 && f.iv.lo >= 1) s.add(v >= Z(a)); if (a.iv.lo >= 0 && f.iv.lo >= 0 && f.iv.hi > 1 && f.iv.lo < 1) { s.add(z3::implies(Z(f) <= 1, v <= Z(a))); s.add(z3::implies(Z(f) >= 1, v >= Z(a))); } }
    if (e->op == O_FMUL) for (int i = 0; i < 2; i++) if (k[i].iv.lo < 0 || k[1 - i].iv.lo < 0) { z3::expr A = Z(k[i]), F = Z(k[1 - i]); s.add(z3::implies(A >= 0 && F >= 0, v >= 0)); s.add(z3::implies(A >= 0 && F >= 0 && F <= 1, v <= A)); s.add(z3::implies(A >= 0 && F >= 1, v >= A)); }
    if (e->op == O_FMUL) { s.add(z3::implies(Z(k[0]) == zero || Z(k[1]) == zero, v == zero)); for (int i = 0; i < 2; i++) s.add(z3::implies(Z(k[i]) == c.real_val(1), v == Z(k[1 - i]))); }
    if (e->op == O_FADD || e->op == O_FSUB) s.add(z3::implies(Z(k[1]) == zero, v == Z(k[0])));
    if (e->op == O_FADD) for (int i = 0; i < 2; i++) { if (k[1 - i].iv.lo >= 0) s.add(v >= Z(k[i])); if (k[1 - i].iv.hi <= 0) s.add(v <= Z(k[i])); }
    if (e->op == O_FSUB) { if (k[1].iv.lo >= 0) s.add(v <= Z(k[0])); if (k[1].iv.hi <= 0) s.add(v >= Z(k[0])); s.add(z3::implies(Z(k[0]) >= Z(k[1]), v >= 0)); s.add(z3::implies(Z(k[0]) <= Z(k[1]), v <= 0)); }
    if (e->op == O_FDIV && k[1].iv.lo > 0) { s.add(z3::implies(num <= den, v <= 1)); s.add(z3::implies(num >= den, v >= 1)); if (k[0].iv.lo >= 0) { if (k[1].iv.lo >= 1) s.add(v <= num); if (k[1].iv.hi <= 1) s.add(v >= num); } }
    if (e->op == O_FTRUNC) trunc.push_back(e);
    // monotone in one operand when the other is the same
    for (E o : order) if (o->op == e->op && o->w == w && (e->op == O_FMUL || e->op == O_FDIV || e->op == O_FADD || e->op == O_FSUB)) {
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
        if ((e->op == O_FDIV || e->op == O_FSUB) && i != j) continue;
        if (o->k[1 - i] != e->k[1 - j]) continue; const Node f = node(e->k[1 - j]), &p = nodes[o], a = node(o->k[i]); z3::expr A = Z(a), Bv = Z(k[j]), P = Z(p);
        bool inc, dec = false; if (e->op == O_FADD) inc = true; else if (e->op == O_FSUB) { inc = i == 0; dec = !inc; } else if (e->op == O_FMUL) { inc = f.iv.lo >= 0; dec = !inc && f.iv.hi <= 0; } else if (i == 0) { inc = f.iv.lo > 0; dec = !inc; } else { inc = false; dec = f.iv.lo >= 0 && a.iv.lo > 0 && k[j].iv.lo > 0; }
        if (inc) { s.add(z3::implies(A <= Bv, P <= v)); s.add(z3::implies(A >= Bv, P >= v)); } if (dec) { s.add(z3::implies(A <= Bv, P >= v)); s.add(z3::implies(A >= Bv, P <= v)); } } }
    order.push_back(e); return nodes[e] = n;
  }
  std::vector<E> trunc;
  std::vector<std::pair<int, z3::expr>> hard; std::map<E, int> dist; E cur = nullptr;   // facts with products, with the distance of their operation from the question
  void nl(const z3::expr &e) { auto it = dist.find(cur); hard.push_back({it == dist.end() ? 99 : it->second, e}); }
  void measure() { std::vector<E> q; for (auto &[a, pos] : atoms) { bool plain = true; for (int i = 0; i < a->nk; i++) plain = plain && (isC(a->k[i]) || a->k[i]->op == O_VAR || a->k[i]->op == O_FEXT); if (!plain && dist.emplace(a, 0).second) q.push_back(a); } for (size_t i = 0; i < q.size(); i++) { int d = dist[q[i]] + (q[i]->w > 1 && q[i]->op != O_FEXT && q[i]->op != O_FTRUNC); for (int j = 0; j < q[i]->nk; j++) if (dist.emplace(q[i]->k[j], d).second) q.push_back(q[i]->k[j]); } }
  bool nodeOk(E e) { auto &n = node(e); return n.ok && !n.ext; }
  bool nodeExt(E e) { return node(e).ok; }
  z3::expr N(const Node &n) { return n.nan < 0 ? c.bool_val(false) : zs[n.nan]; }
  void setNan(Node &n, const z3::expr &e) { n.nan = (int)zs.size(); zs.push_back(e); }
  bool cmpOk(E e) { return nodeExt(e->k[0]) && nodeExt(e->k[1]) && (nodeOk(e->k[0]) || nodeOk(e->k[1])); }
  z3::expr num2(E e) { return !N(node(e->k[0])) && !N(node(e->k[1])); }
  z3::expr freshBool() { return c.bool_const(("b" + std::to_string(fresh++)).c_str()); }
  z3::expr B(E e) {
    auto it = bools.find(e); if (it != bools.end()) return it->second;
    z3::expr r = B0(e); bools.emplace(e, r); return r;
  }
  z3::expr B0(E e) {
    if (isC(e)) return c.bool_val((bool)(e->c & 1));
    if (e->w == 1) switch (e->op) {
    case O_AND: return B(e->k[0]) && B(e->k[1]); case O_OR: return B(e->k[0]) || B(e->k[1]); case O_XOR: return B(e->k[0]) != B(e->k[1]);
    case O_ITE: return z3::ite(B(e->k[0]), B(e->k[1]), B(e->k[2]));
    case O_EQ: if (e->k[0]->w == 1) return B(e->k[0]) == B(e->k[1]); break;
    case O_FEQ: if (cmpOk(e)) return Z(node(e->k[0])) == Z(node(e->k[1])) && num2(e); break;
    case O_FLT: if (cmpOk(e)) return Z(node(e->k[0])) < Z(node(e->k[1])) && num2(e); break;
    case O_FLE: if (cmpOk(e)) return Z(node(e->k[0])) <= Z(node(e->k[1])) && num2(e); break;
    case O_FISNAN: if (nodeExt(e->k[0])) return N(node(e->k[0])); break;
    default: break; }
    return freshBool();
  }
  void finish() {
    // a value rounded to single precision keeps its order to every single-precision value
    std::vector<E> f32; for (auto &[e, n] : nodes) if (n.ok && !n.ext && e->w == 32 && (e->op == O_VAR || isC(e) || f32.size() < 12)) f32.push_back(e);
    for (E t : trunc) { const Node x = nodes[t->k[0]], v = nodes[t]; for (E f : f32) if (f != t) { z3::expr F = Z(nodes[f]); s.add(z3::implies(Z(x) <= F, Z(v) <= F)); s.add(z3::implies(Z(x) >= F, Z(v) >= F)); }
      for (E u : trunc) if (u != t && u->w == t->w) s.add(z3::implies(Z(nodes[u->k[0]]) <= Z(x), Z(nodes[u]) <= Z(v))); }
  }
};
}
static bool holds(const std::vector<E> &slice, const Model &m) { for (E e : slice) if (!evalExpr(e, m)) return false; return true; }
// the point of a real model, when it satisfies the floating-point constraint as well
static bool candidate(Relax &R, const std::vector<E> &slice, const std::vector<E> &lv, const std::string &point, Model *out) {
  Model q; const char *p = point.c_str();
  for (E e : lv) { char *end; double d = strtod(p, &end); p = end; while (*p && *p != ' ') p++; auto &n = R.nodes[e]; if (n.ok) d = std::min(std::max(d, n.iv.lo), n.iv.hi); q.v[(int)e->c] = dToBits(d, e->w); }
  if (!holds(slice, q)) return false; if (out) for (auto &kv : q.v) out->v[kv.first] = kv.second; return true;
}
Res relaxFp(const std::vector<E> &slice, const std::vector<int> &vars, Model *out, int ms, bool &proved) {
  Relax R(slice); proved = false;
  for (auto &[e, pos] : R.atoms) { z3::expr b = R.B(e); R.s.add(pos ? b : !b); }
  R.finish();
  // a few points of the box
  std::vector<E> lv; for (E e : R.leaves) if (std::find(lv.begin(), lv.end(), e) == lv.end()) lv.push_back(e);
  std::set<int> have; for (E e : lv) have.insert((int)e->c); bool all = !lv.empty(); for (int v : vars) if (!have.count(v)) all = false;
  Model m; uint64_t rng = 88172645463325252ull; auto rnd = [&] { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
  if (all && !getenv("SYMX_NOSAMPLE")) for (int t = 0; t < 3000; t++) {
    for (E e : lv) { Iv iv = R.nodes[e].ok ? R.nodes[e].iv : Iv{-1e3, 1e3}; double u = (rnd() >> 11) * 0x1p-53, d; switch (rnd() % 8) { case 0: d = iv.lo; break; case 1: d = iv.hi; break; case 2: d = iv.lo + (iv.hi - iv.lo) * 0.5; break; case 3: d = iv.hi - (iv.hi - iv.lo) * std::ldexp(u, -(int)(rnd() % 24)); break; case 4: d = iv.lo + (iv.hi - iv.lo) * std::ldexp(u, -(int)(rnd() % 24)); break; default: d = iv.lo + (iv.hi - iv.lo) * u; } m.v[(int)e->c] = dToBits(d, e->w); }
    if (holds(slice, m)) { if (out) for (auto &kv : m.v) out->v[kv.first] = kv.second; return R_SAT; }
  }
  if (getenv("SYMX_RELAX")) fprintf(stderr, "%s\n", R.s.to_smt2().c_str());
  // The facts without products decide most questions, and they are fewer, so unsatisfiable stays unsatisfiable; then the operations
  // nearest to the question.  The solver runs in a child because it does not always keep its time limit.
  std::string point; z3::check_result cr = z3::unknown; int stage = -1;
  for (int d = 0; d <= 5 && cr != z3::unsat; d++) {
    int lim = d == 5 ? 99 : d; size_t nh = 0; for (auto &[k, h] : R.hard) nh += k <= lim; if (d && d < 5 && nh == R.hard.size()) continue; if (d && !R.hard.size()) break;
    int t = d == 0 ? 3000 : d < 5 ? std::min(ms, 2500) : ms, fd[2]; if (pipe(fd)) break; fflush(nullptr); pid_t pid = fork();
    if (pid < 0) { close(fd[0]); close(fd[1]); break; }
    if (!pid) {
      close(fd[0]); std::string r = "?"; alarm(t / 1000 + 2);
      try { z3::params p(R.c); p.set("timeout", (unsigned)t); R.s.set(p); for (auto &[k, h] : R.hard) if (d && k <= lim) R.s.add(h); z3::check_result q = R.s.check(); r = q == z3::unsat ? "u" : q == z3::sat ? "s" : "?";
        if (q == z3::sat) { z3::model zm = R.s.get_model(); for (E e : lv) { auto &n = R.nodes[e]; std::string v = "0"; if (n.ok) { z3::expr x = zm.eval(R.Z(n), true); v = Z3_get_numeral_decimal_string(R.c, x, 20); } r += v + " "; } } } catch (z3::exception &) {}
      (void)!write(fd[1], r.data(), r.size()); _exit(0);
    }
    close(fd[1]); std::string r; char buf[4096]; ssize_t k; while ((k = read(fd[0], buf, sizeof buf)) > 0) r.append(buf, k); close(fd[0]); int st; waitpid(pid, &st, 0);
    cr = r[0] == 'u' ? z3::unsat : r[0] == 's' ? z3::sat : z3::unknown; point = r[0] == 's' ? r.substr(1) : ""; stage = d;
    if (cr == z3::sat && all && candidate(R, slice, lv, point, out)) return R_SAT;
  }
  if (getenv("SYMX_DBG")) { fprintf(stderr, "relax: %d at %d (%zu nodes)\n", (int)cr, stage, R.order.size()); for (auto &[e, n] : R.nodes) fprintf(stderr, "   %s ok=%d [%g, %g]\n", exprStr(e, 4).c_str(), n.ok, n.iv.lo, n.iv.hi); }
  if (cr == z3::unsat) { proved = true; return R_UNSAT; }
  return R_UNKNOWN;
}
