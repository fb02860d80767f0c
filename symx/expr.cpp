#include "expr.h"
#include <algorithm>
#include <cmath>
#include <deque>
#include <unordered_set>

static std::deque<Expr> arena;
struct Hx { size_t operator()(E e) const { return e->h; } };
struct Eqx {
  bool operator()(E a, E b) const {
    return a->op == b->op && a->w == b->w && a->c == b->c && a->nk == b->nk &&
           a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2];
  }
};
static std::unordered_set<E, Hx, Eqx> table;
size_t exprCount() { return arena.size(); }

static E intern(Op op, unsigned w, u128 c, E a = nullptr, E b = nullptr, E d = nullptr, int fl = 0) {
  Expr t; t.op = op; t.w = w; t.c = c; t.k[0] = a; t.k[1] = b; t.k[2] = d;
  t.nk = a ? (b ? (d ? 3 : 2) : 1) : 0;
  uint64_t h = op * 0x9E3779B97F4A7C15ull + w * 0xff51afd7ed558ccdull + (uint64_t)c * 0xc4ceb9fe1a85ec53ull + (uint64_t)(c >> 64);
  for (int i = 0; i < t.nk; i++) { h ^= t.k[i]->id + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; }
  t.h = h;
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  t.fl = fl;
  for (int i = 0; i < t.nk; i++) t.fl |= t.k[i]->fl;
  if (op >= O_FADD) t.fl |= F_FP;
  t.id = arena.size();
  arena.push_back(t);
  E r = &arena.back();
  table.insert(r);
  return r;
}
E mkConst(u128 v, unsigned w) { return intern(O_CONST, w, v & maskw(w)); }
E mkVar(int id, unsigned w, int flags) { return intern(O_VAR, w, id, nullptr, nullptr, nullptr, flags); }
E mkNot(E a) {
  if (isC(a)) return mkConst(!a->c, 1);
  if (a->op == O_XOR && isC(a->k[1])) return a->k[0];
  if (a->op == O_ULT) return mk2(O_ULE, a->k[1], a->k[0]);
  if (a->op == O_ULE) return mk2(O_ULT, a->k[1], a->k[0]);
  if (a->op == O_SLT) return mk2(O_SLE, a->k[1], a->k[0]);
  if (a->op == O_SLE) return mk2(O_SLT, a->k[1], a->k[0]);
  return intern(O_XOR, 1, 0, a, mkConst(1, 1));
}

// ---------- floating point on bit patterns (host arithmetic, round to nearest even) ----------
static float f32(u128 v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static double f64(u128 v) { uint64_t x = (uint64_t)v; double f; memcpy(&f, &x, 8); return f; }
static u128 b32(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static u128 b64(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }
template <class T> static u128 bits(T f) { if constexpr (sizeof(T) == 4) return b32(f); else return b64(f); }
template <class T> static T fromb(u128 v) { if constexpr (sizeof(T) == 4) return f32(v); else return f64(v); }

template <class T> static u128 ffold(Op op, u128 a, u128 b, u128 d, u128 c) {
  volatile T x = fromb<T>(a), y = fromb<T>(b), z;
  switch (op) {
  case O_FADD: z = x + y; return bits<T>(z);
  case O_FSUB: z = x - y; return bits<T>(z);
  case O_FMUL: z = x * y; return bits<T>(z);
  case O_FDIV: z = x / y; return bits<T>(z);
  case O_FSQRT: z = std::sqrt((T)x); return bits<T>(z);
  case O_FMA: z = std::fma((T)x, (T)y, fromb<T>(d)); return bits<T>(z);
  case O_FRINT:
    switch ((int)c) { case 0: z = std::nearbyint((T)x); break; case 1: z = std::ceil((T)x); break; case 2: z = std::floor((T)x); break; case 3: z = std::trunc((T)x); break; default: z = std::round((T)x); }
    return bits<T>(z);
  case O_FEQ: return x == y; case O_FLT: return x < y; case O_FLE: return x <= y;
  case O_FISNAN: return x != x;
  default: abort();
  }
}
u128 foldOp(Op op, unsigned w, unsigned kw, u128 a, u128 b, u128 d, u128 c) {
  u128 m = maskw(w);
  switch (op) {
  case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
  case O_UDIV: return b ? a / b : m; case O_UREM: return b ? a % b : a;
  case O_SDIV: { i128 x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
  case O_SREM: { i128 x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
  case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
  case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
  case O_LSHR: return b >= w ? 0 : a >> (unsigned)b;
  case O_ASHR: { i128 x = sextw(a, w); return (u128)(b >= w ? (x < 0 ? -1 : 0) : x >> (unsigned)b) & m; }
  case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
  case O_SLT: return sextw(a, kw) < sextw(b, kw); case O_SLE: return sextw(a, kw) <= sextw(b, kw);
  case O_ITE: return a ? b : d;
  case O_EXTRACT: return (a >> (unsigned)c) & m;
  case O_ZEXT: return a; case O_SEXT: return (u128)sextw(a, kw) & m;
  case O_FEXT: return b64((double)f32(a)); case O_FTRUNC: return b32((float)f64(a));
  case O_F2SI: { double x = kw == 32 ? f32(a) : f64(a); double t = std::trunc(x);
      double lim = std::ldexp(1.0, w - 1); if (!(t >= -lim && t < lim)) return ((u128)1 << (w - 1)) & m; return (u128)(i128)t & m; }
  case O_F2UI: { double x = kw == 32 ? f32(a) : f64(a); double t = std::trunc(x);
      double lim = std::ldexp(1.0, w); if (!(t >= 0 && t < lim)) return 0; return (u128)t & m; }
  case O_SI2F: { int64_t x = (int64_t)sextw(a, kw); return w == 32 ? b32((float)x) : b64((double)x); }
  case O_UI2F: { uint64_t x = (uint64_t)a; return w == 32 ? b32((float)x) : b64((double)x); }
  default: break;
  }
  return kw == 32 ? ffold<float>(op, a, b, d, c) : ffold<double>(op, a, b, d, c);
}


// ---------- comparisons of a monotone floating-point function of one integer with a constant ----------
// f(n) = op_k(...op_1(int2fp(n))) where every op is monotone (correctly rounded operations with one constant operand are):
// f(n) < c becomes n < threshold, the threshold found by evaluating f itself, so it is exact.
struct Chain { E n = nullptr; bool sg = false, anti = false; std::vector<E> ops; };
static bool chain(E e, Chain &c) {
  for (int i = 0; i < 24; i++) {
    switch (e->op) {
    case O_UI2F: case O_SI2F: {
      E n = e->k[0]; bool sg = e->op == O_SI2F; c.ops.push_back(e);
      if (n->w > 64 || (e->fl & 0)) return false;
      c.n = n; c.sg = sg; return true; }
    case O_FEXT: case O_FTRUNC: case O_FRINT: c.ops.push_back(e); e = e->k[0]; break;
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: {
      bool c0 = isC(e->k[0]), c1 = isC(e->k[1]); if (c0 == c1) return false;
      u128 kc = c0 ? e->k[0]->c : e->k[1]->c; double v = e->w == 32 ? f32(kc) : f64(kc);
      if (!(std::fabs(v) < INFINITY)) return false;
      if (e->op == O_FMUL) { if (v == 0) return false; if (v < 0) c.anti = !c.anti; }
      if (e->op == O_FDIV) { if (c0 || v == 0) return false; if (v < 0) c.anti = !c.anti; }
      if (e->op == O_FSUB && c0) c.anti = !c.anti;
      c.ops.push_back(e); e = c0 ? e->k[1] : e->k[0]; break; }
    case O_XOR: { if (!isC(e->k[1]) || e->k[1]->c != ((u128)1 << (e->w - 1)) || (e->w != 32 && e->w != 64)) return false; c.anti = !c.anti; c.ops.push_back(e); e = e->k[0]; break; }
    default: return false;
    }
  }
  return false;
}
static u128 chainEval(const Chain &c, u128 n) {
  u128 v = n;
  for (size_t i = c.ops.size(); i-- > 0;) {
    E e = c.ops[i]; E a = e->k[0], b = e->k[1];
    if (e->nk == 1) v = foldOp(e->op, e->w, a->w, v, 0, 0, e->c);
    else if (isC(a)) v = foldOp(e->op, e->w, a->w, a->c, v, 0, e->c);
    else v = foldOp(e->op, e->w, a->w, v, b->c, 0, e->c);
  }
  return v;
}
static double chainD(E e, u128 v) { return e->w == 32 ? f32(v) : f64(v); }
// e OP k (swap: k OP e); null if the rewrite does not apply
static E chainCmp(Op op, E e, E k, bool swap) {
  if (!(e->fl & F_FP)) return nullptr;
  Chain c; double kv = chainD(k, k->c);
  if (kv != kv) return mkConst(0, 1);
  if (!chain(e, c)) return nullptr;
  unsigned w = c.n->w; i128 lo, hi;
  E n = c.n; unsigned rw = w; while (n->op == O_ZEXT) { n = n->k[0]; } rw = n->w;
  if (rw < w || !c.sg) { lo = 0; hi = (i128)maskw(rw < w ? rw : w); if (rw == w && c.sg) lo = 0; } else { lo = -((i128)1 << (w - 1)); hi = ((i128)1 << (w - 1)) - 1; }
  bool sg = lo < 0;
  double a = chainD(e, chainEval(c, (u128)lo & maskw(w))), b = chainD(e, chainEval(c, (u128)hi & maskw(w)));
  if (!(std::fabs(a) < INFINITY) || !(std::fabs(b) < INFINITY)) return nullptr;   // no overflow anywhere: monotone, no NaN
  auto f = [&](i128 x) { double v = chainD(e, chainEval(c, (u128)x & maskw(w))); return c.anti ? -v : v; };
  double t = c.anti ? -kv : kv; 
  // first x in [lo, hi+1] with f(x) >= t  /  f(x) > t
  auto first = [&](bool strict) { i128 l = lo, h = hi + 1; while (l < h) { i128 m = l + (h - l) / 2; double v = f(m); if (strict ? v > t : v >= t) h = m; else l = m + 1; } return l; };
  E N = rw < w ? n : c.n; unsigned nw = N->w;
  auto below = [&](i128 x) -> E { if (x > hi) return mkConst(1, 1); if (x <= lo) return mkConst(0, 1); return mk2(sg ? O_SLT : O_ULT, N, mkConst((u128)x, nw)); };   // n < x
  if (op == O_FEQ) { i128 x = first(false), y = first(true); return mk2(O_AND, mkNot(below(x)), below(y)); }
  bool less = !swap; if (c.anti) less = !less;   // on the increasing function: f < t (or <=) / f > t (or >=)
  bool strict = op == O_FLT;
  if (less) return below(first(!strict));        // f < t: n < first(f >= t);  f <= t: n < first(f > t)
  return mkNot(below(first(strict)));            // f > t: n >= first(f > t);  f >= t: n >= first(f >= t)
}
// a OP b where both are monotone functions of the same integer, in opposite directions
static E chainCmp2(Op op, E a, E b) {
  if (op == O_FEQ || !(a->fl & F_FP) || !(b->fl & F_FP)) return nullptr;
  Chain c, d; if (!chain(a, c) || !chain(b, d) || c.n != d.n || c.sg != d.sg || c.anti == d.anti) return nullptr;
  unsigned w = c.n->w; E n = c.n; while (n->op == O_ZEXT) n = n->k[0];
  i128 lo, hi; if (n->w < w || !c.sg) { lo = 0; hi = (i128)maskw(n->w < w ? n->w : w); } else { lo = -((i128)1 << (w - 1)); hi = ((i128)1 << (w - 1)) - 1; }
  E N = n->w < w ? n : c.n; bool sg = lo < 0;
  for (i128 x : {lo, hi}) if (!(std::fabs(chainD(a, chainEval(c, (u128)x & maskw(w)))) < INFINITY) || !(std::fabs(chainD(b, chainEval(d, (u128)x & maskw(w)))) < INFINITY)) return nullptr;
  auto pr = [&](i128 x) { double u = chainD(a, chainEval(c, (u128)x & maskw(w))), v = chainD(b, chainEval(d, (u128)x & maskw(w))); return op == O_FLT ? u < v : u <= v; };
  bool falling = !c.anti;                        // a rises, b falls: true, then false
  i128 l = lo, h = hi + 1; while (l < h) { i128 m = l + (h - l) / 2; if (pr(m) == falling) l = m + 1; else h = m; }
  E below = l > hi ? mkConst(1, 1) : l <= lo ? mkConst(0, 1) : mk2(sg ? O_SLT : O_ULT, N, mkConst((u128)l, N->w));
  return falling ? below : mkNot(below);
}
static bool chainFinite(E e) {
  Chain c; if (!(e->fl & F_FP) || !chain(e, c)) return false;
  E z = mkConst(0, e->w); Chain d; return chainCmp(O_FLT, e, z, false) != nullptr;
}

E mk1(Op op, unsigned w, E a, u128 c) {
  if (op == O_FISNAN && !isC(a) && chainFinite(a)) return mkConst(0, 1);
  if (op == O_FTRUNC && a->op == O_FEXT && a->k[0]->w == w) return a->k[0];   // exact (LLVM folds it alike)
  if ((op == O_FISNAN || op == O_FEXT || op == O_FTRUNC || op == O_FRINT || op == O_F2SI || op == O_F2UI) && a->op == O_ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mk1(op, w, a->k[1], c), mk1(op, w, a->k[2], c));
  if (isC(a)) return mkConst(foldOp(op, w, a->w, a->c, 0, 0, c), w);
  return intern(op, w, c, a);
}
E mkFma(E a, E b, E c) {
  if (isC(a) && isC(b) && isC(c)) return mkConst(foldOp(O_FMA, a->w, a->w, a->c, b->c, c->c, 0), a->w);
  return intern(O_FMA, a->w, 0, a, b, c);
}
E mkZExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(a->c, w);
  if (a->op == O_ZEXT) return mkZExt(a->k[0], w);
  return intern(O_ZEXT, w, 0, a);
}
E mkSExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst((u128)sextw(a->c, a->w), w);
  if (a->op == O_ZEXT) return mkZExt(a->k[0], w);
  if (a->op == O_SEXT) return mkSExt(a->k[0], w);
  return intern(O_SEXT, w, 0, a);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->op) {
  case O_CONST: return mkConst(a->c >> lo, w);
  case O_EXTRACT: return mkExtract(a->k[0], lo + (unsigned)a->c, w);
  case O_ZEXT: {
    unsigned iw = a->k[0]->w;
    if (lo >= iw) return mkConst(0, w);
    if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
    return mkZExt(mkExtract(a->k[0], lo, iw - lo), w);
  }
  case O_SEXT: if (lo + w <= a->k[0]->w) return mkExtract(a->k[0], lo, w); break;
  case O_CONCAT: {
    unsigned lw = a->k[1]->w;
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
    return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
  }
  case O_ITE: if (isC(a->k[1]) || isC(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w)); break;
  case O_AND: case O_OR: case O_XOR: return mk2(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
  case O_SHL: if (isC(a->k[1])) { unsigned s = (unsigned)a->k[1]->c; if (lo >= s && s < a->w) return mkExtract(a->k[0], lo - s, w); if (lo + w <= s) return mkConst(0, w); } break;
  case O_LSHR: if (isC(a->k[1])) { unsigned s = (unsigned)a->k[1]->c; if (lo + w + s <= a->w) return mkExtract(a->k[0], lo + s, w); } break;
  case O_ADD: case O_SUB: case O_MUL: if (lo == 0 && w >= 8 && (isC(a->k[1]))) return mk2(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
  default: break;
  }
  return intern(O_EXTRACT, w, lo, a);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && (unsigned)hi->c == (unsigned)lo->c + lo->w)
    return mkExtract(hi->k[0], (unsigned)lo->c, w);
  if (hi->op == O_EXTRACT && hi->k[0] == lo && (unsigned)hi->c == lo->w) { // unlikely
  }
  // the sign of a floating-point number flipped in its last byte
  if (hi->op == O_XOR && isC(hi->k[1]) && hi->k[0]->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0]->k[0] == lo->k[0] && (unsigned)hi->k[0]->c == (unsigned)lo->c + lo->w)
    return mk2(O_XOR, mkExtract(lo->k[0], (unsigned)lo->c, w), mkConst(hi->k[1]->c << lo->w, w));
  // concat(hi, concat(m, l)) with hi,m adjacent
  if (lo->op == O_CONCAT && hi->op == O_EXTRACT && lo->k[0]->op == O_EXTRACT && hi->k[0] == lo->k[0]->k[0] &&
      (unsigned)hi->c == (unsigned)lo->k[0]->c + lo->k[0]->w)
    return mkConcat(mkExtract(hi->k[0], (unsigned)lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
  // zext(x) high part
  if (hi->op == O_ITE && lo->op == O_ITE && hi->k[0] == lo->k[0])
    return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  return intern(O_CONCAT, w, 0, hi, lo);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == O_XOR && isC(c->k[1])) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (isTrue(a) && isFalse(b)) return c;
    if (isFalse(a) && isTrue(b)) return mkNot(c);
    if (isTrue(a)) return mk2(O_OR, c, b);
    if (isFalse(a)) return mk2(O_AND, mkNot(c), b);
    if (isTrue(b)) return mk2(O_OR, mkNot(c), a);
    if (isFalse(b)) return mk2(O_AND, c, a);
  }
  if (a->op == O_ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->op == O_ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
  return intern(O_ITE, a->w, 0, c, a, b);
}
static bool comm(Op op) { return op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ || op == O_FADD || op == O_FMUL || op == O_FEQ; }

E mk2(Op op, E a, E b) {
  bool cmp = (op >= O_EQ && op <= O_SLE) || op == O_FEQ || op == O_FLT || op == O_FLE;
  unsigned w = cmp ? 1 : a->w;
  if (isC(a) && isC(b)) return mkConst(foldOp(op, w, a->w, a->c, b->c, 0, 0), w);
  if (comm(op)) { // constants right; otherwise order by id
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  }
  if (op == O_FEQ || op == O_FLT || op == O_FLE) {
    if (a->op == O_ITE && (isC(b) || isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mk2(op, a->k[1], b), mk2(op, a->k[2], b));
    if (b->op == O_ITE && (isC(a) || isC(b->k[1]) || isC(b->k[2]))) return mkIte(b->k[0], mk2(op, a, b->k[1]), mk2(op, a, b->k[2]));
    if (a == b) return op == O_FLT ? mkConst(0, 1) : mkNot(mk1(O_FISNAN, 1, a));
    if (isC(b)) { if (E r = chainCmp(op, a, b, false)) return r; } else if (isC(a)) { if (E r = chainCmp(op, b, a, true)) return r; }
    else if (E r = chainCmp2(op, a, b)) return r;
  }
  if (op == O_FADD || op == O_FSUB || op == O_FMUL || op == O_FDIV) {
    if (a->op == O_ITE && isC(b) && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mk2(op, a->k[1], b), mk2(op, a->k[2], b));
    if (b->op == O_ITE && isC(a) && (isC(b->k[1]) || isC(b->k[2]))) return mkIte(b->k[0], mk2(op, a, b->k[1]), mk2(op, a, b->k[2]));
  }
  u128 m = maskw(a->w);
  bool bc = isC(b);
  switch (op) {
  case O_ADD:
    if (bc) {
      if (b->c == 0) return a;
      if (a->op == O_ADD && isC(a->k[1])) return mk2(O_ADD, a->k[0], mkConst(a->k[1]->c + b->c, w));
    } else {
      if (a->op == O_ADD && isC(a->k[1])) return mk2(O_ADD, mk2(O_ADD, a->k[0], b), a->k[1]);
      if (b->op == O_ADD && isC(b->k[1])) return mk2(O_ADD, mk2(O_ADD, a, b->k[0]), b->k[1]);
      if (a->op == O_SUB && a->k[1] == b) return a->k[0];
      if (b->op == O_SUB && b->k[1] == a) return b->k[0];
    }
    break;
  case O_SUB:
    if (bc) return mk2(O_ADD, a, mkConst(-b->c, w));
    if (a == b) return mkConst(0, w);
    if (a->op == O_ADD && isC(a->k[1])) { if (b->op == O_ADD && isC(b->k[1])) return mk2(O_ADD, mk2(O_SUB, a->k[0], b->k[0]), mkConst(a->k[1]->c - b->k[1]->c, w)); return mk2(O_ADD, mk2(O_SUB, a->k[0], b), a->k[1]); }
    if (b->op == O_ADD && isC(b->k[1])) return mk2(O_ADD, mk2(O_SUB, a, b->k[0]), mkConst(-b->k[1]->c, w));
    if (a->op == O_ADD && a->k[0] == b) return a->k[1];
    if (a->op == O_ADD && a->k[1] == b) return a->k[0];
    break;
  case O_MUL:
    if (bc) { if (b->c == 0) return b; if (b->c == 1) return a;
      if ((b->c & (b->c - 1)) == 0) { unsigned s = 0; while ((b->c >> s) != 1) s++; return mk2(O_SHL, a, mkConst(s, w)); }
      if (a->op == O_ADD && isC(a->k[1])) return mk2(O_ADD, mk2(O_MUL, a->k[0], b), mkConst(a->k[1]->c * b->c, w)); }
    break;
  case O_UDIV: if (bc && b->c == 1) return a;
    if (bc && b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while ((b->c >> s) != 1) s++; return mk2(O_LSHR, a, mkConst(s, w)); } break;
  case O_UREM: if (bc && b->c && (b->c & (b->c - 1)) == 0) return mk2(O_AND, a, mkConst(b->c - 1, w)); break;
  case O_AND:
    if (bc) { if (b->c == 0) return b; if (b->c == m) return a;
      if (a->op == O_AND && isC(a->k[1])) return mk2(O_AND, a->k[0], mkConst(a->k[1]->c & b->c, w));
      if (w > 1 && (b->c & (b->c + 1)) == 0) { unsigned n = 0; while (n < w && ((b->c >> n) & 1)) n++; return mkZExt(mkExtract(a, 0, n), w); }
      if (a->op == O_OR && isC(a->k[1])) { if ((a->k[1]->c & b->c) == 0) return mk2(O_AND, a->k[0], b); return mk2(O_OR, mk2(O_AND, a->k[0], mkConst(b->c & ~a->k[1]->c, w)), mkConst(a->k[1]->c & b->c, w)); }
      if (a->op == O_ZEXT && a->k[0]->w < w) { return mkZExt(mk2(O_AND, a->k[0], mkConst(b->c, a->k[0]->w)), w); }
      if (a->op == O_CONCAT) { unsigned lw = a->k[1]->w; return mkConcat(mk2(O_AND, a->k[0], mkConst(b->c >> lw, a->k[0]->w)), mk2(O_AND, a->k[1], mkConst(b->c, lw))); }
    }
    if (a == b) return a;
    if (w == 1 && !bc && (mkNot(a) == b)) return mkConst(0, 1);
    break;
  case O_OR:
    if (bc) { if (b->c == 0) return a; if (b->c == m) return b;
      if (a->op == O_OR && isC(a->k[1])) return mk2(O_OR, a->k[0], mkConst(a->k[1]->c | b->c, w));
      if (a->op == O_CONCAT) { unsigned lw = a->k[1]->w; return mkConcat(mk2(O_OR, a->k[0], mkConst(b->c >> lw, a->k[0]->w)), mk2(O_OR, a->k[1], mkConst(b->c, lw))); }
      if (a->op == O_ZEXT && (b->c >> a->k[0]->w) == 0) return mkZExt(mk2(O_OR, a->k[0], mkConst(b->c, a->k[0]->w)), w);
    }
    if (a == b) return a;
    if (w == 1 && !bc && (mkNot(a) == b)) return mkConst(1, 1);
    // or of zext low and shl high -> concat
    { E x = a, y = b; for (int t = 0; t < 2; t++) { 
        if (x->op == O_ZEXT && y->op == O_CONCAT && isC(y->k[1]) && y->k[1]->c == 0 && x->k[0]->w <= y->k[1]->w)
          return mkConcat(y->k[0], mkZExt(x->k[0], y->k[1]->w));
        std::swap(x, y); } }
    break;
  case O_XOR:
    if (bc) { if (b->c == 0) return a;
      if (w == 1) return mkNot(a);
      if (a->op == O_XOR && isC(a->k[1])) return mk2(O_XOR, a->k[0], mkConst(a->k[1]->c ^ b->c, w)); }
    else { if (a->op == O_XOR && isC(a->k[1])) return mk2(O_XOR, mk2(O_XOR, a->k[0], b), a->k[1]);
           if (b->op == O_XOR && isC(b->k[1])) return mk2(O_XOR, mk2(O_XOR, a, b->k[0]), b->k[1]); }
    if (a == b) return mkConst(0, w);
    break;
  case O_SHL:
    if (bc) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w); unsigned s = (unsigned)b->c; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
    break;
  case O_LSHR:
    if (bc) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w); unsigned s = (unsigned)b->c; return mkZExt(mkExtract(a, s, w - s), w); }
    break;
  case O_ASHR:
    if (bc) { if (b->c == 0) return a; unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; return mkSExt(mkExtract(a, s, w - s), w); }
    break;
  case O_EQ:
    if (a == b) return mkConst(1, 1);
    if (bc) {
      if (a->w == 1) return b->c ? a : mkNot(a);
      if (a->op == O_ADD && isC(a->k[1])) return mk2(O_EQ, a->k[0], mkConst(b->c - a->k[1]->c, a->w));
      if (a->op == O_XOR && isC(a->k[1])) return mk2(O_EQ, a->k[0], mkConst(b->c ^ a->k[1]->c, a->w));
      if (a->op == O_ZEXT) { unsigned iw = a->k[0]->w; if (b->c >> iw) return mkConst(0, 1); return mk2(O_EQ, a->k[0], mkConst(b->c, iw)); }
      if (a->op == O_SEXT) { unsigned iw = a->k[0]->w; if (((u128)sextw(b->c, iw) & m) != b->c) return mkConst(0, 1); return mk2(O_EQ, a->k[0], mkConst(b->c, iw)); }
      if (a->op == O_CONCAT) { unsigned lw = a->k[1]->w; E x = mk2(O_EQ, a->k[0], mkConst(b->c >> lw, a->k[0]->w)), y = mk2(O_EQ, a->k[1], mkConst(b->c, lw)); return mk2(O_AND, x, y); }
      if (a->op == O_ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mk2(O_EQ, a->k[1], b), mk2(O_EQ, a->k[2], b));
      if (a->op == O_OR && isC(a->k[1]) && (a->k[1]->c & ~b->c)) return mkConst(0, 1);
      if (a->op == O_AND && isC(a->k[1]) && (b->c & ~a->k[1]->c)) return mkConst(0, 1);
    } else {
      if (a->op == O_ADD && b->op == O_ADD && isC(a->k[1]) && a->k[1] == b->k[1]) return mk2(O_EQ, a->k[0], b->k[0]);
      if (a->op == O_XOR && b->op == O_XOR && isC(a->k[1]) && a->k[1] == b->k[1]) return mk2(O_EQ, a->k[0], b->k[0]);
      if (a->op == O_ADD && a->k[0] == b && isC(a->k[1])) return mkConst(0, 1);
      if (b->op == O_ADD && b->k[0] == a && isC(b->k[1])) return mkConst(0, 1);
      if (a->op == b->op && (a->op == O_ZEXT || a->op == O_SEXT) && a->k[0]->w == b->k[0]->w) return mk2(O_EQ, a->k[0], b->k[0]);
    }
    break;
  case O_ULT:
    if (a == b) return mkConst(0, 1);
    if (bc) { if (b->c == 0) return mkConst(0, 1); if (b->c == 1) return mk2(O_EQ, a, mkConst(0, a->w));
      if (a->op == O_ZEXT) { unsigned iw = a->k[0]->w; if (b->c >> iw) return mkConst(1, 1); return mk2(O_ULT, a->k[0], mkConst(b->c, iw)); } }
    if (isC(a)) { if (a->c == m) return mkConst(0, 1);
      if (b->op == O_ZEXT) { unsigned iw = b->k[0]->w; if (a->c >> iw) return mkConst(0, 1); return mk2(O_ULT, mkConst(a->c, iw), b->k[0]); } }
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mk2(O_ULT, a->k[0], b->k[0]);
    break;
  case O_ULE:
    if (a == b) return mkConst(1, 1);
    if (bc) { if (b->c == m) return mkConst(1, 1); if (b->c == 0) return mk2(O_EQ, a, b);
      if (a->op == O_ZEXT) { unsigned iw = a->k[0]->w; if (b->c >> iw) return mkConst(1, 1); return mk2(O_ULE, a->k[0], mkConst(b->c, iw)); } }
    if (isC(a)) { if (a->c == 0) return mkConst(1, 1);
      if (b->op == O_ZEXT) { unsigned iw = b->k[0]->w; if (a->c >> iw) return mkConst(0, 1); return mk2(O_ULE, mkConst(a->c, iw), b->k[0]); } }
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mk2(O_ULE, a->k[0], b->k[0]);
    break;
  case O_SLT: case O_SLE:
    if (a == b) return mkConst(op == O_SLE, 1);
    if (a->op == O_ZEXT && bc && b->c <= (m >> 1)) return mk2(op == O_SLT ? O_ULT : O_ULE, a, b);
    if (a->op == O_ZEXT && bc && b->c > (m >> 1)) return mkConst(0, 1);
    if (b->op == O_ZEXT && isC(a) && a->c <= (m >> 1)) return mk2(op == O_SLT ? O_ULT : O_ULE, a, b);
    if (b->op == O_ZEXT && isC(a) && a->c > (m >> 1)) return mkConst(1, 1);
    if (a->op == O_ZEXT && b->op == O_ZEXT) return mk2(op == O_SLT ? O_ULT : O_ULE, a, b);
    if (a->op == O_SEXT && bc) { unsigned iw = a->k[0]->w; if (((u128)sextw(b->c, iw) & m) == b->c) return mk2(op, a->k[0], mkConst(b->c, iw)); }
    if (b->op == O_SEXT && isC(a)) { unsigned iw = b->k[0]->w; if (((u128)sextw(a->c, iw) & m) == a->c) return mk2(op, mkConst(a->c, iw), b->k[0]); }
    if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mk2(op, a->k[0], b->k[0]);
    break;
  default: break;
  }
  if (comm(op) && !isC(b) && a->id > b->id) std::swap(a, b);
  return intern(op, w, 0, a, b);
}

// ---------- variables ----------
static std::vector<int> *mergeVars(const std::vector<int> &a, const std::vector<int> &b) {
  auto *r = new std::vector<int>();
  std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(*r));
  return r;
}
static const std::vector<int> emptyVars;
const std::vector<int> &exprVars(E e) {
  if (e->vs) return *e->vs;
  if (e->op == O_CONST) { e->vs = &emptyVars; return emptyVars; }
  if (e->op == O_VAR) { e->vs = new std::vector<int>{(int)e->c}; return *e->vs; }
  const std::vector<int> *r = &exprVars(e->k[0]);
  for (int i = 1; i < e->nk; i++) {
    const std::vector<int> *o = &exprVars(e->k[i]);
    if (o == r || o->empty()) continue;
    if (r->empty()) { r = o; continue; }
    if (*o == *r) continue;
    if (std::includes(r->begin(), r->end(), o->begin(), o->end())) continue;
    if (std::includes(o->begin(), o->end(), r->begin(), r->end())) { r = o; continue; }
    r = mergeVars(*r, *o);
  }
  e->vs = r;
  return *r;
}

static uint32_t gen = 0;
static u128 ev(E e, const Model &m) {
  if (e->op == O_CONST) return e->c;
  if (e->egen == gen) return e->ev;
  u128 r;
  if (e->op == O_VAR) { auto it = m.v.find((int)e->c); r = it == m.v.end() ? 0 : it->second & maskw(e->w); }
  else if (e->op == O_ITE) r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m);
  else if (e->op == O_CONCAT) r = (ev(e->k[0], m) << e->k[1]->w) | ev(e->k[1], m);
  else {
    u128 a = ev(e->k[0], m), b = e->nk > 1 ? ev(e->k[1], m) : 0, d = e->nk > 2 ? ev(e->k[2], m) : 0;
    r = foldOp(e->op, e->w, e->k[0]->w, a, b, d, e->c);
  }
  e->egen = gen; e->ev = r;
  return r;
}
u128 evalExpr(E e, const Model &m) { gen++; return ev(e, m); }

static const char *opn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","fsqrt","frint","feq","flt","fle","fisnan","fext","ftrunc","f2si","f2ui","si2f","ui2f","fma"};
std::string exprStr(E e, int d) {
  char b[64];
  if (e->op == O_CONST) { snprintf(b, 64, "%llu:%d", (unsigned long long)e->c, e->w); return b; }
  if (e->op == O_VAR) { snprintf(b, 64, "v%d:%d", (int)e->c, e->w); return b; }
  if (d <= 0) return "...";
  std::string s = std::string("(") + opn[e->op];
  if (e->op == O_EXTRACT) { snprintf(b, 64, "[%d+%d]", (int)e->c, e->w); s += b; }
  for (int i = 0; i < e->nk; i++) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
