// symx: hash-consed bit-vector / floating-point expressions
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
  O_CONST, O_VAR,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  // floating point; operands and results are IEEE bit patterns (32/64)
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FSQRT, O_FRINT /*c: 0 RNE 1 up(ceil) 2 down(floor) 3 trunc 4 RNA(round)*/,
  O_FEQ, O_FLT, O_FLE, O_FISNAN,
  O_FEXT, O_FTRUNC, O_F2SI, O_F2UI, O_SI2F, O_UI2F, O_FMA,
};

struct Expr {
  Op op; uint8_t nk; uint16_t w;
  uint8_t fl;              // 1: has uninit var, 2: has fp op, 4: has abstract address
  uint32_t id;
  u128 c;                  // const value / var id / extract low bit / rounding mode
  const Expr *k[3];
  mutable uint32_t egen = 0; mutable u128 ev;  // model evaluation memo
  mutable const std::vector<int> *vs = nullptr;
  uint64_t h;
};
enum { F_UNINIT = 1, F_FP = 2, F_ABS = 4 };

typedef const Expr *E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextw(u128 v, unsigned w) { unsigned s = 128 - w; return ((i128)(v << s)) >> s; }

E mkConst(u128 v, unsigned w);
E mkVar(int id, unsigned w, int flags);
E mk1(Op op, unsigned w, E a, u128 c = 0);
E mk2(Op op, E a, E b);
E mkFma(E a, E b, E c);
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkNot(E a);                      // boolean (width 1)
inline bool isC(E e) { return e->op == O_CONST; }
inline bool isTrue(E e) { return e->op == O_CONST && e->w == 1 && e->c == 1; }
inline bool isFalse(E e) { return e->op == O_CONST && e->w == 1 && e->c == 0; }
u128 foldOp(Op op, unsigned w, unsigned kw, u128 a, u128 b, u128 d, u128 c);

const std::vector<int> &exprVars(E e);
struct Model { std::unordered_map<int, u128> v; };
u128 evalExpr(E e, const Model &m);   // variables absent from the model evaluate to 0
size_t exprCount();
std::string exprStr(E e, int depth = 6);
