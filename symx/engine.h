// symx: symbolic executor for LLVM bitcode
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

struct Agg;
struct Val {
  E e = nullptr; uint64_t v = 0; const Agg *a = nullptr;
  Val() {}
  explicit Val(uint64_t x) : v(x) {}
  static Val ex(E e) { Val r; if (e->op == O_CONST && e->w <= 64) r.v = (uint64_t)e->c; else r.e = e; return r; }
  bool conc() const { return !e && !a; }
};
struct Agg { std::vector<Val> el; };
inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.v, w); }

enum OKind : uint8_t { K_GLOBAL, K_CONST, K_STACK, K_HEAP, K_FUNC, K_DEAD };
enum AKind : uint8_t { A_NONE, A_MALLOC, A_NEW, A_NEWARR };
struct Obj {
  uint64_t base = 0, size = 0; uint32_t nslots = 1;
  OKind kind = K_HEAP; AKind ak = A_NONE; bool freed = false;
  std::vector<uint8_t> d; std::vector<E> s;  // symbolic overlay (empty: none)
  std::vector<uint8_t> un;                   // uninitialised marks (empty: none)
  E abs = nullptr;                           // abstract base (tracked allocations)
  const llvm::Value *site = nullptr;
};
typedef std::shared_ptr<Obj> PObj;
struct Page { PObj o[64]; };

struct Opnd { int slot = -1; Val c; };
struct DInst {
  const llvm::Instruction *I; unsigned opc; int dst = -1; unsigned w = 0, w0 = 0; // result width, operand width
  std::vector<Opnd> op; std::vector<std::pair<Opnd, int64_t>> gep; uint64_t off = 0;
  int t0 = -1, t1 = -1; std::vector<std::pair<uint64_t, int>> cases;
  const llvm::Function *callee = nullptr; int intr = -1; uint8_t vec = 0; uint32_t sub = 0;
  std::vector<std::pair<int, Opnd>> phi; // per predecessor
  uint64_t size = 0; unsigned pred = 0; const llvm::Type *ty = nullptr;
};
struct DBlock { std::vector<DInst> in; unsigned nphi = 0; };
struct DFn {
  const llvm::Function *F; int nslots = 0; std::vector<DBlock> bb; std::vector<unsigned> argW; bool repo = false;
  uint64_t execs = 0;
};
struct Frame {
  DFn *fn; std::vector<Val> r; int bb = 0, pc = 0, prev = -1;
  std::vector<uint64_t> allocas; std::vector<Val> va; int retDst = -1;
};
struct Exc { uint64_t obj = 0, tinfo = 0; };
struct InputRec { std::string name; int var; unsigned w; char kind; uint64_t extra; };
struct State {
  std::vector<std::shared_ptr<Frame>> st;
  std::vector<std::shared_ptr<Page>> pages;
  uint64_t nextSlot = 1;
  std::vector<E> pc; std::shared_ptr<Model> model = std::make_shared<Model>();
  std::vector<InputRec> inputs;
  std::vector<std::string> notes, trace;
  std::vector<Exc> curExc; Exc inflight;   // exception handling
  std::vector<std::pair<uint64_t, uint64_t>> excInfo; // thrown object -> typeinfo
  std::vector<uint64_t> track; std::vector<E> absVars; uint64_t nInstr = 0; int64_t heapLive = 0; std::vector<uint64_t> absObjs;
  std::set<uint64_t> uninitVars;
  bool incomplete = false; int depth = 0;
};
