#include "engine.h"
#include <chrono>
#include <cmath>
#include <cxxabi.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace llvm;

static const uint64_t ABASE = 0x10000000ull; static const unsigned SLOT = 16;
static const uint64_t ARENA = 0x200000000000ull; static const unsigned ARSTEP = 10, ARBITS = 20;
static std::unique_ptr<Module> M; static const DataLayout *DL;
static LLVMContext LC;
static std::unordered_map<const Function *, std::unique_ptr<DFn>> dfns;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<uint64_t, const Function *> fnAt;
static int nextVar = 0;
static double T0, firstViol = 0; static int newViols = 0; static double optGrace = 1e9; static std::set<std::string> optKnown; static double optTime = 840; static uint64_t optInstr = 200000000; static int optJobs = 1, optMaxViol = 8; static bool optVerbose = false, optCollide = false, optLeak = false;
static uint64_t optFront = 0;
static std::string optOut, optMainName = "sx_main";
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Violation { std::string kind, msg, where; std::string inputs; uint64_t instr; };
struct Stats { uint64_t paths = 0, forks = 0, instr = 0, checksConc = 0, checksSym = 0, assumeDead = 0, unsupported = 0, unknown = 0, exitPaths = 0, collAssumed = 0, maxDepth = 0, timeouts = 0, excPaths = 0; };
static Stats ST; static std::vector<Violation> viols; static std::map<std::string, uint64_t> reach; static std::map<std::string, uint64_t> unsupp; static std::map<std::string, uint64_t> checkHits; static std::set<std::string> violKeys;
static std::vector<std::string> samples;
struct EndPath { const char *why; };
struct Restart {};
static std::vector<std::unique_ptr<State>> work; static State *S;
static std::atomic<uint64_t> *sharedViol = nullptr;

static std::string fname(const Function *F) { return llvm::demangle(F->getName().str()); }
static std::string whereStr() {
  std::string s; int n = 0;
  for (int i = (int)S->st.size() - 1; i >= 0 && n < 14; i--) {
    Frame &f = *S->st[i]; std::string nm = fname(f.fn->F); size_t p = nm.find('('); if (p != std::string::npos && p > 0) nm = nm.substr(0, p);
    if (nm.size() > 120) nm = nm.substr(0, 120);
    if (n) s += " < "; s += nm; n++;
    if (f.pc < (int)f.fn->bb[f.bb].in.size()) { auto &dl = f.fn->bb[f.bb].in[f.pc].I->getDebugLoc(); if (dl) { s += ":" + std::to_string(dl.getLine()); } }
  }
  return s;
}
static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static std::string u128s(u128 v) { if (!v) return "0"; std::string s; while (v) { s += char('0' + (int)(v % 10)); v /= 10; } return std::string(s.rbegin(), s.rend()); }
static std::string inputsJson(const Model &m) {
  std::string s = "["; bool first = true;
  for (auto &r : S->inputs) {
    auto it = m.v.find(r.var); u128 v = it == m.v.end() ? 0 : it->second & maskw(r.w);
    if (!first) s += ","; first = false;
    s += "{\"k\":\"" + std::string(1, r.kind) + "\",\"name\":\"" + jesc(r.name) + "\",\"bits\":" + std::to_string(r.w) + ",\"value\":\"" + u128s(v) + "\"}";
  }
  return s + "]";
}
static void report(const char *kind, const std::string &msg, const Model &m) {
  std::string w = whereStr();
  std::string key = std::string(kind) + msg; if (std::string(kind) != "check") key += w.substr(0, w.find(" < ", w.find(" < ") + 1));
  if (!violKeys.insert(key).second) return;
  viols.push_back({kind, msg, w, inputsJson(m), S->nInstr});
  if (optKnown.count(msg)) return;   // a recorded finding: reported, but it does not end the exploration
  newViols++; if (firstViol == 0) firstViol = now(); if (sharedViol) { (*sharedViol)++; uint64_t z = 0; sharedViol[2].compare_exchange_strong(z, (uint64_t)(now() * 1000)); }
  if (optVerbose) { fprintf(stderr, "VIOL %s %s\n  at %s\n  in %s\n", kind, msg.c_str(), w.c_str(), viols.back().inputs.c_str()); for (auto &n : S->notes) fprintf(stderr, "  note %s\n", n.c_str()); }
}
[[noreturn]] static void bug(const char *kind, const std::string &msg) { report(kind, msg, *S->model); throw EndPath{"bug"}; }
[[noreturn]] static void unsupported(const std::string &msg) { unsupp[msg]++; ST.unsupported++; if (optVerbose) fprintf(stderr, "UNSUPPORTED %s at %s\n", msg.c_str(), whereStr().c_str()); throw EndPath{"unsupported"}; }

// ---------------- memory ----------------
static PObj slotObj(uint64_t a) {
  if (a < ABASE) return nullptr; uint64_t s = (a - ABASE) >> SLOT; if (s >= S->nextSlot) return nullptr;
  auto &pg = S->pages[s >> 6]; return pg ? pg->o[s & 63] : nullptr;
}
static Obj *robj(uint64_t a) {
  if (a < ABASE) return nullptr; uint64_t s = (a - ABASE) >> SLOT; if (s >= S->nextSlot) return nullptr;
  auto &pg = S->pages[s >> 6]; return pg ? pg->o[s & 63].get() : nullptr;
}
static void setSlot(uint64_t s, const PObj &o) {
  while (S->pages.size() <= (s >> 6)) S->pages.push_back(nullptr);
  auto &pg = S->pages[s >> 6];
  if (!pg) pg = std::make_shared<Page>(); else if (pg.use_count() > 1) pg = std::make_shared<Page>(*pg);
  pg->o[s & 63] = o;
}
static Obj *wobj(uint64_t a) {
  uint64_t s = (a - ABASE) >> SLOT; Obj *o = robj(a); if (!o) return nullptr;
  auto &pg = S->pages[s >> 6];
  if (o->nslots == 1) { if (pg.use_count() == 1 && pg->o[s & 63].use_count() == 1) return o; }
  else { // exclusive if every page on its range is exclusive and count == nslots
    bool ex = (uint64_t)pg->o[s & 63].use_count() == o->nslots; uint64_t b = (o->base - ABASE) >> SLOT;
    for (uint64_t i = b; ex && i < b + o->nslots; i++) if (S->pages[i >> 6].use_count() > 1) ex = false;
    if (ex) return o;
  }
  PObj n = std::make_shared<Obj>(*o); uint64_t b = (o->base - ABASE) >> SLOT;
  for (uint64_t i = b; i < b + n->nslots; i++) setSlot(i, n);
  return n.get();
}
static Obj *newObj(uint64_t size, OKind k, AKind ak = A_NONE, bool uninit = true) {
  PObj o = std::make_shared<Obj>(); o->size = size; o->kind = k; o->ak = ak;
  o->nslots = (uint32_t)((size + 64) / (1ull << SLOT) + 1); o->base = ABASE + (S->nextSlot << SLOT);
  o->d.assign(size, 0); if (uninit) o->un.assign(size, 1);
  uint64_t b = S->nextSlot; S->nextSlot += o->nslots;
  for (uint64_t i = b; i < b + o->nslots; i++) setSlot(i, o);
  return o.get();
}
static int freshVar() { return nextVar++; }
static E uninitByte() { int v = freshVar(); return mkVar(v, 8, F_UNINIT); }

static Obj *checkAcc(uint64_t a, uint64_t n, bool wr, const char *what = nullptr) {
  Obj *o = robj(a);
  if (!o) bug("memory", std::string(a < ABASE ? "null or wild pointer " : "wild pointer ") + (wr ? "write" : "read") + (what ? what : ""));
  if (o->kind == K_DEAD) bug("memory", std::string("use of a dead stack object, ") + (wr ? "write" : "read"));
  if (o->freed) bug("memory", std::string("use after free, ") + (wr ? "write" : "read"));
  if (o->kind == K_FUNC) bug("memory", "access to function as data");
  uint64_t off = a - o->base;
  if (off > o->size || n > o->size - off) bug("memory", std::string("out-of-bounds ") + (wr ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string(off) + " of " + std::to_string(o->size) + (o->kind == K_HEAP ? "-byte heap object" : o->kind == K_STACK ? "-byte stack object" : "-byte global"));
  if (wr && o->kind == K_CONST) bug("memory", "write to constant object");
  return o;
}
static E loadByte(Obj *&o, uint64_t a) {
  uint64_t off = a - o->base;
  if (!o->un.empty() && o->un[off]) { E u = uninitByte(); o = wobj(a); if (o->s.empty()) o->s.assign(o->size, nullptr); o->s[off] = u; o->un[off] = 0; return u; }
  if (!o->s.empty() && o->s[off]) return o->s[off];
  return mkConst(o->d[off], 8);
}
static Val loadInt(uint64_t a, unsigned n /*bytes*/, unsigned w) {
  Obj *o = checkAcc(a, n, false); uint64_t off = a - o->base;
  bool sym = false;
  if (!o->un.empty()) for (unsigned i = 0; i < n; i++) if (o->un[off + i]) sym = true;
  if (!sym && !o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) sym = true;
  if (!sym && n <= 8) { uint64_t v = 0; memcpy(&v, &o->d[off], n); if (w < 64) v &= ((uint64_t)1 << w) - 1; return Val(v); }
  E r = loadByte(o, a + 0);
  for (unsigned i = 1; i < n; i++) r = mkConcat(loadByte(o, a + i), r);
  if (r->w > w) r = mkExtract(r, 0, w);
  return Val::ex(r);
}
static void storeInt(uint64_t a, unsigned n, unsigned w, const Val &v) {
  checkAcc(a, n, true); Obj *o = wobj(a); uint64_t off = a - o->base;
  if (v.conc()) {
    uint64_t x = v.v; if (n <= 8) memcpy(&o->d[off], &x, n); else { memset(&o->d[off], 0, n); memcpy(&o->d[off], &x, 8); }
    if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr;
  } else {
    E e = v.e; if (e->w < n * 8) e = mkZExt(e, n * 8);
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    for (unsigned i = 0; i < n; i++) { E b = mkExtract(e, i * 8, 8); if (isC(b)) { o->s[off + i] = nullptr; o->d[off + i] = (uint8_t)b->c; } else o->s[off + i] = b; }
  }
  if (!o->un.empty()) for (unsigned i = 0; i < n; i++) o->un[off + i] = 0;
}
static unsigned bitw(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; return 0;
}
static Val loadTy(uint64_t a, Type *t) {
  unsigned w = bitw(t); if (w) return loadInt(a, (w + 7) / 8, w);
  auto *ag = new Agg();
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) ag->el.push_back(loadTy(a + sl->getElementOffset(i), st->getElementType(i))); }
  else if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) ag->el.push_back(loadTy(a + i * es, at->getElementType())); }
  else if (auto *vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) ag->el.push_back(loadTy(a + i * es, vt->getElementType())); }
  else { std::string s; raw_string_ostream os(s); t->print(os); unsupported("load of type " + s); }
  Val r; r.a = ag; return r;
}
static void storeTy(uint64_t a, Type *t, const Val &v) {
  unsigned w = bitw(t); if (w) { storeInt(a, (w + 7) / 8, w, v); return; }
  if (!v.a) unsupported("store of non-aggregate");
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(a + sl->getElementOffset(i), st->getElementType(i), v.a->el[i]); }
  else if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) storeTy(a + i * es, at->getElementType(), v.a->el[i]); }
  else if (auto *vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) storeTy(a + i * es, vt->getElementType(), v.a->el[i]); }
  else unsupported("store type");
}
static void copyMem(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  checkAcc(s, n, false); checkAcc(d, n, true);
  Obj *od = wobj(d); Obj *os = robj(s); uint64_t fo = s - os->base, to = d - od->base;
  std::vector<uint8_t> td(os->d.begin() + fo, os->d.begin() + fo + n);
  std::vector<E> ts; if (!os->s.empty()) ts.assign(os->s.begin() + fo, os->s.begin() + fo + n);
  std::vector<uint8_t> tu; if (!os->un.empty()) tu.assign(os->un.begin() + fo, os->un.begin() + fo + n);
  memcpy(&od->d[to], td.data(), n);
  if (!ts.empty()) { if (od->s.empty()) { bool any = false; for (auto x : ts) if (x) any = true; if (any) od->s.assign(od->size, nullptr); } if (!od->s.empty()) for (uint64_t i = 0; i < n; i++) od->s[to + i] = ts[i]; }
  else if (!od->s.empty()) for (uint64_t i = 0; i < n; i++) od->s[to + i] = nullptr;
  if (!tu.empty()) { if (od->un.empty()) { bool any = false; for (auto x : tu) if (x) any = true; if (any) od->un.assign(od->size, 0); } if (!od->un.empty()) for (uint64_t i = 0; i < n; i++) od->un[to + i] = tu[i]; }
  else if (!od->un.empty()) for (uint64_t i = 0; i < n; i++) od->un[to + i] = 0;
}

// ---------------- decisions ----------------
static void addPC(E c) {
  if (isC(c)) return;
  if (c->op == O_AND && c->w == 1) { addPC(c->k[0]); addPC(c->k[1]); return; }
  S->pc.push_back(c);
}
static void checkUninit(E c, const char *what) {
  if (!(c->fl & F_UNINIT)) return;
  // does the value depend on the uninitialised bytes?
  std::unordered_map<E, E> sub; std::function<E(E)> rn = [&](E e) -> E {
    if (!(e->fl & F_UNINIT)) return e; auto it = sub.find(e); if (it != sub.end()) return it->second; E r;
    if (e->op == O_VAR) r = mkVar(freshVar(), e->w, F_UNINIT);
    else { E k[3]; for (int i = 0; i < e->nk; i++) k[i] = rn(e->k[i]);
      switch (e->op) { case O_ITE: r = mkIte(k[0], k[1], k[2]); break; case O_CONCAT: r = mkConcat(k[0], k[1]); break; case O_EXTRACT: r = mkExtract(k[0], (unsigned)e->c, e->w); break;
        case O_ZEXT: r = mkZExt(k[0], e->w); break; case O_SEXT: r = mkSExt(k[0], e->w); break; case O_FMA: r = mkFma(k[0], k[1], k[2]); break;
        default: r = e->nk == 2 ? mk2(e->op, k[0], k[1]) : mk1(e->op, e->w, k[0], e->c); } }
    return sub[e] = r; };
  E c2 = rn(c); Model m;
  Res r = solve(S->pc, mkNot(mk2(O_EQ, c, c2)), S->model.get(), &m);
  if (r == R_SAT) { report("uninit", std::string("use of uninitialised memory in ") + what, m); throw EndPath{"uninit"}; }
}
static void forkState(E other, const std::shared_ptr<Model> &m) {
  auto t = std::make_unique<State>(*S);
  if (!t->st.empty()) t->st.back() = std::make_shared<Frame>(*t->st.back()); // the running step still writes to the current frame
  State *save = S; S = t.get(); S->model = m; addPC(other); S->depth++; S = save;
  work.push_back(std::move(t)); ST.forks++;
}
static bool recentlyKnown(E c, bool &v) {
  E n = mkNot(c); size_t k = S->pc.size();
  for (size_t i = 0; i < 24 && i < k; i++) { E p = S->pc[k - 1 - i]; if (p == c) { v = true; return true; } if (p == n) { v = false; return true; } }
  return false;
}
static bool decide(E c, const char *what = "branch") {
  if (isC(c)) return c->c & 1;
  checkUninit(c, what);
  bool v; if (recentlyKnown(c, v)) return v;
  if (optCollide && (c->fl & F_ABS)) {
    E at = c; if (at->op == O_XOR) at = at->k[0];
    if ((at->op == O_EQ || at->op == O_ULT || at->op == O_ULE) && at->k[0]->w >= 32 && (at->k[0]->fl & F_ABS || at->k[1]->fl & F_ABS)) {
      E ne = mkNot(mk2(O_EQ, at->k[0], at->k[1])); bool kv;
      if (!isC(ne) && !recentlyKnown(ne, kv)) {
        Model m; bool already = false; for (E p : S->pc) if (p == ne || p == mkNot(ne)) { already = true; break; }
        if (!already) {
          if (evalExpr(ne, *S->model)) { addPC(ne); ST.collAssumed++; }
          else { Res r = solve(S->pc, ne, S->model.get(), &m); if (r == R_SAT) { S->model = std::make_shared<Model>(m); addPC(ne); ST.collAssumed++; } }
        }
      }
    }
  }
  v = evalExpr(c, *S->model);
  E other = v ? mkNot(c) : c; auto m = std::make_shared<Model>();
  Res r = solve(S->pc, other, S->model.get(), m.get());
  if (r == R_SAT) { forkState(other, m); addPC(v ? c : mkNot(c)); S->depth++; }
  else if (r == R_UNKNOWN) { ST.unknown++; addPC(v ? c : mkNot(c)); }
  return v;
}
static uint64_t conc(const Val &v, unsigned w, const char *what = "value") {
  if (!v.e) return v.v;
  if (v.e->fl & F_UNINIT) checkUninit(v.e, what);
  uint64_t x = (uint64_t)evalExpr(v.e, *S->model);
  bool b = decide(mk2(O_EQ, v.e, mkConst(x, v.e->w)), what);
  if (!b) unsupported("concretisation");
  return x;
}
static void assume(E c) {
  if (isC(c)) { if (!(c->c & 1)) { ST.assumeDead++; throw EndPath{"assume"}; } return; }
  if (!evalExpr(c, *S->model)) { auto m = std::make_shared<Model>(); Res r = solve(S->pc, c, S->model.get(), m.get()); if (r == R_UNKNOWN) ST.unknown++; if (r != R_SAT) { ST.assumeDead++; throw EndPath{"assume"}; } S->model = m; }
  addPC(c);
}
// address of an access of n bytes; symbolic addresses are resolved by case split
static uint64_t resolve(const Val &p, uint64_t n, bool wr) {
  if (!p.e) return p.v;
  if (p.e->fl & F_ABS) unsupported("dereference of abstract address");
  checkUninit(p.e, "address");
  return conc(p, 64, "address");
}
static Val loadSym(const Val &p, Type *t) {
  unsigned w = bitw(t);
  if (!p.e) return loadTy(p.v, t);
  if (w && !(p.e->fl & (F_ABS | F_UNINIT))) {
    unsigned n = (w + 7) / 8; uint64_t a0 = (uint64_t)evalExpr(p.e, *S->model); Obj *o = robj(a0);
    if (o && (o->kind == K_CONST || o->kind == K_GLOBAL || o->size <= 256) && !o->freed && o->kind != K_DEAD && o->kind != K_FUNC && a0 - o->base + n <= o->size && o->size / n <= 1200) {
      uint64_t base = o->base, size = o->size;
      E off = mk2(O_SUB, p.e, mkConst(base, 64));
      unsigned lg = 0; while ((1u << lg) < n) lg++;
      bool al = lg == 0; if (!al) { E lo = mkExtract(off, 0, lg); al = isC(lo) && lo->c == 0; }
      if (al) {
        E inb = mk2(O_ULE, off, mkConst(size - n, 64));
        if (decide(inb, "table index")) {
          // restrict to the feasible window
          E idx = mkExtract(off, lg, 64 - lg); uint64_t cnt = size / n; E r = nullptr;
          for (uint64_t i = 0; i < cnt; i++) { Val x = loadInt(base + i * n, n, w); E xe = toE(x, w); r = r ? mkIte(mk2(O_EQ, idx, mkConst(i, 64 - lg)), xe, r) : xe; }
          return Val::ex(r);
        }
      }
    }
  }
  return loadTy(resolve(p, 1, false), t);
}

// ---------------- globals & constants ----------------
static uint64_t fnAddr(const Function *F) {
  auto it = gaddr.find(F); if (it != gaddr.end()) return it->second;
  unsupported("address of unknown function " + F->getName().str());
}
static Val constVal(const Constant *c);
static uint64_t constPtr(const Constant *c) { Val v = constVal(c); return v.v; }
static Val constVal(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    const APInt &a = ci->getValue(); if (a.getBitWidth() <= 64) return Val(a.getZExtValue());
    u128 x = a.getRawData()[0]; if (a.getNumWords() > 1) x |= (u128)a.getRawData()[1] << 64; Val r; r.e = mkConst(x, a.getBitWidth()); return r;
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) return Val(cf->getValueAPF().bitcastToAPInt().getRawData()[0]);
  if (isa<ConstantPointerNull>(c)) return Val(0);
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    if (auto *ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee());
    auto it = gaddr.find(gv); if (it == gaddr.end()) unsupported("global " + gv->getName().str()); return Val(it->second);
  }
  Type *t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    if (bitw(t)) return Val(0);
    if (t->isIntegerTy()) { Val r; r.e = mkConst(0, t->getIntegerBitWidth()); return r; }
    auto *ag = new Agg(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) ag->el.push_back(constVal(c->getAggregateElement(i))); Val r; r.a = ag; return r;
  }
  if (isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
    auto *ag = new Agg(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) ag->el.push_back(constVal(c->getAggregateElement(i))); Val r; r.a = ag; return r;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { auto *g = cast<GEPOperator>(ce); APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) unsupported("constant gep"); return Val(constPtr(ce->getOperand(0)) + off.getSExtValue()); }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return constVal(ce->getOperand(0));
    case Instruction::Trunc: { Val v = constVal(ce->getOperand(0)); return Val(v.v & (uint64_t)maskw(bitw(t))); }
    case Instruction::Sub: return Val(constPtr(ce->getOperand(0)) - constPtr(ce->getOperand(1)));
    case Instruction::Add: return Val(constPtr(ce->getOperand(0)) + constPtr(ce->getOperand(1)));
    case Instruction::ICmp: { uint64_t a = constPtr(ce->getOperand(0)), b = constPtr(ce->getOperand(1)); if (ce->getPredicate() == CmpInst::ICMP_EQ) return Val(a == b); if (ce->getPredicate() == CmpInst::ICMP_NE) return Val(a != b); break; }
    default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); unsupported("constant " + s.substr(0, 120));
}
static void initConst(Obj *o, uint64_t off, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) { auto raw = cds->getRawDataValues(); memcpy(&o->d[off], raw.data(), raw.size()); return; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initConst(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initConst(o, off + i * es, c->getAggregateElement(i)); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) initConst(o, off + i * es, c->getAggregateElement(i)); return; }
  unsigned w = bitw(t);
  if (!w) { if (t->isX86_FP80Ty() || t->isIntegerTy(128)) { if (auto *ci = dyn_cast<ConstantInt>(c)) memcpy(&o->d[off], ci->getValue().getRawData(), 16); return; } unsupported("const init type"); }
  Val v = constVal(c); memcpy(&o->d[off], &v.v, (w + 7) / 8);
}

// ---------------- decoding ----------------
enum Intr {
  X_NONE = -1, X_NOP = 0, X_MEMCPY, X_MEMSET, X_MALLOC, X_CALLOC, X_REALLOC, X_FREE, X_NEW, X_NEWARR, X_DEL, X_DELARR,
  X_SYM, X_SYMBYTES, X_ASSUME, X_CHECK, X_REACH, X_CHOOSE, X_CONC, X_TRACK, X_NOTE, X_FAIL, X_ABORT, X_EXIT, X_TERMINATE,
  X_EXC_ALLOC, X_EXC_FREE, X_THROW, X_BEGIN_CATCH, X_END_CATCH, X_RETHROW, X_EXC_PTR, X_TYPEID, X_GUARD_ACQ, X_GUARD_REL, X_RET0, X_RETARG0,
  X_UNARYF, X_ABSI, X_MINMAX, X_OVF, X_CT, X_BSWAP, X_FSH, X_FMA, X_COPYSIGN, X_FMINMAX, X_SAT, X_OBJSIZE, X_ISCONST, X_EXPECT, X_TRAP, X_VASTART, X_VACOPY, X_SNPRINTF, X_STRTOD, X_REDUCE, X_LIVE, X_ERRNO, X_POW, X_ALLOCSIZE, X_FABS, X_OUTBYTES, X_TLADDR, X_LEAKMARK
};
static std::unordered_map<std::string, int> ext = {
  {"malloc", X_MALLOC}, {"calloc", X_CALLOC}, {"realloc", X_REALLOC}, {"free", X_FREE},
  {"_Znwm", X_NEW}, {"_Znam", X_NEWARR}, {"_ZnwmRKSt9nothrow_t", X_NEW}, {"_ZnamRKSt9nothrow_t", X_NEWARR}, {"_ZnwmSt11align_val_t", X_NEW},
  {"_ZdlPv", X_DEL}, {"_ZdlPvm", X_DEL}, {"_ZdaPv", X_DELARR}, {"_ZdaPvm", X_DELARR}, {"_ZdlPvSt11align_val_t", X_DEL}, {"_ZdlPvmSt11align_val_t", X_DEL}, {"_ZdlPvRKSt9nothrow_t", X_DEL},
  {"memcpy", X_MEMCPY}, {"memmove", X_MEMCPY}, {"memset", X_MEMSET},
  {"sx_sym", X_SYM}, {"sx_sym_bytes", X_SYMBYTES}, {"sx_assume", X_ASSUME}, {"sx_check", X_CHECK}, {"sx_reach", X_REACH}, {"sx_choose", X_CHOOSE}, {"sx_conc", X_CONC}, {"sx_track", X_TRACK}, {"sx_note", X_NOTE}, {"sx_fail", X_FAIL}, {"sx_live_heap", X_LIVE}, {"sx_snprintf_g", X_SNPRINTF}, {"sx_host_strtod", X_STRTOD}, {"sx_alloc_size", X_ALLOCSIZE},
  {"abort", X_ABORT}, {"exit", X_EXIT}, {"_exit", X_EXIT}, {"__assert_fail", X_ABORT}, {"_ZSt9terminatev", X_TERMINATE}, {"__cxa_pure_virtual", X_ABORT}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", X_ABORT},
  {"__cxa_allocate_exception", X_EXC_ALLOC}, {"__cxa_free_exception", X_EXC_FREE}, {"__cxa_throw", X_THROW}, {"__cxa_begin_catch", X_BEGIN_CATCH}, {"__cxa_end_catch", X_END_CATCH}, {"__cxa_rethrow", X_RETHROW}, {"__cxa_get_exception_ptr", X_EXC_PTR},
  {"__cxa_guard_acquire", X_GUARD_ACQ}, {"__cxa_guard_release", X_GUARD_REL}, {"__cxa_guard_abort", X_NOP}, {"__cxa_atexit", X_RET0}, {"atexit", X_RET0},
  {"fprintf", X_RET0}, {"printf", X_RET0}, {"puts", X_RET0}, {"fputs", X_RET0}, {"putchar", X_RET0}, {"fputc", X_RET0}, {"fwrite", X_RET0}, {"fflush", X_RET0}, {"perror", X_NOP}, {"vfprintf", X_RET0},
  {"_ZNSt8ios_base4InitC1Ev", X_NOP}, {"_ZNSt8ios_base4InitD1Ev", X_NOP}, {"__errno_location", X_ERRNO},
  {"setlocale", X_RET0}, {"pthread_mutex_lock", X_RET0}, {"pthread_mutex_unlock", X_RET0},
  {"llvm.trap", X_TRAP}, {"pow", X_POW}, {"powf", X_POW}, {"exp", X_POW}, {"log", X_POW}, {"fabs", X_FABS}, {"fabsf", X_FABS},
  {"sqrt", X_UNARYF}, {"sqrtf", X_UNARYF}, {"round", X_UNARYF}, {"roundf", X_UNARYF}, {"floor", X_UNARYF}, {"floorf", X_UNARYF}, {"ceil", X_UNARYF}, {"ceilf", X_UNARYF}, {"trunc", X_UNARYF}, {"truncf", X_UNARYF}, {"rint", X_UNARYF}, {"rintf", X_UNARYF}, {"nearbyint", X_UNARYF}, {"nearbyintf", X_UNARYF},
};
static int extId(const Function *F, DInst &d) {
  std::string n = F->getName().str();
  auto it = ext.find(n);
  if (it != ext.end()) { if (it->second == X_UNARYF) { if (n.find("sqrt") == 0) d.sub = 100; else if (n.find("round") == 0) d.sub = 4; else if (n.find("floor") == 0) d.sub = 2; else if (n.find("ceil") == 0) d.sub = 1; else if (n.find("trunc") == 0) d.sub = 3; else d.sub = 0; } return it->second; }
  if (F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return X_MEMCPY;
    case Intrinsic::memset: return X_MEMSET;
    case Intrinsic::eh_typeid_for: return X_TYPEID;
    case Intrinsic::fabs: return X_FABS;
    case Intrinsic::sqrt: d.sub = 100; return X_UNARYF; case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: d.sub = 0; return X_UNARYF; case Intrinsic::ceil: d.sub = 1; return X_UNARYF; case Intrinsic::floor: d.sub = 2; return X_UNARYF; case Intrinsic::trunc: d.sub = 3; return X_UNARYF; case Intrinsic::round: d.sub = 4; return X_UNARYF;
    case Intrinsic::fma: d.sub = 1; return X_FMA; case Intrinsic::fmuladd: d.sub = 0; return X_FMA;
    case Intrinsic::copysign: return X_COPYSIGN; case Intrinsic::minnum: d.sub = 0; return X_FMINMAX; case Intrinsic::maxnum: d.sub = 1; return X_FMINMAX;
    case Intrinsic::abs: return X_ABSI;
    case Intrinsic::umin: d.sub = 0; return X_MINMAX; case Intrinsic::umax: d.sub = 1; return X_MINMAX; case Intrinsic::smin: d.sub = 2; return X_MINMAX; case Intrinsic::smax: d.sub = 3; return X_MINMAX;
    case Intrinsic::uadd_with_overflow: d.sub = 0; return X_OVF; case Intrinsic::sadd_with_overflow: d.sub = 1; return X_OVF; case Intrinsic::usub_with_overflow: d.sub = 2; return X_OVF; case Intrinsic::ssub_with_overflow: d.sub = 3; return X_OVF; case Intrinsic::umul_with_overflow: d.sub = 4; return X_OVF; case Intrinsic::smul_with_overflow: d.sub = 5; return X_OVF;
    case Intrinsic::ctlz: d.sub = 0; return X_CT; case Intrinsic::cttz: d.sub = 1; return X_CT; case Intrinsic::ctpop: d.sub = 2; return X_CT;
    case Intrinsic::bswap: return X_BSWAP; case Intrinsic::fshl: d.sub = 0; return X_FSH; case Intrinsic::fshr: d.sub = 1; return X_FSH;
    case Intrinsic::usub_sat: d.sub = 0; return X_SAT; case Intrinsic::uadd_sat: d.sub = 1; return X_SAT;
    case Intrinsic::objectsize: return X_OBJSIZE; case Intrinsic::is_constant: return X_ISCONST; case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: return X_RETARG0;
    case Intrinsic::vastart: return X_VASTART; case Intrinsic::vacopy: return X_VACOPY; case Intrinsic::vaend: return X_NOP;
    case Intrinsic::vector_reduce_add: d.sub = 0; return X_REDUCE; case Intrinsic::vector_reduce_or: d.sub = 1; return X_REDUCE; case Intrinsic::vector_reduce_and: d.sub = 2; return X_REDUCE; case Intrinsic::vector_reduce_xor: d.sub = 3; return X_REDUCE;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::var_annotation: return X_NOP;
    case Intrinsic::stacksave: return X_RET0;
    default: return X_NONE;
    }
  }
  if (!F->isDeclaration()) return X_NONE;
  std::string dm = llvm::demangle(n);
  // iostream output: no effect on the properties; returns the stream
  if (dm.find("std::basic_ostream<") == 0 || dm.find("std::ostream") == 0 || n.find("_ZStls") == 0 || n.find("_ZNSo") == 0 || n.find("_ZSt4endl") == 0 || n.find("_ZSt5flush") == 0 || n.find("_ZSt16__ostream_insert") == 0) return X_RETARG0;
  return X_NONE;
}

static DFn *decode(const Function *F) {
  auto it = dfns.find(F); if (it != dfns.end()) return it->second.get();
  auto fn = std::make_unique<DFn>(); fn->F = F;
  std::unordered_map<const Value *, int> slot; int n = 0;
  for (auto &a : F->args()) { slot[&a] = n++; fn->argW.push_back(bitw(a.getType())); }
  std::unordered_map<const BasicBlock *, int> bbi; int b = 0;
  for (auto &bb : *F) { bbi[&bb] = b++; for (auto &I : bb) if (!I.getType()->isVoidTy()) slot[&I] = n++; }
  fn->nslots = n; fn->bb.resize(b);
  auto opnd = [&](const Value *v) -> Opnd {
    Opnd o; auto s = slot.find(v); if (s != slot.end()) { o.slot = s->second; return o; }
    if (auto *c = dyn_cast<Constant>(v)) { o.c = constVal(c); return o; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return o;
    unsupported("operand"); };
  b = 0;
  for (auto &bb : *F) {
    DBlock &db = fn->bb[b++];
    for (auto &I : bb) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      DInst d; d.I = &I; d.opc = I.getOpcode(); d.ty = I.getType(); if (!I.getType()->isVoidTy()) d.dst = slot[&I];
      Type *t = I.getType(); if (auto *vt = dyn_cast<FixedVectorType>(t)) { d.vec = vt->getNumElements(); t = vt->getElementType(); }
      d.w = t->isIntegerTy() ? t->getIntegerBitWidth() : bitw(t);
      if (I.getNumOperands()) { Type *ot = I.getOperand(0)->getType(); if (auto *vt = dyn_cast<FixedVectorType>(ot)) { if (isa<CmpInst>(I) || isa<CastInst>(I)) d.vec = vt->getNumElements(); ot = vt->getElementType(); } d.w0 = ot->isIntegerTy() ? ot->getIntegerBitWidth() : bitw(ot); }
      if (auto *phi = dyn_cast<PHINode>(&I)) { db.nphi++; for (unsigned i = 0; i < phi->getNumIncomingValues(); i++) d.phi.push_back({bbi[phi->getIncomingBlock(i)], opnd(phi->getIncomingValue(i))}); }
      else if (auto *br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { d.op.push_back(opnd(br->getCondition())); d.t0 = bbi[br->getSuccessor(0)]; d.t1 = bbi[br->getSuccessor(1)]; } else d.t0 = bbi[br->getSuccessor(0)]; }
      else if (auto *sw = dyn_cast<SwitchInst>(&I)) { d.op.push_back(opnd(sw->getCondition())); d.t0 = bbi[sw->getDefaultDest()]; for (auto &c : sw->cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]}); }
      else if (auto *gep = dyn_cast<GetElementPtrInst>(&I)) {
        d.op.push_back(opnd(gep->getPointerOperand()));
        for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) {
          Value *ix = gi.getOperand();
          if (StructType *st = gi.getStructTypeOrNull()) d.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { int64_t es = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) d.off += ci->getSExtValue() * es; else { d.gep.push_back({opnd(ix), es}); d.cases.push_back({ix->getType()->isIntegerTy() ? ix->getType()->getIntegerBitWidth() : 0, 0}); } }
        }
      }
      else if (auto *cb = dyn_cast<CallBase>(&I)) {
        for (auto &a : cb->args()) d.op.push_back(isa<MetadataAsValue>(a) ? Opnd() : opnd(a));
        const Value *cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        if (auto *cf = dyn_cast<Function>(cv)) { d.callee = cf; d.intr = extId(cf, d); }
        else if (isa<InlineAsm>(cv)) { d.intr = -2; }
        else d.op.push_back(opnd(cv));
        if (auto *inv = dyn_cast<InvokeInst>(cb)) { d.t0 = bbi[inv->getNormalDest()]; d.t1 = bbi[inv->getUnwindDest()]; }
        if (cb->arg_size()) { Type *ot = cb->getArgOperand(0)->getType(); d.w0 = ot->isIntegerTy() ? ot->getIntegerBitWidth() : bitw(ot); }
      }
      else if (auto *al = dyn_cast<AllocaInst>(&I)) { d.size = DL->getTypeAllocSize(al->getAllocatedType()); d.op.push_back(opnd(al->getArraySize())); }
      else if (auto *ic = dyn_cast<CmpInst>(&I)) { d.pred = ic->getPredicate(); d.op.push_back(opnd(I.getOperand(0))); d.op.push_back(opnd(I.getOperand(1))); }
      else if (isa<LandingPadInst>(I)) {}
      else for (auto &o : I.operands()) d.op.push_back(opnd(o));
      if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) { d.op.resize(2); for (int x : sv->getShuffleMask()) d.cases.push_back({(uint64_t)(int64_t)x, 0}); d.sub = cast<FixedVectorType>(I.getOperand(0)->getType())->getNumElements(); }
      db.in.push_back(std::move(d));
    }
  }
  auto *r = fn.get(); dfns[F] = std::move(fn); return r;
}

// ---------------- execution ----------------
static Frame &top() { auto &p = S->st.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return *p; }
static Frame *F_;  // current frame (writable)
static inline const Val &get(const Opnd &o) { return o.slot >= 0 ? F_->r[o.slot] : o.c; }
static void popFrame() {
  for (uint64_t a : S->st.back()->allocas) { Obj *o = wobj(a); if (o) { o->kind = K_DEAD; o->d.clear(); o->d.shrink_to_fit(); o->s.clear(); o->un.clear(); } }
  S->st.pop_back();
}
static void gotoBB(int to) {
  F_->prev = F_->bb; F_->bb = to; F_->pc = 0;
  DBlock &b = F_->fn->bb[to];
  if (b.nphi) {
    Val tmp[64]; std::vector<Val> big; Val *v = tmp; if (b.nphi > 64) { big.resize(b.nphi); v = big.data(); }
    for (unsigned i = 0; i < b.nphi; i++) { bool ok = false; for (auto &p : b.in[i].phi) if (p.first == F_->prev) { v[i] = get(p.second); ok = true; break; } if (!ok) unsupported("phi"); }
    for (unsigned i = 0; i < b.nphi; i++) F_->r[b.in[i].dst] = v[i];
    F_->pc = b.nphi;
  }
}
static const Function *isFn(uint64_t a) { auto it = fnAt.find(a); return it == fnAt.end() ? nullptr : it->second; }
static void advanceAfterCall() { // caller frame on top is positioned at its call instruction
  F_ = &top(); DInst &d = F_->fn->bb[F_->bb].in[F_->pc];
  if (d.opc == Instruction::Invoke) gotoBB(d.t0); else F_->pc++;
}
static void callFn(const Function *F, std::vector<Val> args, int dst) {
  if (F->isDeclaration()) unsupported("external function " + F->getName().str() + " [" + fname(F) + "]");
  if (S->st.size() > 3000) bug("stack", "recursion deeper than 3000 frames");
  DFn *fn = decode(F); fn->execs++;
  auto f = std::make_shared<Frame>(); f->fn = fn; f->r.resize(fn->nslots); f->retDst = dst;
  size_t na = fn->argW.size();
  for (size_t i = 0; i < args.size(); i++) { if (i < na) f->r[i] = args[i]; else f->va.push_back(args[i]); }
  // byval arguments
  for (size_t i = 0; i < na && i < args.size(); i++) if (F->hasParamAttribute(i, Attribute::ByVal)) {
    uint64_t sz = DL->getTypeAllocSize(F->getParamByValType(i)); uint64_t src = conc(args[i], 64); Obj *o = newObj(sz, K_STACK); uint64_t b = o->base; copyMem(b, src, sz); f->r[i] = Val(b); f->allocas.push_back(b); }
  S->st.push_back(f); F_ = f.get();
  gotoBB(0); F_->prev = -1;
}
// typeinfo hierarchy
static const GlobalVariable *gvAt(uint64_t a) { static std::unordered_map<uint64_t, const GlobalVariable *> m; if (m.empty()) for (auto &kv : gaddr) if (kv.first) if (auto *g = dyn_cast<GlobalVariable>(kv.first)) m[kv.second] = g; auto it = m.find(a); return it == m.end() ? nullptr : it->second; }
static bool tiMatch(uint64_t thrown, uint64_t caught, int depth = 0) {
  if (thrown == caught) return true; if (depth > 20) return false;
  auto *g = gvAt(thrown), *gc = gvAt(caught); if (!g) return false;
  if (gc && g->getName() == gc->getName()) return true;
  if (!g->hasInitializer()) return false;
  auto *cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return false;
  for (unsigned i = 2; i < cs->getNumOperands(); i++) if (cs->getOperand(i)->getType()->isPointerTy()) { auto *b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts()); if (b && gaddr.count(b) && tiMatch(gaddr[b], caught, depth + 1)) return true; }
  return false;
}
static uint64_t tiOf(uint64_t obj) { for (auto it = S->excInfo.rbegin(); it != S->excInfo.rend(); ++it) if (it->first == obj) return it->second; return 0; }
[[noreturn]] static void uncaught(Exc e) {
  auto *g = gvAt(e.tinfo); std::string nm = g ? llvm::demangle(g->getName().str()) : "?";
  bug("exception", "uncaught exception: " + nm);
}
static void unwind(Exc e) { // the frame on top of the stack is positioned at the throwing call / resume is handled by caller popping
  State &s = *S;
  // search first, so an uncaught exception is reported at its origin
  while (true) {
    if (s.st.empty()) throw EndPath{"unwound"};
    F_ = &top(); DInst &d = F_->fn->bb[F_->bb].in[F_->pc];
    if (d.opc == Instruction::Invoke) {
      auto *lp = cast<InvokeInst>(d.I)->getLandingPadInst(); int sel = -1;
      for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) if (lp->isCatch(i)) {
        Val cv = constVal(cast<Constant>(lp->getClause(i))); if (cv.v == 0) sel = 1; else if (tiMatch(e.tinfo, cv.v)) sel = (int)((cv.v - ABASE) >> SLOT) + 2; }
      if (sel < 0 && (lp->isCleanup() || lp->getNumClauses() == 0)) sel = 0;
      for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) if (lp->isFilter(i)) sel = 0;
      if (sel >= 0) {
        S->inflight = e; int tb = d.t1; gotoBB(tb);
        auto *ag = new Agg(); ag->el = {Val(e.obj), Val((uint64_t)sel)}; Val v; v.a = ag;
        DInst &l = F_->fn->bb[F_->bb].in[F_->pc]; if (l.opc != Instruction::LandingPad) unsupported("landingpad"); F_->r[l.dst] = v; F_->pc++; return;
      }
    }
    if (s.st.size() == 1) { uncaught(e); }
    popFrame();
  }
}
static void throwExc(Exc e) {
  // phase 1: is there a handler?
  bool found = false;
  for (int i = (int)S->st.size() - 1; i >= 0 && !found; i--) { Frame &f = *S->st[i]; DInst &d = f.fn->bb[f.bb].in[f.pc]; if (d.opc != Instruction::Invoke) continue; auto *lp = cast<InvokeInst>(d.I)->getLandingPadInst(); for (unsigned k = 0; k < lp->getNumClauses(); k++) if (lp->isCatch(k)) { Val cv = constVal(cast<Constant>(lp->getClause(k))); if (cv.v == 0 || tiMatch(e.tinfo, cv.v)) found = true; } }
  if (!found) uncaught(e);
  ST.excPaths++;
  unwind(e);
}

static std::string cstr(uint64_t a, size_t max = 4096) { std::string r; for (size_t i = 0; i < max; i++) { Val v = loadInt(a + i, 1, 8); uint64_t c = conc(v, 8); if (!c) break; r += (char)c; } return r; }
static E fpneg(E e) { return mk2(O_XOR, e, mkConst((u128)1 << (e->w - 1), e->w)); }
static E fpabs(E e) { return mkZExt(mkExtract(e, 0, e->w - 1), e->w); }

static uint64_t heapAlloc(uint64_t n, AKind k) {
  if (n > (1ull << 28)) { bug("memory", "allocation of " + std::to_string(n) + " bytes"); }
  Obj *o = newObj(n, K_HEAP, k); o->site = F_->fn->F; S->heapLive++; uint64_t b = o->base;
  if (k == A_NEW) for (uint64_t t : S->track) if (t == n) {
    int v = freshVar(); E var = mkVar(v, ARBITS, F_ABS); uint64_t pick = 1; bool clash = true;
    while (clash) { clash = false; for (auto x : S->absVars) if (evalExpr(x, *S->model) == pick) { clash = true; pick++; break; } }
    auto m = std::make_shared<Model>(*S->model); m->v[v] = pick; S->model = m;
    for (auto x : S->absVars) addPC(mkNot(mk2(O_EQ, var, x)));
    S->absVars.push_back(var); S->absObjs.push_back(b);
    wobj(b)->abs = mk2(O_ADD, mkConst(ARENA, 64), mkConcat(mkConst(0, 64 - ARBITS - ARSTEP), mkConcat(var, mkConst(0, ARSTEP))));
    S->inputs.push_back({"alloc", v, ARBITS, 'A', n});
  }
  return b;
}
static void heapFree(uint64_t a, AKind k) {
  if (!a) return; Obj *o = robj(a);
  if (!o || o->kind != K_HEAP) bug("memory", "free of a non-heap pointer"); if (o->freed) bug("memory", "double free"); if (o->base != a) bug("memory", "free of an interior pointer"); if (o->ak != k) bug("memory", "mismatched allocation and release functions");
  o = wobj(a); o->freed = true; o->d.clear(); o->d.shrink_to_fit(); o->s.clear(); o->un.clear(); S->heapLive--;
}
static Val ptrToInt(const Val &p) {
  if (!p.e) { Obj *o = robj(p.v); if (o && o->abs && p.v - o->base <= o->size) return Val::ex(mk2(O_ADD, o->abs, mkConst(p.v - o->base, 64))); return p; }
  if (p.e->op == O_ITE && S->absObjs.size()) { Val a = ptrToInt(Val::ex(p.e->k[1])), b = ptrToInt(Val::ex(p.e->k[2])); return Val::ex(mkIte(p.e->k[0], toE(a, 64), toE(b, 64))); }
  return p;
}
static Val sel(E c, const Val &a, const Val &b, unsigned w) {
  if (a.a || b.a) { auto *ag = new Agg(); for (size_t i = 0; i < a.a->el.size(); i++) ag->el.push_back(decide(c) ? a.a->el[i] : b.a->el[i]); Val r; r.a = ag; return r; }
  return Val::ex(mkIte(c, toE(a, w), toE(b, w)));
}
static Val bin(unsigned opc, const Val &a, const Val &b, unsigned w) {
  if (a.conc() && b.conc() && w <= 64) {
    uint64_t m = w == 64 ? ~0ull : ((1ull << w) - 1), x = a.v, y = b.v;
    switch (opc) {
    case Instruction::Add: return Val((x + y) & m); case Instruction::Sub: return Val((x - y) & m); case Instruction::Mul: return Val((x * y) & m);
    case Instruction::And: return Val(x & y); case Instruction::Or: return Val(x | y); case Instruction::Xor: return Val(x ^ y);
    case Instruction::Shl: return Val(y >= w ? 0 : (x << y) & m); case Instruction::LShr: return Val(y >= w ? 0 : x >> y);
    default: break;
    }
  }
  E x = toE(a, w), y = toE(b, w); Op o;
  switch (opc) {
  case Instruction::Add: o = O_ADD; break; case Instruction::Sub: o = O_SUB; break; case Instruction::Mul: o = O_MUL; break;
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    if (!decide(mkNot(mk2(O_EQ, y, mkConst(0, w))), "divisor")) bug("arith", "division by zero");
    if (opc == Instruction::SDiv || opc == Instruction::SRem) { E ov = mk2(O_AND, mk2(O_EQ, y, mkConst(maskw(w), w)), mk2(O_EQ, x, mkConst((u128)1 << (w - 1), w))); if (decide(ov, "division overflow")) bug("arith", "signed division overflow"); }
    o = opc == Instruction::UDiv ? O_UDIV : opc == Instruction::SDiv ? O_SDIV : opc == Instruction::URem ? O_UREM : O_SREM; break; }
  case Instruction::And: o = O_AND; break; case Instruction::Or: o = O_OR; break; case Instruction::Xor: o = O_XOR; break;
  case Instruction::Shl: o = O_SHL; break; case Instruction::LShr: o = O_LSHR; break; case Instruction::AShr: o = O_ASHR; break;
  case Instruction::FAdd: o = O_FADD; break; case Instruction::FSub: o = O_FSUB; break; case Instruction::FMul: o = O_FMUL; break; case Instruction::FDiv: o = O_FDIV; break;
  default: unsupported("binary operator");
  }
  return Val::ex(mk2(o, x, y));
}
static Val icmp(unsigned p, const Val &a, const Val &b, unsigned w) {
  if (a.conc() && b.conc() && w <= 64) {
    uint64_t x = a.v, y = b.v; int64_t sx = (int64_t)sextw(x, w), sy = (int64_t)sextw(y, w); bool r;
    switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; case CmpInst::ICMP_SGT: r = sx > sy; break; default: r = sx >= sy; }
    return Val((uint64_t)r);
  }
  E x = toE(a, w), y = toE(b, w), r;
  switch (p) { case CmpInst::ICMP_EQ: r = mk2(O_EQ, x, y); break; case CmpInst::ICMP_NE: r = mkNot(mk2(O_EQ, x, y)); break; case CmpInst::ICMP_ULT: r = mk2(O_ULT, x, y); break; case CmpInst::ICMP_ULE: r = mk2(O_ULE, x, y); break; case CmpInst::ICMP_UGT: r = mk2(O_ULT, y, x); break; case CmpInst::ICMP_UGE: r = mk2(O_ULE, y, x); break; case CmpInst::ICMP_SLT: r = mk2(O_SLT, x, y); break; case CmpInst::ICMP_SLE: r = mk2(O_SLE, x, y); break; case CmpInst::ICMP_SGT: r = mk2(O_SLT, y, x); break; default: r = mk2(O_SLE, y, x); }
  return Val::ex(r);
}
static Val fcmp(unsigned p, const Val &a, const Val &b, unsigned w) {
  E x = toE(a, w), y = toE(b, w), r; auto nan = [&](E e) { return mk1(O_FISNAN, 1, e); }; auto NOT = [](E e) { return mk2(O_XOR, e, mkConst(1, 1)); };
  E uno = nullptr; auto UNO = [&] { return uno ? uno : (uno = mk2(O_OR, nan(x), nan(y))); };
  switch (p) {
  case CmpInst::FCMP_FALSE: r = mkConst(0, 1); break; case CmpInst::FCMP_TRUE: r = mkConst(1, 1); break;
  case CmpInst::FCMP_OEQ: r = mk2(O_FEQ, x, y); break; case CmpInst::FCMP_OGT: r = mk2(O_FLT, y, x); break; case CmpInst::FCMP_OGE: r = mk2(O_FLE, y, x); break; case CmpInst::FCMP_OLT: r = mk2(O_FLT, x, y); break; case CmpInst::FCMP_OLE: r = mk2(O_FLE, x, y); break;
  case CmpInst::FCMP_ONE: r = mk2(O_OR, mk2(O_FLT, x, y), mk2(O_FLT, y, x)); break; case CmpInst::FCMP_ORD: r = NOT(UNO()); break; case CmpInst::FCMP_UNO: r = UNO(); break;
  case CmpInst::FCMP_UEQ: r = NOT(mk2(O_OR, mk2(O_FLT, x, y), mk2(O_FLT, y, x))); break; case CmpInst::FCMP_UGT: r = NOT(mk2(O_FLE, x, y)); break; case CmpInst::FCMP_UGE: r = NOT(mk2(O_FLT, x, y)); break; case CmpInst::FCMP_ULT: r = NOT(mk2(O_FLE, y, x)); break; case CmpInst::FCMP_ULE: r = NOT(mk2(O_FLT, y, x)); break; default: r = NOT(mk2(O_FEQ, x, y));
  }
  return Val::ex(r);
}
static Val castv(unsigned opc, const Val &a, unsigned w0, unsigned w) {
  switch (opc) {
  case Instruction::Trunc: if (a.conc()) return Val(a.v & (uint64_t)maskw(w)); return Val::ex(mkExtract(a.e, 0, w));
  case Instruction::ZExt: if (a.conc() && w <= 64) return a; return Val::ex(mkZExt(toE(a, w0), w));
  case Instruction::SExt: if (a.conc() && w <= 64) return Val((uint64_t)sextw(a.v, w0) & (uint64_t)maskw(w)); return Val::ex(mkSExt(toE(a, w0), w));
  case Instruction::PtrToInt: { Val r = S->absObjs.empty() ? a : ptrToInt(a); if (w < 64) return castv(Instruction::Trunc, r, 64, w); return r; }
  case Instruction::IntToPtr: if (a.e && (a.e->fl & F_ABS)) unsupported("inttoptr of abstract address"); return a;
  case Instruction::FPExt: return Val::ex(mk1(O_FEXT, w, toE(a, w0))); case Instruction::FPTrunc: return Val::ex(mk1(O_FTRUNC, w, toE(a, w0)));
  case Instruction::SIToFP: return Val::ex(mk1(O_SI2F, w, toE(a, w0))); case Instruction::UIToFP: return Val::ex(mk1(O_UI2F, w, toE(a, w0)));
  case Instruction::FPToSI: case Instruction::FPToUI: {
    E e = toE(a, w0); bool sg = opc == Instruction::FPToSI; double hi = std::ldexp(1.0, sg ? w - 1 : w), lo = sg ? -std::ldexp(1.0, w - 1) - 1 : -1.0;
    auto K = [&](double x) { if (w0 == 32) { float f = (float)x; uint32_t u; memcpy(&u, &f, 4); return mkConst(u, 32); } uint64_t u; memcpy(&u, &x, 8); return mkConst(u, 64); };
    // in range: lo < x < hi  (for 64-bit or float sources lo is not exact; use <= -2^(w-1))
    E okl = (sg && (w0 == 32 || w == 64)) ? mk2(O_FLE, K(-std::ldexp(1.0, w - 1)), e) : mk2(O_FLT, K(lo), e);
    E ok = mk2(O_AND, okl, mk2(O_FLT, e, K(hi)));
    if (!decide(ok, "float to integer conversion")) bug("arith", "float to integer conversion out of range");
    if (w0 == 64 && sg) {   // an integer below 2^53 survives the way through a double
      bool neg = e->op == O_XOR && isC(e->k[1]) && e->k[1]->c == (u128)1 << 63; E f = neg ? e->k[0] : e;
      if (f->op == O_UI2F && f->k[0]->w == 64 && w <= 64 && solve(S->pc, mkNot(mk2(O_ULT, f->k[0], mkConst((u128)1 << 53, 64))), S->model.get(), nullptr) == R_UNSAT) {
        E n = w < 64 ? mkExtract(f->k[0], 0, w) : f->k[0]; return Val::ex(neg ? mk2(O_SUB, mkConst(0, w), n) : n); } }
    return Val::ex(mk1(sg ? O_F2SI : O_F2UI, w, e)); }
  case Instruction::BitCast: return a;
  default: unsupported("cast");
  }
}
static Val mapv(unsigned n, const std::function<Val(unsigned)> &f) { auto *ag = new Agg(); for (unsigned i = 0; i < n; i++) ag->el.push_back(f(i)); Val r; r.a = ag; return r; }

static void doIntr(DInst &d) {
  auto A = [&](unsigned i) -> const Val & { return get(d.op[i]); };
  auto ret = [&](const Val &v) { if (d.dst >= 0) F_->r[d.dst] = v; };
  auto next = [&] { if (d.opc == Instruction::Invoke) gotoBB(d.t0); else F_->pc++; };
  switch (d.intr) {
  case X_NOP: break;
  case X_RET0: ret(Val(0)); break;
  case X_RETARG0: ret(A(0)); break;
  case X_MEMCPY: { uint64_t n = conc(A(2), 64, "copy length"); if (n) { uint64_t a = resolve(A(0), n, true), b = resolve(A(1), n, false); copyMem(a, b, n); } if (d.dst >= 0) ret(A(0)); break; }
  case X_MEMSET: { uint64_t n = conc(A(2), 64, "length"); uint64_t a = conc(A(0), 64); if (n) { checkAcc(a, n, true); Val b = A(1); if (b.e) b = Val::ex(mkExtract(b.e, 0, 8)); else b.v &= 255; Obj *o = wobj(a); uint64_t off = a - o->base;
      if (b.conc()) { memset(&o->d[off], (int)b.v, n); if (!o->s.empty()) for (uint64_t i = 0; i < n; i++) o->s[off + i] = nullptr; if (!o->un.empty()) for (uint64_t i = 0; i < n; i++) o->un[off + i] = 0; } else for (uint64_t i = 0; i < n; i++) storeInt(a + i, 1, 8, b); }
    if (d.dst >= 0) ret(A(0)); break; }
  case X_MALLOC: ret(Val(heapAlloc(conc(A(0), 64, "size"), A_MALLOC))); break;
  case X_CALLOC: { uint64_t n = conc(A(0), 64) * conc(A(1), 64); uint64_t b = heapAlloc(n, A_MALLOC); wobj(b)->un.clear(); ret(Val(b)); break; }
  case X_REALLOC: { uint64_t p = conc(A(0), 64), n = conc(A(1), 64, "size"); uint64_t b = heapAlloc(n, A_MALLOC); if (p) { Obj *o = robj(p); if (!o || o->kind != K_HEAP || o->freed || o->base != p || o->ak != A_MALLOC) bug("memory", "realloc of an invalid pointer"); copyMem(b, p, std::min(n, o->size)); heapFree(p, A_MALLOC); } ret(Val(b)); break; }
  case X_FREE: heapFree(conc(A(0), 64), A_MALLOC); break;
  case X_NEW: ret(Val(heapAlloc(conc(A(0), 64, "size"), A_NEW))); break;
  case X_NEWARR: ret(Val(heapAlloc(conc(A(0), 64, "size"), A_NEWARR))); break;
  case X_DEL: { uint64_t p = conc(A(0), 64); Obj *o = robj(p); if (p && o && o->kind == K_HEAP && !o->freed && d.op.size() > 1 && d.callee && d.callee->getName() == "_ZdlPvm" && conc(A(1), 64) != o->size) bug("memory", "object released with a size that differs from its allocation"); heapFree(p, A_NEW); break; }
  case X_DELARR: heapFree(conc(A(0), 64), A_NEWARR); break;
  case X_LIVE: ret(Val((uint64_t)S->heapLive)); break;
  case X_ALLOCSIZE: { Obj *o = robj(conc(A(0), 64)); ret(Val(o ? o->size : 0)); break; }
  case X_SYM: { unsigned w = (unsigned)conc(A(0), 32); std::string n = cstr(conc(A(1), 64)); int v = freshVar(); S->inputs.push_back({n, v, w, 'S', 0}); ret(Val::ex(mkZExt(mkVar(v, w, 0), 64))); break; }
  case X_SYMBYTES: { uint64_t p = conc(A(0), 64), n = conc(A(1), 64); std::string nm = cstr(conc(A(2), 64)); for (uint64_t i = 0; i < n; i++) { int v = freshVar(); S->inputs.push_back({nm + "[" + std::to_string(i) + "]", v, 8, 'S', 0}); storeInt(p + i, 1, 8, Val::ex(mkVar(v, 8, 0))); } break; }
  case X_CHOOSE: { // a symbolic index, case split over its n values
    uint64_t n = conc(A(0), 32); std::string nm = cstr(conc(A(1), 64)); if (n == 0) throw EndPath{"choose"};
    // the variable is created once; a restarted instruction finds it by the pending marker
    if (S->inputs.empty() || S->inputs.back().kind != 'P') { int v = freshVar(); S->inputs.push_back({nm, v, 32, 'P', n}); E x = mkVar(v, 32, 0); addPC(mk2(O_ULT, x, mkConst(n, 32))); }
    E x = mkVar(S->inputs.back().var, 32, 0); uint64_t r = conc(Val::ex(x), 32, "choice"); S->inputs.back().kind = 'S'; ret(Val(r)); break; }
  case X_CONC: { Val v = A(0); ret(Val(conc(v, 64, "value"))); break; }
  case X_TRACK: S->track.push_back(conc(A(0), 64)); break;
  case X_NOTE: S->notes.push_back(cstr(conc(A(0), 64))); break;
  case X_ASSUME: { E c = mkExtract(toE(A(0), d.w0), 0, 1); checkUninit(c, "assumption"); assume(c); break; }
  case X_CHECK: {
    E c = mkExtract(toE(A(0), d.w0), 0, 1); std::string msg = cstr(conc(A(1), 64)); checkHits[msg]++;
    if (isC(c)) { ST.checksConc++; if (!c->c) { report("check", msg, *S->model); throw EndPath{"check"}; } break; }
    ST.checksSym++; checkUninit(c, "checked condition");
    Model m; Res r = evalExpr(c, *S->model) ? solve(S->pc, mkNot(c), S->model.get(), &m) : (m = *S->model, R_SAT);
    if (r == R_SAT) { report("check", msg, m); } else if (r == R_UNKNOWN) ST.unknown++;
    assume(c); break; }
  case X_FAIL: { std::string msg = cstr(conc(A(0), 64)); checkHits[msg]++; report("check", msg, *S->model); throw EndPath{"check"}; }
  case X_REACH: { std::string l = cstr(conc(A(0), 64)); reach[l]++; S->trace.push_back(l); break; }
  case X_ABORT: bug("abort", "abort / assertion failure");
  case X_TERMINATE: bug("abort", "std::terminate called");
  case X_TRAP: bug("abort", "trap");
  case X_EXIT: ST.exitPaths++; throw EndPath{"exit"};
  case X_EXC_ALLOC: { uint64_t n = conc(A(0), 64); Obj *o = newObj(n, K_HEAP, A_NONE); ret(Val(o->base)); break; }
  case X_EXC_FREE: break;
  case X_THROW: { Exc e; e.obj = conc(A(0), 64); e.tinfo = conc(A(1), 64); S->excInfo.push_back({e.obj, e.tinfo}); throwExc(e); return; }
  case X_BEGIN_CATCH: { Exc e; e.obj = conc(A(0), 64); e.tinfo = tiOf(e.obj); S->curExc.push_back(e); ret(Val(e.obj)); break; }
  case X_END_CATCH: if (!S->curExc.empty()) S->curExc.pop_back(); break;
  case X_EXC_PTR: ret(A(0)); break;
  case X_RETHROW: { if (S->curExc.empty()) bug("abort", "rethrow without exception"); Exc e = S->curExc.back(); throwExc(e); return; }
  case X_TYPEID: { uint64_t t = conc(A(0), 64); ret(Val(t ? ((t - ABASE) >> SLOT) + 2 : 1)); break; }
  case X_GUARD_ACQ: { uint64_t p = conc(A(0), 64); Val b = loadInt(p, 1, 8); ret(Val(b.v ? 0 : 1)); break; }
  case X_GUARD_REL: storeInt(conc(A(0), 64), 1, 8, Val(1)); break;
  case X_FABS: ret(Val::ex(fpabs(toE(A(0), d.w)))); break;
  case X_UNARYF: ret(Val::ex(d.sub == 100 ? mk1(O_FSQRT, d.w, toE(A(0), d.w)) : mk1(O_FRINT, d.w, toE(A(0), d.w), d.sub))); break;
  case X_FMA: { E a = toE(A(0), d.w), b = toE(A(1), d.w), c = toE(A(2), d.w); ret(Val::ex(d.sub ? mkFma(a, b, c) : mk2(O_FADD, mk2(O_FMUL, a, b), c))); break; }
  case X_COPYSIGN: { E a = toE(A(0), d.w), b = toE(A(1), d.w); ret(Val::ex(mkConcat(mkExtract(b, d.w - 1, 1), mkExtract(a, 0, d.w - 1)))); break; }
  case X_FMINMAX: { E a = toE(A(0), d.w), b = toE(A(1), d.w); E lt = d.sub ? mk2(O_FLT, b, a) : mk2(O_FLT, a, b); ret(Val::ex(mkIte(mk1(O_FISNAN, 1, a), b, mkIte(mk1(O_FISNAN, 1, b), a, mkIte(lt, a, b))))); break; }
  case X_ABSI: { E a = toE(A(0), d.w); ret(Val::ex(mkIte(mk2(O_SLT, a, mkConst(0, d.w)), mk2(O_SUB, mkConst(0, d.w), a), a))); break; }
  case X_MINMAX: { auto f = [&](const Val &x, const Val &y) { E a = toE(x, d.w), b = toE(y, d.w); E c = d.sub == 0 ? mk2(O_ULT, a, b) : d.sub == 1 ? mk2(O_ULT, b, a) : d.sub == 2 ? mk2(O_SLT, a, b) : mk2(O_SLT, b, a); return Val::ex(mkIte(c, a, b)); };
    if (d.vec) ret(mapv(d.vec, [&](unsigned i) { return f(A(0).a->el[i], A(1).a->el[i]); })); else ret(f(A(0), A(1))); break; }
  case X_OVF: { unsigned w = d.w0; E a = toE(A(0), w), b = toE(A(1), w), r, o; unsigned W = d.sub >= 4 ? 2 * w : w + 1; if (W > 128) { if (isC(a) && isC(b)) {} else unsupported("wide overflow"); W = 128; }
    bool sg = d.sub & 1; E x = sg ? mkSExt(a, W) : mkZExt(a, W), y = sg ? mkSExt(b, W) : mkZExt(b, W); Op op = d.sub < 2 ? O_ADD : d.sub < 4 ? O_SUB : O_MUL; E wide = mk2(op, x, y); r = mk2(op, a, b); o = mkNot(mk2(O_EQ, wide, sg ? mkSExt(r, W) : mkZExt(r, W)));
    auto *ag = new Agg(); ag->el = {Val::ex(r), Val::ex(o)}; Val v; v.a = ag; ret(v); break; }
  case X_CT: { E a = toE(A(0), d.w); unsigned w = d.w; E r;
    if (d.sub == 2) { r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mk2(O_ADD, r, mkZExt(mkExtract(a, i, 1), w)); }
    else { r = mkConst(w, w); for (unsigned j = 0; j < w; j++) { unsigned bit = d.sub == 0 ? j : w - 1 - j; r = mkIte(mkExtract(a, bit, 1), mkConst(d.sub == 0 ? w - 1 - bit : bit, w), r); } }
    ret(Val::ex(r)); break; }
  case X_BSWAP: { E a = toE(A(0), d.w); E r = mkExtract(a, 0, 8); for (unsigned i = 8; i < d.w; i += 8) r = mkConcat(r, mkExtract(a, i, 8)); ret(Val::ex(r)); break; }
  case X_FSH: { uint64_t k = conc(A(2), d.w) % d.w; E a = toE(A(0), d.w), b = toE(A(1), d.w); if (d.sub == 0) ret(Val::ex(k ? mkConcat(mkExtract(a, 0, d.w - k), mkExtract(b, d.w - k, k)) : a)); else ret(Val::ex(k ? mkConcat(mkExtract(a, 0, k), mkExtract(b, k, d.w - k)) : b)); break; }
  case X_SAT: { E a = toE(A(0), d.w), b = toE(A(1), d.w); if (d.sub == 0) ret(Val::ex(mkIte(mk2(O_ULT, a, b), mkConst(0, d.w), mk2(O_SUB, a, b)))); else { E s = mk2(O_ADD, a, b); ret(Val::ex(mkIte(mk2(O_ULT, s, a), mkConst(maskw(d.w), d.w), s))); } break; }
  case X_OBJSIZE: ret(Val((uint64_t)maskw(d.w) * (A(1).v ? 0 : 1))); break;
  case X_ISCONST: ret(Val(0)); break;
  case X_REDUCE: { Val r = A(0).a->el[0]; unsigned o[] = {Instruction::Add, Instruction::Or, Instruction::And, Instruction::Xor}; for (size_t i = 1; i < A(0).a->el.size(); i++) r = bin(o[d.sub], r, A(0).a->el[i], d.w); ret(r); break; }
  case X_ERRNO: { static std::unordered_map<int, int> z; ret(Val(gaddr[nullptr])); break; }
  case X_POW: { std::string n = d.callee->getName().str(); if (!A(0).conc() || (d.op.size() > 1 && !A(1).conc())) unsupported("symbolic " + n); auto D = [&](const Val &v) { double x; if (d.w == 32) { float f; uint32_t u = v.v; memcpy(&f, &u, 4); x = f; } else memcpy(&x, &v.v, 8); return x; }; double x = D(A(0)), r = n[0] == 'p' ? std::pow(x, D(A(1))) : n[0] == 'e' ? std::exp(x) : std::log(x); uint64_t u = 0; if (d.w == 32) { float f = r; memcpy(&u, &f, 4); } else memcpy(&u, &r, 8); ret(Val(u)); break; }
  case X_STRTOD: { std::string s = cstr(conc(A(0), 64)); char *end; double v = strtod(s.c_str(), &end); uint64_t u; memcpy(&u, &v, 8); uint64_t pe = conc(A(1), 64); if (pe) storeInt(pe, 8, 64, Val(conc(A(0), 64) + (end - s.c_str()))); ret(Val(u)); break; }
  case X_SNPRINTF: { // sx_snprintf_g(buf, n, fmt, double): concrete formatting of one double
    uint64_t b = conc(A(0), 64), n = conc(A(1), 64); std::string f = cstr(conc(A(2), 64)); uint64_t u = conc(A(3), 64, "formatted number"); double x; memcpy(&x, &u, 8); char buf[512]; int r = snprintf(buf, sizeof buf, f.c_str(), x); for (uint64_t i = 0; i < n && i <= (uint64_t)r; i++) storeInt(b + i, 1, 8, Val((uint8_t)buf[i])); ret(Val((uint64_t)r)); break; }
  default: unsupported("intrinsic/external " + d.callee->getName().str());
  }
  next();
}

static void step() {
  DInst &d = F_->fn->bb[F_->bb].in[F_->pc];
  S->nInstr++; ST.instr++;
  auto A = [&](unsigned i) -> const Val & { return get(d.op[i]); };
  switch (d.opc) {
  case Instruction::Br:
    if (d.t1 < 0) { gotoBB(d.t0); return; }
    { const Val &c = A(0); bool b = c.e ? decide(c.e) : c.v & 1; gotoBB(b ? d.t0 : d.t1); return; }
  case Instruction::Switch: {
    const Val &c = A(0);
    if (!c.e) { int t = d.t0; for (auto &k : d.cases) if (k.first == c.v) { t = k.second; break; } gotoBB(t); return; }
    for (auto &k : d.cases) if (decide(mk2(O_EQ, c.e, mkConst(k.first, c.e->w)), "switch")) { gotoBB(k.second); return; }
    gotoBB(d.t0); return; }
  case Instruction::Ret: {
    Val rv; if (!d.op.empty()) rv = A(0); int dst = F_->retDst; popFrame();
    if (S->st.empty()) { return; }
    F_ = &top(); if (dst >= 0) F_->r[dst] = rv; advanceAfterCall(); return; }
  case Instruction::Call: case Instruction::Invoke: {
    if (d.intr >= 0) { doIntr(d); return; }
    if (d.intr == -2) { // inline asm: compiler barriers only
      F_->pc++; return; }
    const Function *callee = d.callee; size_t na = d.op.size();
    if (!callee) { na--; uint64_t a = conc(get(d.op[na]), 64, "call target"); callee = isFn(a); if (!callee) bug("memory", "call through an invalid function pointer"); DInst tmp; int x = extId(callee, tmp); if (x >= 0 && callee->isDeclaration()) { DInst d2 = d; d2.intr = x; d2.sub = tmp.sub; d2.callee = callee; d2.op.resize(na); doIntr(d2); return; } }
    std::vector<Val> args; args.reserve(na); for (size_t i = 0; i < na; i++) args.push_back(get(d.op[i]));
    callFn(callee, std::move(args), d.dst); return; }
  case Instruction::Unreachable: bug("abort", "unreachable code reached");
  case Instruction::Resume: { Exc e; e.obj = A(0).a->el[0].v; e.tinfo = tiOf(e.obj); if (S->st.size() == 1) uncaught(e); popFrame(); unwind(e); return; }
  case Instruction::Alloca: { uint64_t n = conc(A(0), 64); Obj *o = newObj(n * d.size, K_STACK); F_->allocas.push_back(o->base); F_->r[d.dst] = Val(o->base); F_->pc++; return; }
  case Instruction::Load: {
    const Val &p = A(0); Val v = loadSym(p, const_cast<Type *>(d.ty)); F_->r[d.dst] = v; F_->pc++; return; }
  case Instruction::Store: { uint64_t a = resolve(A(1), 1, true); storeTy(a, d.I->getOperand(0)->getType(), A(0)); F_->pc++; return; }
  case Instruction::GetElementPtr: {
    const Val &b = A(0);
    if (b.a || d.vec) unsupported("vector gep");
    bool c = b.conc(); for (auto &g : d.gep) if (!get(g.first).conc()) c = false;
    if (c) { uint64_t a = b.v + d.off; for (size_t i = 0; i < d.gep.size(); i++) { uint64_t ix = get(d.gep[i].first).v; a += (uint64_t)((int64_t)sextw(ix, d.cases[i].first) * d.gep[i].second); } F_->r[d.dst] = Val(a); }
    else { E e = toE(b, 64); E offs = mkConst(d.off, 64); for (size_t i = 0; i < d.gep.size(); i++) { E ix = mkSExt(toE(get(d.gep[i].first), d.cases[i].first), 64); offs = mk2(O_ADD, offs, mk2(O_MUL, ix, mkConst((uint64_t)d.gep[i].second, 64))); } F_->r[d.dst] = Val::ex(mk2(O_ADD, offs, e)); }
    F_->pc++; return; }
  case Instruction::ICmp: { auto f = [&](const Val &a, const Val &b) { return icmp(d.pred, a, b, d.w0); }; if (d.vec) F_->r[d.dst] = mapv(d.vec, [&](unsigned i) { return f(A(0).a->el[i], A(1).a->el[i]); }); else F_->r[d.dst] = f(A(0), A(1)); F_->pc++; return; }
  case Instruction::FCmp: { auto f = [&](const Val &a, const Val &b) { return fcmp(d.pred, a, b, d.w0); }; if (d.w0 == 0) unsupported("fcmp type"); if (d.vec) F_->r[d.dst] = mapv(d.vec, [&](unsigned i) { return f(A(0).a->el[i], A(1).a->el[i]); }); else F_->r[d.dst] = f(A(0), A(1)); F_->pc++; return; }
  case Instruction::Select: {
    const Val &c = A(0);
    if (c.a) { F_->r[d.dst] = mapv(c.a->el.size(), [&](unsigned i) { const Val &ci = c.a->el[i]; if (!ci.e) return ci.v & 1 ? A(1).a->el[i] : A(2).a->el[i]; return sel(ci.e, A(1).a->el[i], A(2).a->el[i], d.w); }); }
    else if (!c.e) F_->r[d.dst] = c.v & 1 ? A(1) : A(2);
    else { checkUninit(c.e, "selection"); F_->r[d.dst] = sel(c.e, A(1), A(2), d.w); }
    F_->pc++; return; }
  case Instruction::ExtractValue: { Val v = A(0); for (unsigned i : cast<ExtractValueInst>(d.I)->indices()) { if (!v.a) unsupported("extractvalue"); v = v.a->el[i]; } F_->r[d.dst] = v; F_->pc++; return; }
  case Instruction::InsertValue: {
    auto ix = cast<InsertValueInst>(d.I)->getIndices(); std::function<Val(const Val &, size_t)> ins = [&](const Val &v, size_t k) -> Val { if (k == ix.size()) return A(1); auto *ag = new Agg(*v.a); ag->el[ix[k]] = ins(v.a->el[ix[k]], k + 1); Val r; r.a = ag; return r; };
    F_->r[d.dst] = ins(A(0), 0); F_->pc++; return; }
  case Instruction::ExtractElement: { uint64_t i = conc(A(1), 64); F_->r[d.dst] = A(0).a->el.at(i); F_->pc++; return; }
  case Instruction::InsertElement: { uint64_t i = conc(A(2), 64); auto *ag = new Agg(*A(0).a); ag->el.at(i) = A(1); Val r; r.a = ag; F_->r[d.dst] = r; F_->pc++; return; }
  case Instruction::ShuffleVector: { auto *ag = new Agg(); for (auto &m : d.cases) { int64_t k = (int64_t)m.first; ag->el.push_back(k < 0 ? Val(0) : (uint64_t)k < d.sub ? A(0).a->el[k] : A(1).a->el[k - d.sub]); } Val r; r.a = ag; F_->r[d.dst] = r; F_->pc++; return; }
  case Instruction::Freeze: F_->r[d.dst] = A(0); F_->pc++; return;
  case Instruction::FNeg: { auto f = [&](const Val &a) { return Val::ex(fpneg(toE(a, d.w))); }; if (d.vec) F_->r[d.dst] = mapv(d.vec, [&](unsigned i) { return f(A(0).a->el[i]); }); else F_->r[d.dst] = f(A(0)); F_->pc++; return; }
  case Instruction::Fence: F_->pc++; return;
  case Instruction::AtomicRMW: {
    auto *rm = cast<AtomicRMWInst>(d.I); uint64_t p = resolve(A(0), 8, true); Val old = loadTy(p, rm->getType()); unsigned o; switch (rm->getOperation()) { case AtomicRMWInst::Add: o = Instruction::Add; break; case AtomicRMWInst::Sub: o = Instruction::Sub; break; case AtomicRMWInst::Xchg: o = 0; break; case AtomicRMWInst::Or: o = Instruction::Or; break; case AtomicRMWInst::And: o = Instruction::And; break; default: unsupported("atomicrmw"); }
    storeTy(p, rm->getType(), o ? bin(o, old, A(1), d.w) : A(1)); F_->r[d.dst] = old; F_->pc++; return; }
  case Instruction::AtomicCmpXchg: { uint64_t p = resolve(A(0), 8, true); Type *t = d.I->getOperand(1)->getType(); unsigned w = bitw(t); Val old = loadTy(p, t); E eq = mk2(O_EQ, toE(old, w), toE(A(1), w)); bool b = decide(eq); if (b) storeTy(p, t, A(2)); auto *ag = new Agg(); ag->el = {old, Val((uint64_t)b)}; Val r; r.a = ag; F_->r[d.dst] = r; F_->pc++; return; }
  case Instruction::VAArg: unsupported("va_arg");
  default: break;
  }
  if (Instruction::isCast(d.opc)) {
    if (d.opc == Instruction::BitCast) {
      Type *ft = d.I->getOperand(0)->getType(), *tt = d.I->getType();
      if (ft->isVectorTy() != tt->isVectorTy() || (ft->isVectorTy() && bitw(cast<FixedVectorType>(ft)->getElementType()) != bitw(cast<FixedVectorType>(tt)->getElementType()))) {
        // via a flat bit-vector
        E flat; if (ft->isVectorTy()) { unsigned ew = bitw(cast<FixedVectorType>(ft)->getElementType()); flat = toE(A(0).a->el[0], ew); for (size_t i = 1; i < A(0).a->el.size(); i++) flat = mkConcat(toE(A(0).a->el[i], ew), flat); } else flat = toE(A(0), d.w0);
        if (tt->isVectorTy()) { unsigned ew = bitw(cast<FixedVectorType>(tt)->getElementType()); F_->r[d.dst] = mapv(cast<FixedVectorType>(tt)->getNumElements(), [&](unsigned i) { return Val::ex(mkExtract(flat, i * ew, ew)); }); } else F_->r[d.dst] = Val::ex(flat);
      } else F_->r[d.dst] = A(0);
      F_->pc++; return;
    }
    if (d.w == 0 || d.w0 == 0) unsupported("cast type");
    if (d.vec) F_->r[d.dst] = mapv(d.vec, [&](unsigned i) { return castv(d.opc, A(0).a->el[i], d.w0, d.w); }); else F_->r[d.dst] = castv(d.opc, A(0), d.w0, d.w);
    F_->pc++; return;
  }
  if (Instruction::isBinaryOp(d.opc)) {
    if (d.w == 0) unsupported("binary type");
    if (d.vec) F_->r[d.dst] = mapv(d.vec, [&](unsigned i) { return bin(d.opc, A(0).a->el[i], A(1).a->el[i], d.w); }); else F_->r[d.dst] = bin(d.opc, A(0), A(1), d.w);
    F_->pc++; return;
  }
  unsupported(std::string("instruction ") + d.I->getOpcodeName());
}

static bool timeUp() { return now() - T0 > optTime || (firstViol && now() - firstViol > optGrace) || (sharedViol && sharedViol[2] && now() * 1000 - (double)sharedViol[2] > optGrace * 1000); }
static void runState(std::unique_ptr<State> st) {
  S = st.get(); uint64_t chk = 0;
  try {
    while (!S->st.empty()) {
      F_ = &top(); // writable copy of the current frame
      // run until the frame changes
      step();
      if (S->nInstr > optInstr) bug("nontermination", "no end within " + std::to_string(optInstr) + " instructions");
      if ((++chk & 0xffff) == 0 && timeUp()) { ST.timeouts++; throw EndPath{"time"}; }
    }
    ST.paths++;
    if ((uint64_t)S->depth > ST.maxDepth) ST.maxDepth = S->depth;
    if (samples.size() < 3 || (ST.paths % 199 == 0 && samples.size() < 12)) { std::string t = "["; for (auto &l : S->trace) t += (t.size() > 1 ? ",\"" : "\"") + jesc(l) + "\""; samples.push_back("{\"inputs\":" + inputsJson(*S->model) + ",\"trace\":" + t + "]}"); }
  } catch (EndPath &e) { ST.paths += !strcmp(e.why, "bug") || !strcmp(e.why, "check") || !strcmp(e.why, "exit"); }
  S = nullptr;
}
// work sharing: sh[0] parts handed out, sh[1] violations, sh[2] busy workers
static std::atomic<uint64_t> *sh = nullptr; static std::vector<pid_t> kids; static std::string partBase; static int partId = -1; static double lastSplit = 0;
static std::string statsJson();
static void resetStats() { ST = Stats(); SS = SolverStats(); reach.clear(); viols.clear(); unsupp.clear(); checkHits.clear(); samples.clear(); for (auto &k : dfns) k.second->execs = 0; }
// hand half of the pending states (the oldest: the biggest subtrees) to a new process when a worker is free
static void maybeSplit() {
  if (!sh || work.size() < 2 || now() - lastSplit < 0.05) return;
  uint64_t b = sh[2]; if (b >= (uint64_t)optJobs) return;
  if (!sh[2].compare_exchange_strong(b, b + 1)) return;
  lastSplit = now(); int id = (int)sh[0]++; fflush(stderr); fflush(stdout);
  pid_t p = fork(); if (p < 0) { sh[2]--; sh[0]--; return; }
  std::vector<std::unique_ptr<State>> mine; bool odd = false;   // every other state, so that both sides get old (big) and young ones
  for (auto &w : work) { if (odd == (p == 0)) mine.push_back(std::move(w)); odd = !odd; }
  work = std::move(mine);
  if (p == 0) { resetStats(); kids.clear(); partId = id; } else kids.push_back(p);
}
static void drain() { while (!work.empty()) { if (timeUp()) { ST.timeouts += work.size(); work.clear(); break; } if (newViols >= optMaxViol || (sharedViol && *sharedViol >= (uint64_t)optMaxViol)) { ST.timeouts += work.size(); work.clear(); break; } auto s = std::move(work.back()); work.pop_back(); runState(std::move(s)); maybeSplit(); } }

static std::string statsJson() {
  std::ostringstream o; o.precision(6);
  o << "{\"paths\":" << ST.paths << ",\"forks\":" << ST.forks << ",\"instr\":" << ST.instr << ",\"checks_concrete\":" << ST.checksConc << ",\"checks_symbolic\":" << ST.checksSym << ",\"assume_dead\":" << ST.assumeDead << ",\"unsupported\":" << ST.unsupported << ",\"unknown\":" << ST.unknown << ",\"timeouts\":" << ST.timeouts << ",\"collisions_excluded\":" << ST.collAssumed << ",\"exceptions\":" << ST.excPaths << ",\"max_depth\":" << ST.maxDepth
    << ",\"queries\":" << SS.queries << ",\"sat\":" << SS.sat << ",\"unsat\":" << SS.unsat << ",\"solver_unknown\":" << SS.unknown << ",\"cache_hits\":" << SS.cacheHits << ",\"fp_queries\":" << SS.fpQueries << ",\"portfolio\":" << SS.portfolio << ",\"table_queries\":" << SS.tableQueries << ",\"cross_checked\":" << SS.crossChecked << ",\"relaxed\":" << SS.relaxed << ",\"solver_s\":" << SS.time << ",\"max_query_s\":" << SS.maxTime << ",\"wall_s\":" << now() - T0;
  o << ",\"reach\":{"; bool f = true; for (auto &k : reach) { o << (f ? "" : ",") << "\"" << jesc(k.first) << "\":" << k.second; f = false; }
  o << "},\"check_hits\":{"; f = true; for (auto &k : checkHits) { o << (f ? "" : ",") << "\"" << jesc(k.first) << "\":" << k.second; f = false; }
  o << "},\"unsupp\":{"; f = true; for (auto &k : unsupp) { o << (f ? "" : ",") << "\"" << jesc(k.first) << "\":" << k.second; f = false; }
  o << "},\"functions\":{"; f = true; for (auto &k : dfns) if (k.second->execs) { std::string nm = fname(k.first); o << (f ? "" : ",") << "\"" << jesc(nm) << "\":" << k.second->execs; f = false; }
  o << "},\"samples\":["; f = true; for (auto &s : samples) { o << (f ? "" : ",") << s; f = false; }
  o << "],\"violations\":["; f = true; for (auto &v : viols) { o << (f ? "" : ",") << "{\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"inputs\":" << v.inputs << "}"; f = false; }
  o << "]}"; return o.str();
}

int main(int argc, char **argv) {
  std::string in;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "-o") optOut = nx(); else if (a == "-t") optTime = atof(nx().c_str()); else if (a == "-i") optInstr = strtoull(nx().c_str(), 0, 10); else if (a == "-j") optJobs = atoi(nx().c_str()); else if (a == "-v") optVerbose = true; else if (a == "-m") optMaxViol = atoi(nx().c_str()); else if (a == "--no-collisions") optCollide = true; else if (a == "--fp-ms") optFpTimeoutMs = atoi(nx().c_str()); else if (a == "--bv-ms") optTimeoutMs = atoi(nx().c_str()); else if (a == "--known") optKnown.insert(nx()); else if (a == "--grace") optGrace = atof(nx().c_str()); else if (a == "--entry") optMainName = nx(); else if (a == "--front") optFront = atoi(nx().c_str()); else in = a; }
  { struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur < (1ull << 30)) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ull << 30) : std::min<rlim_t>(rl.rlim_max, 1ull << 30); if (setrlimit(RLIMIT_STACK, &rl) == 0 && !getenv("SYMX_REEXEC")) { setenv("SYMX_REEXEC", "1", 1); execv("/proc/self/exe", argv); } } }
  T0 = now(); SMDiagnostic err; M = parseIRFile(in, err, LC); if (!M) { err.print("symx", errs()); return 2; } DL = &M->getDataLayout();
  auto st = std::make_unique<State>(); S = st.get(); Frame dummy; F_ = &dummy;
  int rc = 0;
  try {
    // addresses
    for (auto &F : *M) { Obj *o = newObj(0, K_FUNC); gaddr[&F] = o->base; fnAt[o->base] = &F; }
    std::map<std::string, uint64_t> strs; std::vector<const GlobalVariable *> inits;
    for (auto &G : M->globals()) {
      if (G.getName().starts_with("llvm.")) continue;
      uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 0; bool decl = !G.hasInitializer();
      if (!decl && G.isConstant() && G.hasGlobalUnnamedAddr()) if (auto *cd = dyn_cast<ConstantDataSequential>(G.getInitializer())) { std::string key((const char *)cd->getRawDataValues().data(), cd->getRawDataValues().size()); auto it = strs.find(key); if (it != strs.end()) { gaddr[&G] = it->second; continue; } Obj *o = newObj(sz, K_CONST, A_NONE, false); strs[key] = o->base; gaddr[&G] = o->base; inits.push_back(&G); continue; }
      Obj *o = newObj(decl ? std::max<uint64_t>(sz, 512) : sz, G.isConstant() && !decl ? K_CONST : K_GLOBAL, A_NONE, false); gaddr[&G] = o->base; inits.push_back(&G);
    }
    { Obj *o = newObj(8, K_GLOBAL, A_NONE, false); gaddr[nullptr] = o->base; }
    for (auto *G : inits) if (G->hasInitializer()) { Obj *o = wobj(gaddr[G]); initConst(o, 0, G->getInitializer()); }
    // entry: a driver frame list executed one after another
    std::vector<const Function *> entries;
    if (auto *ct = M->getNamedGlobal("llvm.global_ctors")) if (ct->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(ct->getInitializer())) { std::vector<std::pair<uint64_t, const Function *>> v; for (auto &op : ca->operands()) { auto *cs = cast<ConstantStruct>(op); if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); } std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; }); for (auto &p : v) entries.push_back(p.second); }
    for (auto *f : entries) { callFn(f, {}, -1); while (!S->st.empty()) { F_ = &top(); step(); } F_ = &dummy; }
    if (!work.empty()) { fprintf(stderr, "symx: fork in constructors\n"); return 2; }
    for (auto &k : dfns) k.second->execs = 0;
    S->heapLive = 0; ST.instr = 0; S->nInstr = 0;
    const Function *mainF = M->getFunction(optMainName); if (!mainF) { fprintf(stderr, "symx: no entry %s\n", optMainName.c_str()); return 2; }
    callFn(mainF, {}, -1);
    work.push_back(std::move(st));
  } catch (EndPath &e) { fprintf(stderr, "symx: initialisation failed: %s\n", e.why); for (auto &u : unsupp) fprintf(stderr, "  %s\n", u.first.c_str()); for (auto &v : viols) fprintf(stderr, "  %s %s %s\n", v.kind.c_str(), v.msg.c_str(), v.where.c_str()); return 2; }
  std::vector<std::string> parts;
  if (optJobs <= 1) drain();
  else {
    sh = (std::atomic<uint64_t> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh[0] = 0; sh[1] = 0; sh[2] = 1; sh[3] = 0; sharedViol = &sh[1];
    partBase = (optOut.empty() ? "/tmp/symx_out" : optOut) + ".part" + std::to_string(getpid()) + ".";
    drain();
    sh[2]--;
    for (auto p : kids) { int stt; waitpid(p, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { rc = 2; fprintf(stderr, "symx: worker died (%d)\n", stt); } }
    if (partId >= 0) { std::ofstream f(partBase + std::to_string(partId)); f << statsJson(); f.close(); _exit(rc); }
    for (uint64_t i = 0; i < sh[0]; i++) parts.push_back(partBase + std::to_string(i));
  }
  std::ostringstream o; o << "{\"main\":" << statsJson() << ",\"parts\":["; bool f = true; for (auto &p : parts) { std::ifstream i(p); std::stringstream b; b << i.rdbuf(); std::string s = b.str(); unlink(p.c_str()); if (s.empty()) { rc = 2; continue; } o << (f ? "" : ",") << s; f = false; } o << "]}";
  if (optOut.empty()) std::cout << o.str() << "\n"; else { std::ofstream fo(optOut); fo << o.str(); }
  fflush(stdout); _exit(rc);
}
