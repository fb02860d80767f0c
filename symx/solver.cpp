#include "solver.h"
#include "relax.h"
#include <algorithm>
#include <chrono>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <z3++.h>

SolverStats SS;
int optTimeoutMs = 60000, optFpTimeoutMs = 120000;

static z3::context *ctx;
static z3::solver *slv;
static std::unordered_map<uint32_t, Z3_ast> memo;      // bit-vector view, kept alive
static std::unordered_map<uint32_t, Z3_ast> memoFp;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static void init() {
  if (ctx) return;
  ctx = new z3::context();
  slv = new z3::solver(*ctx, "QF_BV");
}
void solverResetAfterFork() {}

static z3::sort fpSort(unsigned w) { return w == 32 ? ctx->fpa_sort(8, 24) : ctx->fpa_sort(11, 53); }
// every intermediate term is kept alive (z3 frees unreferenced terms on the next API call)
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(*ctx, a); return a; }
#define Z3_mk_bvadd(...) keep(Z3_mk_bvadd(__VA_ARGS__))
#define Z3_mk_bvand(...) keep(Z3_mk_bvand(__VA_ARGS__))
#define Z3_mk_bvashr(...) keep(Z3_mk_bvashr(__VA_ARGS__))
#define Z3_mk_bvlshr(...) keep(Z3_mk_bvlshr(__VA_ARGS__))
#define Z3_mk_bvmul(...) keep(Z3_mk_bvmul(__VA_ARGS__))
#define Z3_mk_bvor(...) keep(Z3_mk_bvor(__VA_ARGS__))
#define Z3_mk_bvsdiv(...) keep(Z3_mk_bvsdiv(__VA_ARGS__))
#define Z3_mk_bvshl(...) keep(Z3_mk_bvshl(__VA_ARGS__))
#define Z3_mk_bvsle(...) keep(Z3_mk_bvsle(__VA_ARGS__))
#define Z3_mk_bvslt(...) keep(Z3_mk_bvslt(__VA_ARGS__))
#define Z3_mk_bvsrem(...) keep(Z3_mk_bvsrem(__VA_ARGS__))
#define Z3_mk_bvsub(...) keep(Z3_mk_bvsub(__VA_ARGS__))
#define Z3_mk_bvudiv(...) keep(Z3_mk_bvudiv(__VA_ARGS__))
#define Z3_mk_bvule(...) keep(Z3_mk_bvule(__VA_ARGS__))
#define Z3_mk_bvult(...) keep(Z3_mk_bvult(__VA_ARGS__))
#define Z3_mk_bvurem(...) keep(Z3_mk_bvurem(__VA_ARGS__))
#define Z3_mk_bvxor(...) keep(Z3_mk_bvxor(__VA_ARGS__))
#define Z3_mk_concat(...) keep(Z3_mk_concat(__VA_ARGS__))
#define Z3_mk_eq(...) keep(Z3_mk_eq(__VA_ARGS__))
#define Z3_mk_extract(...) keep(Z3_mk_extract(__VA_ARGS__))
#define Z3_mk_fpa_abs(...) keep(Z3_mk_fpa_abs(__VA_ARGS__))
#define Z3_mk_fpa_add(...) keep(Z3_mk_fpa_add(__VA_ARGS__))
#define Z3_mk_fpa_div(...) keep(Z3_mk_fpa_div(__VA_ARGS__))
#define Z3_mk_fpa_eq(...) keep(Z3_mk_fpa_eq(__VA_ARGS__))
#define Z3_mk_fpa_fma(...) keep(Z3_mk_fpa_fma(__VA_ARGS__))
#define Z3_mk_fpa_is_nan(...) keep(Z3_mk_fpa_is_nan(__VA_ARGS__))
#define Z3_mk_fpa_leq(...) keep(Z3_mk_fpa_leq(__VA_ARGS__))
#define Z3_mk_fpa_lt(...) keep(Z3_mk_fpa_lt(__VA_ARGS__))
#define Z3_mk_fpa_mul(...) keep(Z3_mk_fpa_mul(__VA_ARGS__))
#define Z3_mk_fpa_neg(...) keep(Z3_mk_fpa_neg(__VA_ARGS__))
#define Z3_mk_fpa_rna(...) keep(Z3_mk_fpa_rna(__VA_ARGS__))
#define Z3_mk_fpa_rne(...) keep(Z3_mk_fpa_rne(__VA_ARGS__))
#define Z3_mk_fpa_round_to_integral(...) keep(Z3_mk_fpa_round_to_integral(__VA_ARGS__))
#define Z3_mk_fpa_rtn(...) keep(Z3_mk_fpa_rtn(__VA_ARGS__))
#define Z3_mk_fpa_rtp(...) keep(Z3_mk_fpa_rtp(__VA_ARGS__))
#define Z3_mk_fpa_rtz(...) keep(Z3_mk_fpa_rtz(__VA_ARGS__))
#define Z3_mk_fpa_sqrt(...) keep(Z3_mk_fpa_sqrt(__VA_ARGS__))
#define Z3_mk_fpa_sub(...) keep(Z3_mk_fpa_sub(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_bv(...) keep(Z3_mk_fpa_to_fp_bv(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_float(...) keep(Z3_mk_fpa_to_fp_float(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_signed(...) keep(Z3_mk_fpa_to_fp_signed(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_unsigned(...) keep(Z3_mk_fpa_to_fp_unsigned(__VA_ARGS__))
#define Z3_mk_fpa_to_ieee_bv(...) keep(Z3_mk_fpa_to_ieee_bv(__VA_ARGS__))
#define Z3_mk_fpa_to_sbv(...) keep(Z3_mk_fpa_to_sbv(__VA_ARGS__))
#define Z3_mk_fpa_to_ubv(...) keep(Z3_mk_fpa_to_ubv(__VA_ARGS__))
#define Z3_mk_ite(...) keep(Z3_mk_ite(__VA_ARGS__))
#define Z3_mk_sign_ext(...) keep(Z3_mk_sign_ext(__VA_ARGS__))
#define Z3_mk_unsigned_int64(...) keep(Z3_mk_unsigned_int64(__VA_ARGS__))
#define Z3_mk_zero_ext(...) keep(Z3_mk_zero_ext(__VA_ARGS__))
static Z3_ast rne() { return Z3_mk_fpa_rne(*ctx); }
static Z3_ast toBV(E e);
static Z3_ast toBool(E e) { // width-1 to Bool
  return Z3_mk_eq(*ctx, toBV(e), Z3_mk_unsigned_int64(*ctx, 1, ctx->bv_sort(1)));
}
static Z3_ast fromBool(Z3_ast b) {
  z3::sort s = ctx->bv_sort(1);
  return Z3_mk_ite(*ctx, b, Z3_mk_unsigned_int64(*ctx, 1, s), Z3_mk_unsigned_int64(*ctx, 0, s));
}
static bool fpResult(E e) {
  switch (e->op) { case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FSQRT: case O_FRINT: case O_FEXT: case O_FTRUNC: case O_SI2F: case O_UI2F: case O_FMA: return true; default: return false; }
}
static Z3_ast toFP(E e) {
  auto it = memoFp.find(e->id);
  if (it != memoFp.end()) return it->second;
  Z3_context c = *ctx; Z3_ast r;
  z3::sort s = fpSort(e->w);
  switch (e->op) {
  case O_FADD: r = Z3_mk_fpa_add(c, rne(), toFP(e->k[0]), toFP(e->k[1])); break;
  case O_FSUB: r = Z3_mk_fpa_sub(c, rne(), toFP(e->k[0]), toFP(e->k[1])); break;
  case O_FMUL: r = Z3_mk_fpa_mul(c, rne(), toFP(e->k[0]), toFP(e->k[1])); break;
  case O_FDIV: r = Z3_mk_fpa_div(c, rne(), toFP(e->k[0]), toFP(e->k[1])); break;
  case O_FMA: r = Z3_mk_fpa_fma(c, rne(), toFP(e->k[0]), toFP(e->k[1]), toFP(e->k[2])); break;
  case O_FSQRT: r = Z3_mk_fpa_sqrt(c, rne(), toFP(e->k[0])); break;
  case O_FRINT: { Z3_ast m; switch ((int)e->c) { case 0: m = rne(); break; case 1: m = Z3_mk_fpa_rtp(c); break; case 2: m = Z3_mk_fpa_rtn(c); break; case 3: m = Z3_mk_fpa_rtz(c); break; default: m = Z3_mk_fpa_rna(c); }
    r = Z3_mk_fpa_round_to_integral(c, m, toFP(e->k[0])); break; }
  case O_FEXT: case O_FTRUNC: r = Z3_mk_fpa_to_fp_float(c, rne(), toFP(e->k[0]), s); break;
  case O_SI2F: r = Z3_mk_fpa_to_fp_signed(c, rne(), toBV(e->k[0]), s); break;
  case O_UI2F: r = Z3_mk_fpa_to_fp_unsigned(c, rne(), toBV(e->k[0]), s); break;
  case O_ITE: if ((e->k[1]->fl | e->k[2]->fl) & F_FP) { r = Z3_mk_ite(c, toBool(e->k[0]), toFP(e->k[1]), toFP(e->k[2])); break; }
    /* fallthrough */
  default:
    // sign flip / clear of an fp result: keep it in the fp domain
    if (e->op == O_XOR && isC(e->k[1]) && e->k[1]->c == ((u128)1 << (e->w - 1)) && (e->k[0]->fl & F_FP)) { r = Z3_mk_fpa_neg(c, toFP(e->k[0])); break; }
    if (e->op == O_ZEXT && e->k[0]->op == O_EXTRACT && e->k[0]->c == 0 && e->k[0]->w == e->w - 1 && e->k[0]->k[0]->w == e->w && (e->k[0]->fl & F_FP)) { r = Z3_mk_fpa_abs(c, toFP(e->k[0]->k[0])); break; }
    r = Z3_mk_fpa_to_fp_bv(c, toBV(e), s);
  }
  memoFp[e->id] = keep(r);
  return r;
}
static Z3_ast toBV(E e) {
  auto it = memo.find(e->id);
  if (it != memo.end()) return it->second;
  Z3_context c = *ctx; Z3_ast r;
  z3::sort s = ctx->bv_sort(e->w);
  auto K = [&](int i) { return toBV(e->k[i]); };
  switch (e->op) {
  case O_CONST:
    if (e->w <= 64) r = Z3_mk_unsigned_int64(c, (uint64_t)e->c, s);
    else { z3::sort s64 = ctx->bv_sort(64), sh = ctx->bv_sort(e->w - 64); Z3_ast h = Z3_mk_unsigned_int64(c, (uint64_t)(e->c >> 64), sh); Z3_inc_ref(c, h); r = Z3_mk_concat(c, h, Z3_mk_unsigned_int64(c, (uint64_t)e->c, s64)); }
    break;
  case O_VAR: { z3::expr v = ctx->bv_const(("v" + std::to_string((int)e->c)).c_str(), e->w); r = v; Z3_inc_ref(c, r); break; }
  case O_ADD: r = Z3_mk_bvadd(c, K(0), K(1)); break;
  case O_SUB: r = Z3_mk_bvsub(c, K(0), K(1)); break;
  case O_MUL: r = Z3_mk_bvmul(c, K(0), K(1)); break;
  case O_UDIV: r = Z3_mk_bvudiv(c, K(0), K(1)); break;
  case O_SDIV: r = Z3_mk_bvsdiv(c, K(0), K(1)); break;
  case O_UREM: r = Z3_mk_bvurem(c, K(0), K(1)); break;
  case O_SREM: r = Z3_mk_bvsrem(c, K(0), K(1)); break;
  case O_AND: r = Z3_mk_bvand(c, K(0), K(1)); break;
  case O_OR: r = Z3_mk_bvor(c, K(0), K(1)); break;
  case O_XOR: r = Z3_mk_bvxor(c, K(0), K(1)); break;
  case O_SHL: r = Z3_mk_bvshl(c, K(0), K(1)); break;
  case O_LSHR: r = Z3_mk_bvlshr(c, K(0), K(1)); break;
  case O_ASHR: r = Z3_mk_bvashr(c, K(0), K(1)); break;
  case O_EQ: r = fromBool(Z3_mk_eq(c, K(0), K(1))); break;
  case O_ULT: r = fromBool(Z3_mk_bvult(c, K(0), K(1))); break;
  case O_ULE: r = fromBool(Z3_mk_bvule(c, K(0), K(1))); break;
  case O_SLT: r = fromBool(Z3_mk_bvslt(c, K(0), K(1))); break;
  case O_SLE: r = fromBool(Z3_mk_bvsle(c, K(0), K(1))); break;
  case O_ITE: { Z3_ast cc = keep(toBool(e->k[0])); r = Z3_mk_ite(c, cc, K(1), K(2)); break; }
  case O_CONCAT: r = Z3_mk_concat(c, K(0), K(1)); break;
  case O_EXTRACT: r = Z3_mk_extract(c, (unsigned)e->c + e->w - 1, (unsigned)e->c, K(0)); break;
  case O_ZEXT: r = Z3_mk_zero_ext(c, e->w - e->k[0]->w, K(0)); break;
  case O_SEXT: r = Z3_mk_sign_ext(c, e->w - e->k[0]->w, K(0)); break;
  case O_FEQ: r = fromBool(Z3_mk_fpa_eq(c, toFP(e->k[0]), toFP(e->k[1]))); break;
  case O_FLT: r = fromBool(Z3_mk_fpa_lt(c, toFP(e->k[0]), toFP(e->k[1]))); break;
  case O_FLE: r = fromBool(Z3_mk_fpa_leq(c, toFP(e->k[0]), toFP(e->k[1]))); break;
  case O_FISNAN: r = fromBool(Z3_mk_fpa_is_nan(c, toFP(e->k[0]))); break;
  case O_F2SI: r = Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), toFP(e->k[0]), e->w); break;
  case O_F2UI: r = Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), toFP(e->k[0]), e->w); break;
  default: r = Z3_mk_fpa_to_ieee_bv(c, toFP(e)); break;
  }
  memo[e->id] = keep(r);
  return r;
}

// ---- SMT-LIB2 text (for the portfolio); portable: no fp.to_ieee_bv ----
struct Smt {
  std::ostringstream decl, defs; std::map<uint32_t, std::string> bv, fp; std::set<int> vars; int n = 0;
  std::string c(u128 v, unsigned w) { std::string s = "#b"; for (int i = w - 1; i >= 0; i--) s += ((v >> i) & 1) ? '1' : '0'; return s; }
  static const char *es(unsigned w) { return w == 32 ? "8 24" : "11 53"; }
  std::string def(const std::string &srt, const std::string &body) { std::string nm = "t" + std::to_string(n++); defs << "(define-fun " << nm << " () " << srt << " " << body << ")\n"; return nm; }
  std::string bsort(unsigned w) { return "(_ BitVec " + std::to_string(w) + ")"; }
  std::string fsort(unsigned w) { return std::string("(_ FloatingPoint ") + es(w) + ")"; }
  std::string B(E e) { return "(= " + BV(e) + " #b1)"; }
  std::string FP(E e) {
    auto it = fp.find(e->id); if (it != fp.end()) return it->second;
    std::string b;
    auto two = [&](const char *o) { return std::string("(") + o + " RNE " + FP(e->k[0]) + " " + FP(e->k[1]) + ")"; };
    switch (e->op) {
    case O_FADD: b = two("fp.add"); break; case O_FSUB: b = two("fp.sub"); break; case O_FMUL: b = two("fp.mul"); break; case O_FDIV: b = two("fp.div"); break;
    case O_FMA: b = "(fp.fma RNE " + FP(e->k[0]) + " " + FP(e->k[1]) + " " + FP(e->k[2]) + ")"; break;
    case O_FSQRT: b = "(fp.sqrt RNE " + FP(e->k[0]) + ")"; break;
    case O_FRINT: { const char *m[] = {"RNE", "RTP", "RTN", "RTZ", "RNA"}; b = std::string("(fp.roundToIntegral ") + m[(int)e->c] + " " + FP(e->k[0]) + ")"; break; }
    case O_FEXT: case O_FTRUNC: b = std::string("((_ to_fp ") + es(e->w) + ") RNE " + FP(e->k[0]) + ")"; break;
    case O_SI2F: b = std::string("((_ to_fp ") + es(e->w) + ") RNE " + BV(e->k[0]) + ")"; break;
    case O_UI2F: b = std::string("((_ to_fp_unsigned ") + es(e->w) + ") RNE " + BV(e->k[0]) + ")"; break;
    case O_ITE: b = "(ite " + B(e->k[0]) + " " + FP(e->k[1]) + " " + FP(e->k[2]) + ")"; break;
    default:
      if (e->op == O_XOR && isC(e->k[1]) && e->k[1]->c == ((u128)1 << (e->w - 1)) && (e->k[0]->fl & F_FP)) { b = "(fp.neg " + FP(e->k[0]) + ")"; break; }
      if (e->op == O_ZEXT && e->k[0]->op == O_EXTRACT && e->k[0]->c == 0 && e->k[0]->w == e->w - 1 && e->k[0]->k[0]->w == e->w && (e->k[0]->fl & F_FP)) { b = "(fp.abs " + FP(e->k[0]->k[0]) + ")"; break; }
      b = std::string("((_ to_fp ") + es(e->w) + ") " + BV(e) + ")";
    }
    return fp[e->id] = def(fsort(e->w), b);
  }
  std::string BV(E e) {
    auto it = bv.find(e->id); if (it != bv.end()) return it->second;
    std::string b;
    auto two = [&](const char *o) { return std::string("(") + o + " " + BV(e->k[0]) + " " + BV(e->k[1]) + ")"; };
    auto cmp = [&](std::string s) { return "(ite " + s + " #b1 #b0)"; };
    switch (e->op) {
    case O_CONST: return bv[e->id] = c(e->c, e->w);
    case O_VAR: { std::string nm = "v" + std::to_string((int)e->c); if (vars.insert((int)e->c).second) decl << "(declare-const " << nm << " " << bsort(e->w) << ")\n"; return bv[e->id] = nm; }
    case O_ADD: b = two("bvadd"); break; case O_SUB: b = two("bvsub"); break; case O_MUL: b = two("bvmul"); break;
    case O_UDIV: b = two("bvudiv"); break; case O_SDIV: b = two("bvsdiv"); break; case O_UREM: b = two("bvurem"); break; case O_SREM: b = two("bvsrem"); break;
    case O_AND: b = two("bvand"); break; case O_OR: b = two("bvor"); break; case O_XOR: b = two("bvxor"); break;
    case O_SHL: b = two("bvshl"); break; case O_LSHR: b = two("bvlshr"); break; case O_ASHR: b = two("bvashr"); break;
    case O_EQ: b = cmp(two("=")); break; case O_ULT: b = cmp(two("bvult")); break; case O_ULE: b = cmp(two("bvule")); break; case O_SLT: b = cmp(two("bvslt")); break; case O_SLE: b = cmp(two("bvsle")); break;
    case O_ITE: b = "(ite " + B(e->k[0]) + " " + BV(e->k[1]) + " " + BV(e->k[2]) + ")"; break;
    case O_CONCAT: b = two("concat"); break;
    case O_EXTRACT: b = "((_ extract " + std::to_string((unsigned)e->c + e->w - 1) + " " + std::to_string((unsigned)e->c) + ") " + BV(e->k[0]) + ")"; break;
    case O_ZEXT: b = "((_ zero_extend " + std::to_string(e->w - e->k[0]->w) + ") " + BV(e->k[0]) + ")"; break;
    case O_SEXT: b = "((_ sign_extend " + std::to_string(e->w - e->k[0]->w) + ") " + BV(e->k[0]) + ")"; break;
    case O_FEQ: b = cmp("(fp.eq " + FP(e->k[0]) + " " + FP(e->k[1]) + ")"); break;
    case O_FLT: b = cmp("(fp.lt " + FP(e->k[0]) + " " + FP(e->k[1]) + ")"); break;
    case O_FLE: b = cmp("(fp.leq " + FP(e->k[0]) + " " + FP(e->k[1]) + ")"); break;
    case O_FISNAN: b = cmp("(fp.isNaN " + FP(e->k[0]) + ")"); break;
    case O_F2SI: b = "((_ fp.to_sbv " + std::to_string(e->w) + ") RTZ " + FP(e->k[0]) + ")"; break;
    case O_F2UI: b = "((_ fp.to_ubv " + std::to_string(e->w) + ") RTZ " + FP(e->k[0]) + ")"; break;
    default: { // bit pattern of an fp result: fresh variable tied by to_fp
      std::string f = FP(e), nm = "b" + std::to_string(e->id);
      defs << "(declare-const " << nm << " " << bsort(e->w) << ")\n(assert (= ((_ to_fp " << es(e->w) << ") " << nm << ") " << f << "))\n";
      return bv[e->id] = nm; }
    }
    return bv[e->id] = def(bsort(e->w), b);
  }
};

static bool parseModel(const std::string &out, const std::vector<int> &vars, Model &m) {
  for (int v : vars) {
    std::string key = "(v" + std::to_string(v) + " ";
    size_t p = out.find(key); if (p == std::string::npos) continue;
    p += key.size(); u128 x = 0;
    if (out[p] == '#' && out[p + 1] == 'b') for (p += 2; out[p] == '0' || out[p] == '1'; p++) x = (x << 1) | (out[p] - '0');
    else if (out[p] == '#' && out[p + 1] == 'x') for (p += 2; isxdigit(out[p]); p++) x = (x << 4) | (out[p] <= '9' ? out[p] - '0' : (out[p] | 32) - 'a' + 10);
    else return false;
    m.v[v] = x;
  }
  return true;
}

static Res portfolio(const std::vector<E> &slice, const std::vector<int> &vars, Model *out, int ms) {
  SS.portfolio++;
  Smt s; std::ostringstream as;
  for (E e : slice) { std::string b = s.B(e); as << "(assert " << b << ")\n"; }
  for (int v : vars) if (s.vars.insert(v).second) {}
  std::ostringstream full;
  full << "(set-option :produce-models true)\n(set-logic QF_BVFP)\n" << s.decl.str() << s.defs.str() << as.str() << "(check-sat)\n(get-value (";
  bool any = false; for (int v : vars) { full << "v" << v << " "; any = true; }
  full << "))\n(exit)\n";
  (void)any;
  char fn[64]; snprintf(fn, 64, "/tmp/symx_q_%d.smt2", (int)getpid());
  { std::ofstream f(fn); f << full.str(); }
  std::string t = std::to_string(ms / 1000 + 1);
  std::vector<std::vector<std::string>> cmds = {
    {"cvc5", "--lang=smt2", "--fp-exp", "--tlimit=" + std::to_string(ms), fn},
    {"z3-new", "-smt2", "-T:" + t, fn},
    {"z3", "-smt2", "-T:" + t, fn},
  };
  struct P { pid_t pid; int fd; std::string buf; bool done = false; };
  std::vector<P> ps;
  for (auto &c : cmds) {
    int pp[2]; if (pipe(pp)) continue;
    pid_t pid = fork();
    if (!pid) { dup2(pp[1], 1); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); close(pp[0]); close(pp[1]);
      std::vector<char *> av; for (auto &x : c) av.push_back((char *)x.c_str()); av.push_back(nullptr); execvp(av[0], av.data()); _exit(127); }
    close(pp[1]); P p; p.pid = pid; p.fd = pp[0]; ps.push_back(p);
  }
  Res r = R_UNKNOWN; double t0 = now(); size_t left = ps.size();
  while (left && r == R_UNKNOWN && now() - t0 < ms / 1000.0 + 3) {
    std::vector<pollfd> pf; std::vector<int> ix;
    for (size_t i = 0; i < ps.size(); i++) if (!ps[i].done) { pf.push_back({ps[i].fd, POLLIN, 0}); ix.push_back(i); }
    poll(pf.data(), pf.size(), 500);
    for (size_t j = 0; j < pf.size(); j++) if (pf[j].revents) {
      P &p = ps[ix[j]]; char b[65536]; ssize_t n = read(p.fd, b, sizeof b);
      if (n > 0) p.buf.append(b, n);
      else { p.done = true; left--;
        if (p.buf.compare(0, 5, "unsat") == 0) r = R_UNSAT;
        else if (p.buf.compare(0, 3, "sat") == 0 && p.buf.find("(error") == std::string::npos) { Model m; if (parseModel(p.buf, vars, m)) { r = R_SAT; if (out) for (auto &kv : m.v) out->v[kv.first] = kv.second; } }
        if (r != R_UNKNOWN) break; }
    }
  }
  for (auto &p : ps) { kill(p.pid, SIGKILL); close(p.fd); int st; waitpid(p.pid, &st, 0); }
  unlink(fn);
  return r;
}

// does e compute with FP operations beyond comparisons and conversions?  (z3 does not honour its timeout on those)
static bool hardFp(E e) {
  static std::unordered_map<E, bool> memo; if (!(e->fl & F_FP)) return false; auto it = memo.find(e); if (it != memo.end()) return it->second;
  bool r = e->op == O_FMUL || e->op == O_FDIV || e->op == O_FADD || e->op == O_FSUB || e->op == O_FSQRT || e->op == O_FMA || e->op == O_FRINT; for (int i = 0; !r && i < e->nk; i++) r = hardFp(e->k[i]);
  return memo[e] = r;
}
struct CacheEnt { Res r; std::shared_ptr<Model> m; };
static std::unordered_map<uint64_t, std::vector<std::pair<std::vector<uint32_t>, CacheEnt>>> cache;

// Truth tables: a constraint over one variable of at most 8 bits is its set of satisfying values, so a conjunction of such
// constraints is decided exactly by intersecting sets.  One in 512 of these verdicts is compared with z3.
struct Tab { uint64_t b[4]; };
static std::unordered_map<uint32_t, Tab> tabs;
static const Tab &table(E e, int var, unsigned w) {
  auto it = tabs.find(e->id); if (it != tabs.end()) return it->second;
  Tab t{}; Model m; u128 &v = m.v[var];
  for (unsigned x = 0; x < (1u << w); x++) { v = x; if (evalExpr(e, m)) t.b[x >> 6] |= 1ull << (x & 63); }
  return tabs[e->id] = t;
}
static E varNode(E e) { if (e->op == O_VAR) return e; for (int i = 0; i < e->nk; i++) if (E r = varNode(e->k[i])) return r; return nullptr; }

Res solve(const std::vector<E> &pc, E extra, const Model *base, Model *out) {
  if (isFalse(extra)) return R_UNSAT;
  init();
  // slice
  std::vector<E> slice{extra};
  std::vector<int> vars = exprVars(extra);
  std::vector<char> used(pc.size(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
      const auto &v = exprVars(pc[i]);
      bool hit = false;
      { auto a = v.begin(); auto b = vars.begin(); while (a != v.end() && b != vars.end()) { if (*a < *b) ++a; else if (*b < *a) ++b; else { hit = true; break; } } }
      if (hit) {
        used[i] = 1; slice.push_back(pc[i]);
        if (!std::includes(vars.begin(), vars.end(), v.begin(), v.end())) { std::vector<int> n; std::set_union(vars.begin(), vars.end(), v.begin(), v.end(), std::back_inserter(n)); vars.swap(n); ch = true; }
      }
    }
  }
  if (out && base) *out = *base;
  bool cross = false; Res tabRes = R_UNKNOWN;
  if (vars.size() == 1) {
    static std::unordered_map<int, unsigned> wd; auto wi = wd.find(vars[0]); if (wi == wd.end()) wi = wd.emplace(vars[0], varNode(extra)->w).first;
    if (wi->second <= 8) {
      Tab t{{~0ull, ~0ull, ~0ull, ~0ull}}; for (E e : slice) { const Tab &u = table(e, vars[0], wi->second); for (int i = 0; i < 4; i++) t.b[i] &= u.b[i]; }
      int x = -1; for (int i = 0; i < 4 && x < 0; i++) if (t.b[i]) x = i * 64 + __builtin_ctzll(t.b[i]);
      tabRes = x >= 0 ? R_SAT : R_UNSAT; SS.tableQueries++;
      if (SS.tableQueries % 512 == 1) { bool fp = false; for (E e : slice) if (e->fl & F_FP) fp = true; cross = !fp; }
      if (!cross) { if (x >= 0 && out) out->v[vars[0]] = x; return tabRes; }
    }
  }
  // cache
  std::vector<uint32_t> key; for (E e : slice) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  uint64_t h = 1469598103934665603ull; for (auto k : key) { h ^= k; h *= 1099511628211ull; h ^= h >> 31; }
  auto &bucket = cache[h];
  for (auto &e : bucket) if (e.first == key) { SS.cacheHits++; if (e.second.r == R_SAT && out) for (auto &kv : e.second.m->v) out->v[kv.first] = kv.second; return e.second.r; }
  double t0 = now();
  bool fp = false; for (E e : slice) if (e->fl & F_FP) fp = true;
  Res r; auto m = std::make_shared<Model>();
  SS.queries++;
  if (!fp) {
    slv->push();
    z3::params p(*ctx); p.set("timeout", (unsigned)optTimeoutMs); slv->set(p);
    for (E e : slice) slv->add(z3::expr(*ctx, toBool(e)));
    z3::check_result cr = z3::unknown;
    try { cr = slv->check(); } catch (z3::exception &ex) { if (getenv("SYMX_DBG")) fprintf(stderr, "z3 exc %s\n", ex.msg()); }
    if (cr == z3::unknown && getenv("SYMX_DBG")) fprintf(stderr, "z3 unknown %s\n", slv->reason_unknown().c_str());
    if (cr == z3::sat) {
      z3::model zm = slv->get_model();
      for (int v : vars) {
        E ve = nullptr; // find sort width through memo of the variable: ask z3 directly
        (void)ve;
        z3::func_decl d(*ctx);
        // iterate consts below instead
      }
      for (unsigned i = 0; i < zm.num_consts(); i++) {
        z3::func_decl d = zm.get_const_decl(i); std::string nm = d.name().str();
        if (nm[0] != 'v') continue;
        z3::expr val = zm.get_const_interp(d); if (!val.is_bv()) continue;
        u128 x = 0; uint64_t u;
        if (val.get_sort().bv_size() <= 64) { if (Z3_get_numeral_uint64(*ctx, val, &u)) x = u; }
        else { std::string ds = Z3_get_numeral_string(*ctx, val); for (char ch : ds) x = x * 10 + (ch - '0'); }
        m->v[atoi(nm.c_str() + 1)] = x;
      }
      for (int v : vars) if (!m->v.count(v)) m->v[v] = 0;
      r = R_SAT;
    } else r = cr == z3::unsat ? R_UNSAT : R_UNKNOWN;
    slv->pop();
    if (r == R_UNKNOWN) r = portfolio(slice, vars, m.get(), optTimeoutMs);
  } else {
    SS.fpQueries++;
    r = R_UNKNOWN;
    bool hard = false; for (E e : slice) if (hardFp(e)) hard = true;
    if (!hard) { // short in-process attempt
      z3::solver s2(*ctx, "QF_FPBV");
      z3::params p(*ctx); p.set("timeout", 3000u); s2.set(p);
      for (E e : slice) s2.add(z3::expr(*ctx, toBool(e)));
      z3::check_result cr = z3::unknown;
      try { cr = s2.check(); } catch (z3::exception &) {}
      if (cr == z3::unsat) r = R_UNSAT;
      else if (cr == z3::sat) {
        z3::model zm = s2.get_model();
        for (unsigned i = 0; i < zm.num_consts(); i++) {
          z3::func_decl d = zm.get_const_decl(i); std::string nm = d.name().str();
          if (nm[0] != 'v') continue;
          z3::expr val = zm.get_const_interp(d); if (!val.is_bv()) continue;
          uint64_t u; if (Z3_get_numeral_uint64(*ctx, val, &u)) m->v[atoi(nm.c_str() + 1)] = u;
        }
        for (int v : vars) if (!m->v.count(v)) m->v[v] = 0;
        r = R_SAT;
      }
    }
    if (r == R_UNKNOWN && hard) { bool proved = false; r = relaxFp(slice, vars, m.get(), 20000, proved); if (r == R_SAT) for (int v : vars) if (!m->v.count(v)) m->v[v] = 0; if (proved) SS.relaxed++; }
    if (r == R_UNKNOWN) r = portfolio(slice, vars, m.get(), optFpTimeoutMs);
  }
  double dt = now() - t0; SS.time += dt; if (dt > 2 && getenv("SYMX_SLOW")) { fprintf(stderr, "slow query %.1f s fp=%d r=%d\n", dt, (int)fp, (int)r); for (E e : slice) fprintf(stderr, "   %s\n", exprStr(e, 14).substr(0, 1500).c_str()); } if (fp) SS.fpTime += dt; if (dt > SS.maxTime) SS.maxTime = dt;
  if (r == R_SAT) { // validate the model against the encoding
    Model full; if (base) full = *base; for (auto &kv : m->v) full.v[kv.first] = kv.second;
    for (E e : slice) if (!evalExpr(e, full)) { if (!fp) { fprintf(stderr, "symx: model check failed: %s\n", exprStr(e).c_str()); } r = R_UNKNOWN; break; }
  }
  if (cross && r != R_UNKNOWN) { if (r != tabRes) { fprintf(stderr, "symx: truth table and z3 disagree: %s\n", exprStr(extra).c_str()); abort(); } SS.crossChecked++; }
  if (r == R_SAT) SS.sat++; else if (r == R_UNSAT) SS.unsat++; else SS.unknown++;
  bucket.push_back({key, {r, m}});
  if (r == R_SAT && out) for (auto &kv : m->v) out->v[kv.first] = kv.second;
  return r;
}
