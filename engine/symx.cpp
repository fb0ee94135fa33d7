// symx: a symbolic executor for LLVM 18 IR that decides every branch, memory access and assertion with z3.
//
//   symx MODULE.bc -entry F [-p NAME=VALUE]... [-time S] [-maxinstr N] [-maxviol N] [-seed N] [-samples N] [-dump DIR N] -out OUT.json
//
// All feasible paths of F are explored (no sampling, no merging); a path is a set of constraints over the symbolic
// input bytes.  Every data-dependent decision is a z3 query over all values of those bytes, so a run that ends with
// status "complete" has decided each check for every input within the harness' bounds.
#include <cmath>
#include <cstring>
#include "expr.h"
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>
#include <memory>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <random>
#include <chrono>
#include <fstream>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <unistd.h>
using namespace llvm;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
static double nowS() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }
[[noreturn]] static void die(const char* f, ...) { va_list a; va_start(a, f); fprintf(stderr, "symx: error: "); vfprintf(stderr, f, a); fprintf(stderr, "\n"); va_end(a); exit(2); }

// ------------------------------------------------------------------ values
struct V { const E* e = nullptr; u64 c = 0; u64 sh = 0; u8 w = 64; };     // e==null: concrete c.  sh: uninitialised bits
static inline V cv(u64 c, unsigned w) { V v; v.c = c & maskw(w); v.w = w; return v; }
static inline V ev_(const E* e) { V v; v.w = e->w; if (isK(e)) v.c = e->c; else v.e = e; return v; }
static inline const E* toE(const V& v) { return v.e ? v.e : K(v.c, v.w); }

// ------------------------------------------------------------------ memory objects
enum Region : u8 { HEAP, STACK, GLOBAL, FUNC };
struct Obj {
    Region reg; bool freed = false, ro = false; u8 owner = 0, defVal = 0, defSh = 0xFF;
    u64 size = 0; const E* sizeE = nullptr;
    std::vector<u8> val, sh, kind; std::map<u32, const E*> sym;
    std::string name;
    void ensure(u64 n) { if (val.size() < n) { val.resize(n, defVal); sh.resize(n, defSh); kind.resize(n, 0); } }
};
typedef std::shared_ptr<Obj> ObjP;

// ------------------------------------------------------------------ precompiled code
struct Fn; struct Ins {
    const Instruction* I; u32 op; int dst = -1; u8 w = 0; std::vector<int> a; std::vector<int> bb; int bbIdx = 0;
    u64 off = 0; std::vector<std::pair<int, u64>> idx; std::vector<u8> idxw; u64 sz = 0; Fn* callee = nullptr; int builtin = -1; int pred = 0; u32 iid = 0;
    std::vector<std::pair<u64, int>> cases; int nslots = 1; std::vector<std::vector<std::pair<int, int>>> phis; std::vector<u64> byval;
};
struct Fn { const Function* F; std::string name; bool compiled = false, ext = false, lib = false, names = false; std::vector<Ins> code; std::vector<int> bbStart; std::vector<V> pool; int nregs = 0, id = 0; u64 executed = 0; std::vector<int> args; std::vector<u64> byval; };

struct Frame { Fn* fn; int pc = 0, bb = 0; std::vector<V> regs; std::vector<u32> allocas; int ret = -1; bool entered = false, before = false; u64 savedStack = 0; std::vector<V> va; };
struct Inp { std::string name; u32 start, len; };
struct Obs { std::string name; std::vector<V> v; };
struct State {
    std::vector<Frame> st; std::vector<ObjP> objs; std::vector<const E*> cons; std::shared_ptr<const std::vector<u8>> model;
    std::vector<u8> fixed; u32 nsym = 0; u64 instrs = 0; std::vector<Inp> inputs; std::vector<Obs> obs; u64 stackBytes = 0; std::vector<u32> reached, spare; u32 choiceDepth = 0; u64 shardCode = 0;
    // two threads: tid is the one that runs (0: none).  blocks: basic blocks of the library entered so far; sched: who was first, and at which of them the other thread took over
    int tid = 0, switches = 0; bool shared = false; u32 blocks = 0; u64 otherStack = 0, mainStack = 0; std::vector<Frame> other, mainSt; std::vector<u32> sched; std::vector<ObjP> tlsOther, tlsMain;
};
static std::set<std::string> libNames; static std::set<u32> libGlobals; static std::vector<u32> tlsGlobals; static std::vector<std::shared_ptr<Obj>> tlsInit; static int maxSwitches = 2, forceShared = 0;
// ------------------------------------------------------------------ globals
static u64 shardN = 1, shardI = 0, shardDepth = 2, nOther = 0;
static u64 mix(u64 x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return x; }
static LLVMContext C; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::map<const Function*, Fn*> fnMap; static std::map<std::string, Fn*> fnByName; static std::map<u32, Fn*> fnByObj;
static std::map<const GlobalValue*, u32> gObj; static std::vector<ObjP> initObjs;
static std::map<std::string, long> params; static std::set<std::string> paramsUsed;
static std::vector<std::string> labels; static std::map<std::string, u64> reachCount;
static u64 nPaths = 0, nForks = 0, nInstr = 0, nQueries = 0, nZ3 = 0, nSat = 0, nUnsat = 0, nAsserts = 0, nMemQ = 0, nPruned = 0, nConcret = 0, nAssume0 = 0; static double solverS = 0, maxQ = 0;
static double tStart, timeLimit = 600; static u64 maxInstr = 30000000; static int maxViol = 6; static u64 seed = 1; static int nSamples = 8; static std::string dumpDir; static int dumpN = 0; static u64 stackLimit = 8u << 20;
static std::string statusS = "complete"; static u64 concretCap = 20000;

// ------------------------------------------------------------------ solver
static Z3_context zc; static Z3_solver zs; static std::unordered_map<const E*, Z3_ast> lits; static u64 zCount = 0;
static std::vector<const E*> litKeep;
static Z3_ast zExpr(const E* e) {
    if (e->z) return (Z3_ast)e->z;
    Z3_ast r; auto A = [&](const E* x) { return zExpr(x); };
    auto b2bv = [&](Z3_ast b) { return Z3_mk_ite(zc, b, Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1)), Z3_mk_unsigned_int64(zc, 0, Z3_mk_bv_sort(zc, 1))); };
    switch (e->op) {
    case CONST: r = Z3_mk_unsigned_int64(zc, e->c, Z3_mk_bv_sort(zc, e->w)); break;
    case SYM: { char n[32]; snprintf(n, 32, "x%u", (u32)e->c); r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, n), Z3_mk_bv_sort(zc, 8)); break; }
    case ADD: r = Z3_mk_bvadd(zc, A(e->a), A(e->b)); break; case SUB: r = Z3_mk_bvsub(zc, A(e->a), A(e->b)); break;
    case MUL: r = Z3_mk_bvmul(zc, A(e->a), A(e->b)); break; case UDIV: r = Z3_mk_bvudiv(zc, A(e->a), A(e->b)); break;
    case SDIV: r = Z3_mk_bvsdiv(zc, A(e->a), A(e->b)); break; case UREM: r = Z3_mk_bvurem(zc, A(e->a), A(e->b)); break;
    case SREM: r = Z3_mk_bvsrem(zc, A(e->a), A(e->b)); break; case AND: r = Z3_mk_bvand(zc, A(e->a), A(e->b)); break;
    case OR: r = Z3_mk_bvor(zc, A(e->a), A(e->b)); break; case XOR: r = Z3_mk_bvxor(zc, A(e->a), A(e->b)); break;
    case SHL: r = Z3_mk_bvshl(zc, A(e->a), A(e->b)); break; case LSHR: r = Z3_mk_bvlshr(zc, A(e->a), A(e->b)); break;
    case ASHR: r = Z3_mk_bvashr(zc, A(e->a), A(e->b)); break; case CONCAT: r = Z3_mk_concat(zc, A(e->a), A(e->b)); break;
    case EXTRACT: r = Z3_mk_extract(zc, e->c + e->w - 1, e->c, A(e->a)); break;
    case ZEXT: r = Z3_mk_zero_ext(zc, e->w - e->a->w, A(e->a)); break; case SEXT: r = Z3_mk_sign_ext(zc, e->w - e->a->w, A(e->a)); break;
    case EQ: r = b2bv(Z3_mk_eq(zc, A(e->a), A(e->b))); break; case ULT: r = b2bv(Z3_mk_bvult(zc, A(e->a), A(e->b))); break;
    case ULE: r = b2bv(Z3_mk_bvule(zc, A(e->a), A(e->b))); break; case SLT: r = b2bv(Z3_mk_bvslt(zc, A(e->a), A(e->b))); break;
    case SLE: r = b2bv(Z3_mk_bvsle(zc, A(e->a), A(e->b))); break;
    case ITE: r = Z3_mk_ite(zc, Z3_mk_eq(zc, A(e->a), Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1))), A(e->b), A(e->d)); break;
    default: die("zExpr");
    }
    Z3_inc_ref(zc, r); e->z = r; return r;
}
static Z3_ast zBool(const E* e) { return Z3_mk_eq(zc, zExpr(e), Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1))); }
static void zReset() {
    if (zs) Z3_solver_dec_ref(zc, zs);
    zs = Z3_mk_simple_solver(zc); Z3_solver_inc_ref(zc, zs); lits.clear(); zCount = 0;
}
static void zErr(Z3_context c, Z3_error_code e) { die("z3: %s", Z3_get_error_msg(c, e)); }
struct QRes { bool sat; std::vector<std::pair<u32, u8>> m; };
struct VHash { size_t operator()(const std::vector<u32>& v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
static std::unordered_map<std::vector<u32>, QRes, VHash> qcache;
static u64 dumpCtr = 0; static int dumped = 0;

static const QRes& query(const std::vector<const E*>& set) {          // set: slice + condition, all must hold
    std::vector<u32> key; for (auto* e : set) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    nQueries++;
    auto it = qcache.find(key); if (it != qcache.end()) return it->second;
    double t0 = nowS();
    if (++zCount > 250) zReset();
    std::vector<Z3_ast> as;
    for (u32 id : key) {
        const E* e = g_all[id]; auto l = lits.find(e);
        if (l == lits.end()) {
            char n[32]; snprintf(n, 32, "L%u", id); Z3_ast p = Z3_mk_const(zc, Z3_mk_string_symbol(zc, n), Z3_mk_bool_sort(zc)); Z3_inc_ref(zc, p);
            Z3_solver_assert(zc, zs, Z3_mk_implies(zc, p, zBool(e))); l = lits.emplace(e, p).first;
        }
        as.push_back(l->second);
    }
    Z3_lbool r = Z3_solver_check_assumptions(zc, zs, as.size(), as.data());
    if (r == Z3_L_UNDEF) die("solver returned unknown");
    QRes q; q.sat = r == Z3_L_TRUE;
    if (q.sat) {
        nSat++; Z3_model m = Z3_solver_get_model(zc, zs); Z3_model_inc_ref(zc, m);
        std::vector<u32> vs; for (auto* e : set) { auto& v = varsOf(e); vs.insert(vs.end(), v.begin(), v.end()); }
        std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
        for (u32 v : vs) { Z3_ast o; u64 x = 0; if (!Z3_model_eval(zc, m, zExpr(mk(SYM, 8, v)), true, &o)) die("model"); Z3_inc_ref(zc, o); if (!Z3_get_numeral_uint64(zc, o, (uint64_t*)&x)) die("numeral"); Z3_dec_ref(zc, o); q.m.push_back({v, (u8)x}); }
        Z3_model_dec_ref(zc, m);
        std::vector<u8> chk; for (auto& p : q.m) { if (chk.size() <= p.first) chk.resize(p.first + 1); chk[p.first] = p.second; }
        for (auto* e : set) if (!evalE(e, chk)) die("model does not satisfy a constraint");   // engine/solver cross-check
    } else nUnsat++;
    nZ3++; double dt = nowS() - t0; solverS += dt; if (dt > maxQ) maxQ = dt;
    if (dumpN && dumped < dumpN && (dumpCtr++ % 97) == seed % 97) {
        Z3_solver s2 = Z3_mk_solver(zc); Z3_solver_inc_ref(zc, s2); for (u32 id : key) Z3_solver_assert(zc, s2, zBool(g_all[id]));
        char fn[512]; snprintf(fn, 512, "%s/q%d_%s.smt2", dumpDir.c_str(), dumped++, q.sat ? "sat" : "unsat"); std::ofstream f(fn);
        f << "(set-logic QF_BV)\n" << Z3_solver_to_string(zc, s2) << "(check-sat)\n"; Z3_solver_dec_ref(zc, s2);
    }
    return qcache.emplace(std::move(key), std::move(q)).first->second;
}
static void slice(const State& s, const E* cond, std::vector<const E*>& out) {
    std::vector<u8> in(s.nsym, 0); std::vector<u8> used(s.cons.size(), 0); bool ch = true;
    for (u32 v : varsOf(cond)) in[v] = 1;
    out.push_back(cond);
    while (ch) { ch = false;
        for (size_t i = 0; i < s.cons.size(); i++) if (!used[i]) {
            bool hit = false; for (u32 v : varsOf(s.cons[i])) if (in[v]) { hit = true; break; }
            if (hit) { used[i] = 1; ch = true; out.push_back(s.cons[i]); for (u32 v : varsOf(s.cons[i])) in[v] = 1; }
        } }
}
static bool allFixed(const State& s, const E* e) { for (u32 v : varsOf(e)) if (!s.fixed[v]) return false; return true; }
// is cond satisfiable together with the path constraints?  on success *m is a model
static bool feasible(State& s, const E* cond, std::shared_ptr<const std::vector<u8>>* m) {
    if (isK(cond)) { if (m) *m = s.model; return cond->c; }
    if (evalE(cond, *s.model)) { if (m) *m = s.model; return true; }
    if (allFixed(s, cond)) return false;
    std::vector<const E*> set; slice(s, cond, set); const QRes& q = query(set);
    if (!q.sat) return false;
    if (m) { auto nm = std::make_shared<std::vector<u8>>(*s.model); for (auto& p : q.m) (*nm)[p.first] = p.second; *m = nm; }
    return true;
}
static void addCons(State& s, const E* c) {
    if (isK(c)) return;
    if (c->op == AND && c->w == 1) { addCons(s, c->a); addCons(s, c->b); return; }
    if (c->op == EQ && c->a->op == SYM && isK(c->b)) s.fixed[c->a->c] = 1;
    for (auto* x : s.cons) if (x == c) return;
    s.cons.push_back(c);
}

// ------------------------------------------------------------------ violations
struct Viol { std::string kind, msg, loc; std::vector<u32> sched; std::vector<std::string> stack; std::vector<Inp> inputs; std::vector<u8> bytes; };
static std::vector<Viol> viols; static std::set<std::string> violKeys; static u64 violTotal = 0;
static std::string locOf(const Instruction* I) {
    if (!I) return "?"; if (auto d = I->getDebugLoc()) { std::string f = d->getFilename().str(); return f + ":" + std::to_string(d.getLine()); } return I->getFunction()->getName().str();
}
static void report(State& s, const std::string& kind, const std::string& msg, const std::vector<u8>& model) {
    violTotal++;
    Viol v; v.kind = kind; v.msg = msg; v.sched = s.sched;
    for (int i = (int)s.st.size() - 1; i >= 0; i--) { auto& f = s.st[i]; v.stack.push_back(f.fn->name + " " + locOf(f.fn->code[f.pc].I)); }
    v.loc = v.stack.empty() ? "?" : v.stack[0]; v.inputs = s.inputs; v.bytes.assign(model.begin(), model.begin() + std::min<size_t>(model.size(), s.nsym)); v.bytes.resize(s.nsym);
    std::string key = kind + "|" + msg + "|" + v.loc; if (violKeys.count(key)) return; violKeys.insert(key);
    viols.push_back(v);
}
struct PathEnd { };                                          // thrown when the current path stops
static std::vector<State*> work; static State* cur;
[[noreturn]] static void endPath() { throw PathEnd(); }
static std::map<std::string, u64> forkAt; static const bool forkStats = getenv("SYMX_STATS") != nullptr;
static std::string locOf(const Instruction* I);
static State* forkState(State& s) { nForks++; if (forkStats) { Frame& f = s.st.back(); forkAt[f.fn->name + " " + locOf(f.fn->code[f.pc].I)]++; } return new State(s); }

// make sure cond holds on this path; if its negation is feasible report `kind` with that model
static void require(State& s, const E* cond, const char* kind, const std::string& msg) {
    if (isK(cond, 1)) return;
    std::shared_ptr<const std::vector<u8>> m; nMemQ++;
    if (feasible(s, eNot(cond), &m)) {
        report(s, kind, msg, *m);
        if (!feasible(s, cond, &m)) endPath();
        s.model = m;
    }
    addCons(s, cond);
}
// branch on a condition at the current instruction: the sibling re-executes the instruction with the negation known
static bool decide(State& s, const E* cond) {
    if (isK(cond)) return cond->c;
    bool v = evalE(cond, *s.model); const E* me = v ? cond : eNot(cond); const E* other = eNot(me);
    std::shared_ptr<const std::vector<u8>> m;
    if (feasible(s, other, &m)) { State* o = forkState(s); addCons(*o, other); o->model = m; o->instrs--; work.push_back(o); }
    addCons(s, me); return v;
}
static u64 concretise(State& s, const V& v) {
    if (!v.e) return v.c;
    u64 x = evalE(v.e, *s.model);
    if (allFixed(s, v.e)) return x;
    const E* eq = eBin(EQ, v.e, K(x, v.w)); const E* ne = eNot(eq); std::shared_ptr<const std::vector<u8>> m;
    if (feasible(s, ne, &m)) { State* o = forkState(s); addCons(*o, ne); o->model = m; o->instrs--; work.push_back(o); if (++nConcret > concretCap * 100) die("too many concretisations"); }
    addCons(s, eq); return x;
}
static void needInit(State& s, const V& v, const char* what) { if (v.sh) { report(s, "uninitialised", std::string("use of an uninitialised value in ") + what, *s.model); endPath(); } }

// ------------------------------------------------------------------ memory access
static Obj& wr(State& s, u32 id) { ObjP& p = s.objs[id]; if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return *p; }
static u32 newObj(State& s, Region r, u64 size, const E* sizeE, const char* name) {
    auto o = std::make_shared<Obj>(); o->reg = r; o->size = size; o->sizeE = sizeE; o->name = name; o->owner = s.tid; s.objs.push_back(o); return s.objs.size() - 1;
}
static inline u64 addrOf(u32 id) { return ((u64)id + 1) << 32; }
static const E* sizeOf(const Obj& o) { return o.sizeE ? o.sizeE : K(o.size, 64); }
// address of n accessible bytes -> object and concrete offset; reports violations
static u32 access(State& s, const V& addr, u64 n, bool write, u64& off, const char* what) {
    needInit(s, addr, what); u64 a;
    if (addr.e) {
        u64 x = evalE(addr.e, *s.model); u64 slot = x >> 32;
        if (!decide(s, eBin(EQ, eExtract(addr.e, 32, 32), K(slot, 32)))) { }
        x = evalE(addr.e, *s.model); slot = x >> 32;
        if (slot && slot - 1 < s.objs.size() && !s.objs[slot - 1]->freed) {
            const E* o64 = eZext(eExtract(addr.e, 0, 32), 64); const Obj& o = *s.objs[slot - 1];
            const E* sz = sizeOf(o);
            const E* ok = isK(sz) ? (sz->c >= n ? eBin(ULE, o64, K(sz->c - n, 64)) : K(0, 1)) : eAnd(eBin(ULE, K(n, 64), sz), eBin(ULE, o64, eBin(SUB, sz, K(n, 64))));
            require(s, ok, "memory", std::string("out-of-bounds ") + what + " of " + std::to_string(n) + " bytes, object " + o.name);
        }
        a = concretise(s, addr);
    } else a = addr.c;
    u64 slot = a >> 32; off = a & 0xffffffff;
    if (slot == 0) { report(s, "memory", std::string("null or wild pointer ") + what, *s.model); endPath(); }
    if (slot - 1 >= s.objs.size()) { report(s, "memory", std::string("wild pointer ") + what, *s.model); endPath(); }
    u32 id = slot - 1; const Obj& o = *s.objs[id];
    if (o.reg == FUNC) { report(s, "memory", std::string("data access to function ") + what, *s.model); endPath(); }
    if (o.freed) { report(s, "memory", std::string(o.reg == HEAP ? "use after free " : "use after return ") + what + ", object " + o.name, *s.model); endPath(); }
    if (!o.sizeE) { if (off + n > o.size) { report(s, "memory", std::string("out-of-bounds ") + what + " of " + std::to_string(n) + " bytes, object " + o.name, *s.model); endPath(); } }
    else { if (n) require(s, eBin(ULE, K(off + n, 64), o.sizeE), "memory", std::string("out-of-bounds ") + what + " of " + std::to_string(n) + " bytes, object " + o.name); }
    if (s.tid && !s.shared && s.st.back().fn->lib && (o.reg == GLOBAL ? !o.ro && libGlobals.count(id) : o.reg == HEAP && o.owner != s.tid)) s.shared = true;
    if (write && o.ro) { report(s, "memory", std::string("write to read-only object ") + o.name, *s.model); endPath(); }
    return id;
}
static inline V loadByte(const Obj& o, u64 off) {
    V v; v.w = 8; if (off >= o.val.size()) { v.c = o.defVal; v.sh = o.defSh; return v; }
    v.sh = o.sh[off]; if (o.kind[off]) v.e = o.sym.at(off); else v.c = o.val[off]; return v;
}
static V loadN(const Obj& o, u64 off, unsigned bytes, unsigned w) {
    V r; r.w = w; bool conc = true;
    for (unsigned i = 0; i < bytes; i++) { u64 p = off + i; if (p < o.kind.size() && o.kind[p]) { conc = false; break; } }
    for (unsigned i = 0; i < bytes; i++) { u64 p = off + i; r.sh |= (u64)(p < o.sh.size() ? o.sh[p] : o.defSh) << (8 * i); }
    r.sh &= maskw(w);
    if (conc) { u64 c = 0; for (unsigned i = 0; i < bytes; i++) { u64 p = off + i; c |= (u64)(p < o.val.size() ? o.val[p] : o.defVal) << (8 * i); } r.c = c & maskw(w); return r; }
    const E* e = nullptr;
    for (unsigned i = 0; i < bytes; i++) { const E* b = toE(loadByte(o, off + i)); e = e ? eConcat(b, e) : b; }
    if (e->w > w) e = eExtract(e, 0, w);
    u64 sh = r.sh; r = ev_(e); r.sh = sh; return r;
}
// a load at a symbolic index of a small constant table: one expression instead of a split into the values of the index
static bool tableLoad(State& s, const V& addr, u64 n, unsigned w, V& r) {
    if (addr.sh || w > 64) return false; u64 x = evalE(addr.e, *s.model), slot = x >> 32; if (!slot || slot - 1 >= s.objs.size()) return false;
    { const Obj& o = *s.objs[slot - 1]; if (!o.ro || o.freed || o.reg == FUNC || o.sizeE || o.size < n || o.size > 4096 || o.size / n > 1024 || (x & 0xffffffff) % n) return false; }
    if (feasible(s, eNot(eBin(EQ, eExtract(addr.e, 32, 32), K(slot, 32))), nullptr)) return false;
    const Obj& o = *s.objs[slot - 1]; const E* o32 = eExtract(addr.e, 0, 32);
    if (n > 1 && feasible(s, eNot(eBin(EQ, eBin(UREM, o32, K(n, 32)), K(0, 32))), nullptr)) return false;
    require(s, eBin(ULE, o32, K(o.size - n, 32)), "memory", std::string("out-of-bounds read of ") + std::to_string(n) + " bytes, object " + o.name);
    u64 last = o.size / n - 1; V v = loadN(o, last * n, n, w); if (v.sh) return false; const E* e = toE(v);
    for (u64 k = last; k-- > 0;) { v = loadN(o, k * n, n, w); if (v.sh) return false; const E* c = toE(v); if (c != e) e = eIte(eBin(EQ, o32, K(k * n, 32)), c, e); }
    r = ev_(e); r.w = w; return true;
}
static inline void storeByte(Obj& o, u64 off, const V& v) {
    o.ensure(off + 1); o.sh[off] = v.sh;
    if (v.e) { o.kind[off] = 1; o.sym[off] = v.e; } else { if (o.kind[off]) { o.kind[off] = 0; o.sym.erase(off); } o.val[off] = v.c; }
}
static void storeN(Obj& o, u64 off, const V& v, unsigned bytes) {
    o.ensure(off + bytes);
    if (!v.e) { for (unsigned i = 0; i < bytes; i++) { u64 p = off + i; if (o.kind[p]) { o.kind[p] = 0; o.sym.erase(p); } o.val[p] = v.c >> (8 * i); o.sh[p] = v.sh >> (8 * i); } return; }
    const E* e = v.e; if (e->w < bytes * 8) e = eZext(e, bytes * 8);
    for (unsigned i = 0; i < bytes; i++) { V b = ev_(eExtract(e, 8 * i, 8)); b.sh = (v.sh >> (8 * i)) & 0xff; storeByte(o, off + i, b); }
}
static void copyBytes(State& s, u32 d, u64 doff, u32 q, u64 soff, u64 n) {
    if (!n) return;
    Obj& D = wr(s, d); ObjP sp = s.objs[q]; const Obj& S = *sp; D.ensure(doff + n);
    std::vector<u8> tv(n), ts(n), tk(n); std::vector<std::pair<u32, const E*>> syms;
    u64 have = S.val.size() > soff ? std::min<u64>(n, S.val.size() - soff) : 0;
    if (have) { memcpy(&tv[0], &S.val[soff], have); memcpy(&ts[0], &S.sh[soff], have); memcpy(&tk[0], &S.kind[soff], have); }
    for (u64 i = have; i < n; i++) { tv[i] = S.defVal; ts[i] = S.defSh; tk[i] = 0; }
    for (auto it = S.sym.lower_bound(soff); it != S.sym.end() && it->first < soff + n; ++it) syms.push_back({it->first - soff, it->second});
    for (auto it = D.sym.lower_bound(doff); it != D.sym.end() && it->first < doff + n;) it = D.sym.erase(it);
    memcpy(&D.val[doff], &tv[0], n); memcpy(&D.sh[doff], &ts[0], n); memcpy(&D.kind[doff], &tk[0], n);
    for (auto& p : syms) D.sym[doff + p.first] = p.second;
}
static std::string cstr(State& s, const V& p) {              // concrete C string (harness literals)
    std::string r; V a = p;
    for (;;) { u64 off; u32 id = access(s, a, 1, false, off, "read"); V b = loadByte(*s.objs[id], off); if (b.e) return r; if (!b.c) return r; r += (char)b.c; a.c++; }
}

// ------------------------------------------------------------------ compilation of IR
static unsigned widthOf(Type* t) { if (t->isPointerTy() || t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) die("integer wider than 64 bits"); return w; } die("unsupported type"); }
static int slotsOf(Type* t) { if (t->isVoidTy()) return 0; if (auto* st = dyn_cast<StructType>(t)) { int n = 0; for (auto* e : st->elements()) n += slotsOf(e); return n; } if (auto* at = dyn_cast<ArrayType>(t)) return slotsOf(at->getElementType()) * at->getNumElements(); return 1; }
static void leaves(Type* t, u64 off, std::vector<std::pair<int, u64>>& out) {   // (width, offset) of the scalars of an aggregate
    if (auto* st = dyn_cast<StructType>(t)) { auto* l = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + l->getElementOffset(i), out); }
    else if (auto* at = dyn_cast<ArrayType>(t)) { u64 z = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * z, out); }
    else out.push_back({(int)widthOf(t), off});
}
static u32 globalObj(const GlobalValue* g);
static u64 constVal(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) die("wide constant"); return ci->getZExtValue(); }
    if (isa<ConstantPointerNull>(c)) return 0;
    if (isa<UndefValue>(c)) return 0;
    if (auto* cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
    if (auto* g = dyn_cast<GlobalValue>(c)) return addrOf(globalObj(g));
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (auto* gep = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) die("constant gep"); return constVal(cast<Constant>(gep->getPointerOperand())) + off.getSExtValue(); }
        switch (ce->getOpcode()) {
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return constVal(ce->getOperand(0)) & maskw(widthOf(ce->getType()));
        case Instruction::Trunc: return constVal(ce->getOperand(0)) & maskw(widthOf(ce->getType()));
        case Instruction::Sub: return constVal(ce->getOperand(0)) - constVal(ce->getOperand(1));
        case Instruction::Add: return constVal(ce->getOperand(0)) + constVal(ce->getOperand(1));
        default: die("unsupported constant expression");
        }
    }
    die("unsupported constant");
}
static void initMem(Obj& o, u64 off, const Constant* c) {
    Type* t = c->getType(); u64 sz = DL->getTypeAllocSize(t);
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { o.ensure(off + sz); for (u64 i = 0; i < sz; i++) storeByte(o, off + i, cv(0, 8)); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { u64 es = cd->getElementByteSize(); for (unsigned i = 0; i < cd->getNumElements(); i++) storeN(o, off + i * es, cv(cd->getElementType()->isIntegerTy() ? cd->getElementAsInteger(i) : cd->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue(), 64), es); return; }
    if (auto* ca = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initMem(o, off + i * es, ca->getOperand(i)); return; }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(cs->getType()); o.ensure(off + sz); for (u64 i = 0; i < sz; i++) storeByte(o, off + i, cv(0, 8)); for (unsigned i = 0; i < cs->getNumOperands(); i++) initMem(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
    if (t->isFloatTy() || t->isDoubleTy()) { storeN(o, off, cv(cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt().getZExtValue(), 64), sz); return; }
    storeN(o, off, cv(constVal(c), 64), sz);
}
static Fn* getFn(const Function* F) { auto& p = fnMap[F]; if (!p) { p = new Fn; p->F = F; p->name = F->getName().str(); p->ext = F->isDeclaration(); p->id = fnMap.size(); fnByName[p->name] = p; } return p; }
static u32 globalObj(const GlobalValue* g) {
    auto it = gObj.find(g); if (it != gObj.end()) return it->second;
    auto o = std::make_shared<Obj>(); u32 id = initObjs.size(); initObjs.push_back(o); gObj[g] = id; o->name = g->getName().str();
    if (auto* f = dyn_cast<Function>(g)) { o->reg = FUNC; o->size = 1; fnByObj[id] = getFn(f); return id; }
    auto* v = dyn_cast<GlobalVariable>(g); if (!v) die("unsupported global %s", o->name.c_str());
    o->reg = GLOBAL; o->size = DL->getTypeAllocSize(v->getValueType()); o->defSh = 0; o->defVal = 0;
    if (v->hasInitializer() && !isa<ConstantAggregateZero>(v->getInitializer())) initMem(*o, 0, v->getInitializer());
    o->ro = v->isConstant(); return id;
}
enum { BI_NONE = -1 };
static std::map<std::string, int> builtinIds; static std::vector<std::function<bool(State&, Ins&, std::vector<V>&, V&)>> builtins;
static void compile(Fn* f) {
    if (f->compiled) return; f->compiled = true; const Function& F = *f->F;
    std::map<const Value*, int> slot; std::map<const BasicBlock*, int> bbs; int n = 0;
    for (auto& a : F.args()) { slot[&a] = n; f->args.push_back(n); f->byval.push_back(a.hasByValAttr() ? DL->getTypeAllocSize(a.getParamByValType()) : 0); n += slotsOf(a.getType()); }
    int b = 0; for (auto& B : F) { bbs[&B] = b++; for (auto& I : B) { int k = slotsOf(I.getType()); if (k) { slot[&I] = n; n += k; } } }
    f->nregs = n;
    auto opnd = [&](const Value* v) -> int {
        if (auto* c = dyn_cast<Constant>(v)) {
            if (c->getType()->isVectorTy()) die("vector constant in %s", f->name.c_str());
            if (slotsOf(c->getType()) != 1) { int first = f->pool.size(); for (int i = 0; i < slotsOf(c->getType()); i++) f->pool.push_back(cv(0, 64)); if (!isa<UndefValue>(c) && !isa<ConstantAggregateZero>(c)) die("aggregate constant operand"); return ~first; }
            V x = cv(constVal(c), widthOf(c->getType())); if (isa<UndefValue>(c)) x.sh = maskw(x.w); f->pool.push_back(x); return ~(int)(f->pool.size() - 1);
        }
        auto it = slot.find(v); if (it == slot.end()) die("operand without slot in %s", f->name.c_str()); return it->second;
    };
    f->bbStart.resize(bbs.size());
    for (auto& B : F) {
        f->bbStart[bbs[&B]] = f->code.size(); bool first = true;
        for (auto& I : B) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            Ins n; n.I = &I; n.op = I.getOpcode(); if (slot.count(&I)) n.dst = slot[&I]; n.nslots = slotsOf(I.getType());
            if (isa<PHINode>(I)) {
                if (!first) continue; Ins p; p.I = &I; p.op = Instruction::PHI; p.phis.resize(bbs.size());
                for (auto& ph : B.phis()) { if (slotsOf(ph.getType()) != 1) die("aggregate phi"); for (unsigned i = 0; i < ph.getNumIncomingValues(); i++) p.phis[bbs[ph.getIncomingBlock(i)]].push_back({slot[&ph], opnd(ph.getIncomingValue(i))}); }
                f->code.push_back(p); first = false; continue;
            }
            first = false;
            if (n.nslots == 1 && !I.getType()->isStructTy()) { if (I.getType()->isVectorTy()) die("vector value in %s", f->name.c_str()); n.w = widthOf(I.getType()); }
            switch (I.getOpcode()) {
            case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); n.sz = DL->getTypeAllocSize(A.getAllocatedType()); n.a = {opnd(A.getArraySize())}; break; }
            case Instruction::Load: n.a = {opnd(I.getOperand(0))}; if (n.nslots != 1) leaves(I.getType(), 0, n.idx); n.sz = DL->getTypeStoreSize(I.getType()); break;
            case Instruction::Store: n.a = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; if (slotsOf(I.getOperand(0)->getType()) != 1) leaves(I.getOperand(0)->getType(), 0, n.idx); n.sz = DL->getTypeStoreSize(I.getOperand(0)->getType()); break;
            case Instruction::GetElementPtr: {
                auto& G = cast<GetElementPtrInst>(I); n.a = {opnd(G.getPointerOperand())};
                for (auto gi = gep_type_begin(G); gi != gep_type_end(G); ++gi) {
                    Value* op = gi.getOperand();
                    if (auto* st = gi.getStructTypeOrNull()) n.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue());
                    else { u64 es = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(op)) n.off += (u64)(ci->getSExtValue() * (int64_t)es); else { n.idx.push_back({opnd(op), es}); n.idxw.push_back(widthOf(op->getType())); } }
                } break; }
            case Instruction::Br: { auto& R = cast<BranchInst>(I); if (R.isConditional()) n.a = {opnd(R.getCondition())}; for (unsigned i = 0; i < R.getNumSuccessors(); i++) n.bb.push_back(bbs[R.getSuccessor(i)]); break; }
            case Instruction::Switch: { auto& S = cast<SwitchInst>(I); n.a = {opnd(S.getCondition())}; n.bb = {bbs[S.getDefaultDest()]}; for (auto& c : S.cases()) n.cases.push_back({c.getCaseValue()->getZExtValue(), bbs[c.getCaseSuccessor()]}); break; }
            case Instruction::Ret: if (auto* v = cast<ReturnInst>(I).getReturnValue()) { n.a = {opnd(v)}; n.nslots = slotsOf(v->getType()); } else n.nslots = 0; break;
            case Instruction::Call: {
                auto& K_ = cast<CallInst>(I); if (K_.isInlineAsm()) die("inline asm");
                for (auto& a : K_.args()) { if (a->getType()->isMetadataTy()) { n.a.push_back(0); continue; } if (slotsOf(a->getType()) != 1) die("aggregate argument"); n.a.push_back(opnd(a)); }
                for (unsigned i = 0; i < K_.arg_size(); i++) n.byval.push_back(K_.isByValArgument(i) ? DL->getTypeAllocSize(K_.getParamByValType(i)) : 0);
                if (auto* cf = K_.getCalledFunction()) { n.callee = getFn(cf); if (cf->isIntrinsic()) n.iid = cf->getIntrinsicID(); } else n.a.push_back(opnd(K_.getCalledOperand()));
                break; }
            case Instruction::ICmp: n.pred = cast<ICmpInst>(I).getPredicate(); n.a = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; break;
            case Instruction::ExtractValue: { auto& X = cast<ExtractValueInst>(I); Type* t = X.getAggregateOperand()->getType(); int o = 0; for (unsigned ix : X.indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) o += slotsOf(st->getElementType(i)); t = st->getElementType(ix); } else { auto* at = cast<ArrayType>(t); o += ix * slotsOf(at->getElementType()); t = at->getElementType(); } } int base = opnd(X.getAggregateOperand()); n.a = {base}; n.off = o; break; }
            case Instruction::InsertValue: { auto& X = cast<InsertValueInst>(I); Type* t = X.getAggregateOperand()->getType(); int o = 0; for (unsigned ix : X.indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) o += slotsOf(st->getElementType(i)); t = st->getElementType(ix); } else { auto* at = cast<ArrayType>(t); o += ix * slotsOf(at->getElementType()); t = at->getElementType(); } } n.a = {opnd(X.getAggregateOperand()), opnd(X.getInsertedValueOperand())}; n.off = o; n.sz = slotsOf(X.getInsertedValueOperand()->getType()); break; }
            case Instruction::Unreachable: break;
            case Instruction::FCmp: n.pred = cast<FCmpInst>(I).getPredicate(); n.a = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; break;
            case Instruction::AtomicRMW: n.pred = cast<AtomicRMWInst>(I).getOperation(); n.sz = DL->getTypeStoreSize(I.getType()); n.a = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; break;
            case Instruction::AtomicCmpXchg: n.sz = DL->getTypeStoreSize(I.getOperand(1)->getType()); n.w = 0; n.a = {opnd(I.getOperand(0)), opnd(I.getOperand(1)), opnd(I.getOperand(2))}; break;
            default:
                for (auto& o : I.operands()) n.a.push_back(opnd(o)); break;
            }
            f->code.push_back(n);
        }
    }
    for (auto& i : f->code) i.bbIdx = bbs[i.I->getParent()];
}

// ------------------------------------------------------------------ operations
static V binop(State& s, unsigned op, const V& a, const V& b) {
    V r; r.w = a.w; u64 m = maskw(a.w), sh = 0;
    if (a.sh | b.sh) switch (op) {
    case Instruction::And: sh = (a.sh & b.sh) | (a.sh & (b.e ? m : b.c)) | (b.sh & (a.e ? m : a.c)); break;
    case Instruction::Or: sh = (a.sh & b.sh) | (a.sh & (b.e ? m : ~b.c)) | (b.sh & (a.e ? m : ~a.c)); break;
    case Instruction::Xor: sh = a.sh | b.sh; break;
    case Instruction::Shl: sh = (b.sh || b.e) ? m : (b.c >= a.w ? 0 : a.sh << b.c); break;
    case Instruction::LShr: sh = (b.sh || b.e) ? m : (b.c >= a.w ? 0 : a.sh >> b.c); break;
    default: sh = m; }
    sh &= m; Op o;
    switch (op) {
    case Instruction::Add: o = ADD; break; case Instruction::Sub: o = SUB; break; case Instruction::Mul: o = MUL; break;
    case Instruction::UDiv: o = UDIV; break; case Instruction::SDiv: o = SDIV; break; case Instruction::URem: o = UREM; break; case Instruction::SRem: o = SREM; break;
    case Instruction::And: o = AND; break; case Instruction::Or: o = OR; break; case Instruction::Xor: o = XOR; break;
    case Instruction::Shl: o = SHL; break; case Instruction::LShr: o = LSHR; break; case Instruction::AShr: o = ASHR; break;
    default: die("unsupported instruction %s", Instruction::getOpcodeName(op)); }
    if (o == UDIV || o == SDIV || o == UREM || o == SREM) require(s, eNot(eBin(EQ, toE(b), K(0, b.w))), "arithmetic", "division by zero");
    if (!a.e && !b.e) { r.c = foldBin(o, a.w, a.c, b.c); } else r = ev_(eBin(o, toE(a), toE(b)));
    r.sh = sh; return r;
}
// floating point: on concrete values only (a symbolic one is enumerated)
static double fpOf(u64 c, unsigned w) { if (w == 32) { float x; u32 y = c; memcpy(&x, &y, 4); return x; } double x; memcpy(&x, &c, 8); return x; }
static V fpV(double x, unsigned w) { if (w == 32) { float y = x; u32 c; memcpy(&c, &y, 4); return cv(c, 32); } u64 c; memcpy(&c, &x, 8); return cv(c, 64); }
static bool fcmp(int p, double a, double b) { bool un = a != a || b != b; int bit = un ? 8 : a == b ? 1 : a > b ? 2 : 4; return (p & bit) != 0; }   // the bits of CmpInst::Predicate: 1 equal, 2 greater, 4 less, 8 unordered
static V icmp(int pred, const V& a, const V& b) {
    Op o; bool sw = false, neg = false;
    switch (pred) {
    case CmpInst::ICMP_EQ: o = EQ; break; case CmpInst::ICMP_NE: o = EQ; neg = true; break;
    case CmpInst::ICMP_ULT: o = ULT; break; case CmpInst::ICMP_ULE: o = ULE; break; case CmpInst::ICMP_UGT: o = ULT; sw = true; break; case CmpInst::ICMP_UGE: o = ULE; sw = true; break;
    case CmpInst::ICMP_SLT: o = SLT; break; case CmpInst::ICMP_SLE: o = SLE; break; case CmpInst::ICMP_SGT: o = SLT; sw = true; break; case CmpInst::ICMP_SGE: o = SLE; sw = true; break;
    default: die("icmp"); }
    const V &x = sw ? b : a, &y = sw ? a : b; V r; r.w = 1;
    if (!x.e && !y.e) r.c = foldBin(o, x.w, x.c, y.c) ^ neg;
    else { const E* e = eBin(o, toE(x), toE(y)); r = ev_(neg ? eNot(e) : e); }
    r.sh = 0;
    if (a.sh | b.sh) { r.sh = 1;                              // decided by the initialised bits?
        if (o == EQ && !a.e && !b.e && ((a.c ^ b.c) & ~(a.sh | b.sh) & maskw(a.w))) r.sh = 0; }
    return r;
}
static void gotoBB(Frame& f, int bb) { f.entered = false; f.bb = f.fn->code[f.pc].bbIdx; f.pc = f.fn->bbStart[bb]; if (f.fn->code[f.pc].op == Instruction::PHI) { } }
static void popFrame(State& s) { Frame& f = s.st.back(); for (u32 id : f.allocas) { Obj& o = wr(s, id); o.freed = true; o.val.clear(); o.sh.clear(); o.kind.clear(); o.sym.clear(); } s.stackBytes = f.savedStack; s.st.pop_back(); }
static V newAlloca(State& s, const V& cnt, u64 es, const char* nm) {
    V r = cv(0, 64); u64 size = 0; const E* se = nullptr;
    if (cnt.sh) needInit(s, cnt, "the size of a variable length array");
    if (!cnt.e) { size = cnt.c * es; if (size > stackLimit) size = stackLimit + 1; if (s.stackBytes + size > stackLimit) { report(s, "stack", "stack overflow: the stack grows past 8 MiB", *s.model); endPath(); } s.stackBytes += size; }
    else { se = eBin(MUL, eZext(cnt.e, 64), K(es, 64)); require(s, eAnd(eBin(ULE, eZext(cnt.e, 64), K(stackLimit, 64)), eBin(ULE, se, K(stackLimit - s.stackBytes, 64))), "stack", "stack overflow: the stack grows past 8 MiB"); s.stackBytes += evalE(se, *s.model); }
    u32 id = newObj(s, STACK, size, se, nm); s.st.back().allocas.push_back(id); r.c = addrOf(id); return r;
}
static void pushCall(State& s, Fn* fn, const std::vector<V>& args, int ret, const std::vector<u64>* byval) {
    compile(fn); if (s.stackBytes > stackLimit || s.st.size() > 100000) { report(s, "stack", "stack overflow: unbounded recursion", *s.model); endPath(); }
    Frame f; f.fn = fn; f.regs.resize(fn->nregs); f.ret = ret; f.savedStack = s.stackBytes; s.stackBytes += 64; fn->executed++;
    if (args.size() < fn->args.size()) die("call of %s with too few arguments", fn->name.c_str());
    for (size_t i = 0; i < fn->args.size(); i++) f.regs[fn->args[i]] = args[i];
    for (size_t i = fn->args.size(); i < args.size(); i++) f.va.push_back(args[i]);
    s.st.push_back(std::move(f));
    for (size_t i = 0; i < fn->args.size(); i++) if (fn->byval[i]) { V n = newAlloca(s, cv(1, 64), fn->byval[i], "byval"); u64 so; u32 so_id = access(s, args[i], fn->byval[i], false, so, "read"); copyBytes(s, (n.c >> 32) - 1, 0, so_id, so, fn->byval[i]); s.st.back().regs[fn->args[i]] = n; }
}
// ------------------------------------------------------------------ builtins
static u64 lengthArg(State& s, const V& n) { needInit(s, n, "a length"); return 0; }
// n bytes at p, n possibly symbolic: bounds are checked for all values, then n is split into its feasible values
static u64 range(State& s, const V& p, const V& n, bool write, u32& id, u64& off, const char* what) {
    needInit(s, n, "a length"); u64 k = n.c;
    if (n.e) {
        if (!p.e && (p.c >> 32) && (p.c >> 32) - 1 < s.objs.size()) { const Obj& o = *s.objs[(p.c >> 32) - 1]; u64 o_ = p.c & 0xffffffff;
            if (!o.freed && o.reg != FUNC) { const E* sz = sizeOf(o); const E* n64 = eZext(toE(n), 64);
                const E* ok = eAnd(eBin(ULE, n64, sz), eBin(ULE, K(o_, 64), eBin(SUB, sz, n64))); ok = eBin(OR, ok, eBin(EQ, n64, K(0, 64)));
                require(s, ok, "memory", std::string("out-of-bounds ") + what + ", object " + o.name); } }
        k = concretise(s, n);
    }
    if (k == 0) { id = ~0u; off = 0; return 0; }
    if (k > (1ull << 32)) { report(s, "memory", std::string("out-of-bounds ") + what + " of a negative or huge length", *s.model); endPath(); }
    id = access(s, p, k, write, off, what); return k;
}
static bool reuse = false;                                    // -p REUSE=1: a new block may lie where a freed one was, as with malloc
static V doAlloc(State& s, const V& n, bool zero, const char* nm) {
    needInit(s, n, "an allocation size"); const u64 LIM = 1ull << 38; const E* se = nullptr; u64 size = n.c;
    if (n.e) { if (!decide(s, eBin(ULE, toE(n), K(LIM, 64)))) return cv(0, 64); if (allFixed(s, n.e)) size = evalE(n.e, *s.model); else se = n.e; }
    else if (n.c > LIM) return cv(0, 64);
    std::string site = nm; for (int i = (int)s.st.size() - 1; i >= 0; i--) { auto l = locOf(s.st[i].fn->code[s.st[i].pc].I); site += " at " + l; break; }
    u32 id; size_t k = reuse && !se ? s.spare.size() : 0; for (; k > 0; k--) { const Obj& o = *s.objs[s.spare[k - 1]]; if ((std::max<u64>(o.size, 24) + 23) / 16 == (std::max<u64>(size, 24) + 23) / 16) break; }
    if (k) { id = s.spare[k - 1]; s.spare.erase(s.spare.begin() + k - 1); auto o = std::make_shared<Obj>(); o->reg = HEAP; o->size = size; o->name = site; o->owner = s.tid; s.objs[id] = o; }
    else id = newObj(s, HEAP, size, se, site.c_str());
    if (zero) { Obj& o = wr(s, id); o.defSh = 0; o.defVal = 0; }
    return cv(addrOf(id), 64);
}
static void doFree(State& s, const V& p0) {
    needInit(s, p0, "free"); u64 p = concretise(s, p0); if (!p) return;
    u64 slot = p >> 32; if (!slot || slot - 1 >= s.objs.size() || s.objs[slot - 1]->reg != HEAP || (p & 0xffffffff)) { report(s, "memory", "free of a pointer that is not the start of a heap block", *s.model); endPath(); }
    if (s.tid && s.objs[slot - 1]->owner != s.tid) s.shared = true;
    if (s.objs[slot - 1]->freed) { report(s, "memory", "double free, object " + s.objs[slot - 1]->name, *s.model); endPath(); }
    Obj& o = wr(s, slot - 1); o.freed = true; o.val.clear(); o.sh.clear(); o.kind.clear(); o.sym.clear();
    if (reuse && !o.sizeE) s.spare.push_back(slot - 1);
    o.val.shrink_to_fit(); o.sh.shrink_to_fit(); o.kind.shrink_to_fit();
}
static V padd(const V& p, u64 k) { if (!p.e) { V r = p; r.c += k; return r; } V r = ev_(eBin(ADD, p.e, K(k, 64))); r.sh = p.sh; return r; }
typedef std::vector<V> Args;
// ------------------------------------------------------------------ two threads
// The threads only interact through globals of the library, heap blocks of the other one, and file names.  The other thread may take
// over wherever a basic block of the library begins, or it is about to open, close, rename or remove a file, after such an access
// (elsewhere it makes no difference), at most maxSwitches times.
static void swapThreads(State& s) {
    std::swap(s.st, s.other); std::swap(s.stackBytes, s.otherStack); s.tid = 3 - s.tid; s.shared = false;
    for (size_t i = 0; i < tlsGlobals.size(); i++) std::swap(s.objs[tlsGlobals[i]], s.tlsOther[i]);
}
static void startThreads(State& s, Fn* a, Fn* b) {
    if (s.tid) die("threads within threads"); s.mainStack = s.stackBytes; s.mainSt = std::move(s.st); s.st.clear(); s.tlsMain.clear(); for (u32 g : tlsGlobals) s.tlsMain.push_back(s.objs[g]);
    s.tlsOther.clear(); for (size_t i = 0; i < tlsGlobals.size(); i++) { s.tlsOther.push_back(tlsInit[i]); s.objs[tlsGlobals[i]] = tlsInit[i]; }
    s.stackBytes = 0; s.tid = 2; pushCall(s, b, {}, -1, nullptr); s.other = std::move(s.st); s.otherStack = s.stackBytes; s.st.clear(); s.stackBytes = 0; s.tid = 1; pushCall(s, a, {}, -1, nullptr);
    s.switches = 0; s.shared = false; s.sched.push_back(0);
}
static void endThread(State& s) {
    if (!s.other.empty()) { swapThreads(s); return; }
    s.st = std::move(s.mainSt); s.mainSt.clear(); s.tid = 0; s.shared = false; s.stackBytes = s.mainStack; for (size_t i = 0; i < tlsGlobals.size(); i++) s.objs[tlsGlobals[i]] = s.tlsMain[i];
}
static void atBlock(State& s) {
    s.blocks++; bool sw = s.shared || (forceShared && s.blocks % forceShared == 0); s.shared = false; if (!sw || s.other.empty() || s.switches >= maxSwitches) return;
    State* o = forkState(s); o->switches++; o->sched.push_back(s.blocks); swapThreads(*o); work.push_back(o);
}
static void defBuiltins() {
    auto def = [&](const char* n, std::function<bool(State&, Ins&, Args&, V&)> f) { builtinIds[n] = builtins.size(); builtins.push_back(f); };
    auto alias = [&](const char* n, const char* o) { builtinIds[n] = builtinIds[o]; };
    def("malloc", [](State& s, Ins&, Args& a, V& r) { r = doAlloc(s, a[0], false, "malloc"); return true; });
    def("calloc", [](State& s, Ins&, Args& a, V& r) {
        V t; if (!a[0].e && !a[1].e) { if (a[1].c && a[0].c > (~0ull) / a[1].c) { r = cv(0, 64); return true; } t = cv(a[0].c * a[1].c, 64); }
        else if (!a[1].e && a[1].c == 1) t = a[0]; else if (!a[0].e && a[0].c == 1) t = a[1];
        else { for (int i = 0; i < 2; i++) if (a[i].e && !decide(s, eBin(ULE, a[i].e, K(1ull << 31, 64)))) { r = cv(0, 64); return true; } t = ev_(eBin(MUL, toE(a[0]), toE(a[1]))); }
        t.sh = a[0].sh | a[1].sh; r = doAlloc(s, t, true, "calloc"); return true; });
    def("free", [](State& s, Ins&, Args& a, V&) { doFree(s, a[0]); return true; });
    def("realloc", [](State& s, Ins&, Args& a, V& r) {
        u64 p = concretise(s, a[0]); V n = a[1]; n.c = concretise(s, a[1]); n.e = nullptr; if (p && (p >> 32) - 1 < s.objs.size() && s.objs[(p >> 32) - 1]->sizeE) concretise(s, ev_(s.objs[(p >> 32) - 1]->sizeE)); r = doAlloc(s, n, false, "realloc");
        if (p && r.c) { u64 slot = p >> 32; if (!slot || slot - 1 >= s.objs.size() || s.objs[slot - 1]->reg != HEAP || (p & 0xffffffff) || s.objs[slot - 1]->freed) { report(s, "memory", "realloc of a bad pointer", *s.model); endPath(); }
            u64 os = s.objs[slot - 1]->sizeE ? concretise(s, ev_(s.objs[slot - 1]->sizeE)) : s.objs[slot - 1]->size; copyBytes(s, (r.c >> 32) - 1, 0, slot - 1, 0, std::min<u64>(os, n.c)); doFree(s, cv(p, 64)); }
        return true; });
    auto copy = [](bool overlapOk) { return [overlapOk](State& s, Ins&, Args& a, V& r) {
        u32 d, q; u64 doff, soff; u64 n = range(s, a[0], a[2], true, d, doff, "write"); V nn = cv(n, 64);
        if (n) { n = range(s, a[1], nn, false, q, soff, "read");
            if (!overlapOk && d == q && doff != soff && (doff < soff ? soff - doff : doff - soff) < n) { report(s, "memory", "memcpy with overlapping ranges", *s.model); endPath(); }
            copyBytes(s, d, doff, q, soff, n); }
        else if (a[2].e) { }
        r = a[0]; return true; }; };
    def("memcpy", copy(false)); def("memmove", copy(true));
    def("mempcpy", [copy](State& s, Ins& i, Args& a, V& r) { copy(false)(s, i, a, r); r = padd(a[0], concretise(s, a[2])); return true; });
    def("memset", [](State& s, Ins&, Args& a, V& r) {
        u32 d; u64 off; u64 n = range(s, a[0], a[2], true, d, off, "write"); V b = a[1]; if (b.e) { u64 sh = b.sh; b = ev_(eExtract(b.e, 0, 8)); b.sh = sh & 0xff; } else { b.c &= 0xff; b.sh &= 0xff; b.w = 8; }
        if (n) { Obj& o = wr(s, d); o.ensure(off + n); for (u64 i = 0; i < n; i++) storeByte(o, off + i, b); } r = a[0]; return true; });
    // comparisons as expressions; bytes that cannot be reached are not accessed.  mode 0: memcmp, 1: strncmp, 2: strcmp
    auto cmp = [](int mode, bool nocase) { return [mode, nocase](State& s, Ins&, Args& a, V& r) {
        u64 n = ~0ull; if (mode != 2) { needInit(s, a[2], "a length"); if (mode == 0 && a[2].e) { u32 id; u64 off; range(s, a[0], a[2], false, id, off, "read"); range(s, a[1], a[2], false, id, off, "read"); } n = concretise(s, a[2]); }
        const E* eq = K(1, 1); const E* lt = K(0, 1); u64 p = concretise(s, a[0]), q = concretise(s, a[1]); u64 sh = 0;
        if (mode == 0 && n) { u64 o; access(s, cv(p, 64), n, false, o, "read"); access(s, cv(q, 64), n, false, o, "read"); }
        const E* cont = K(1, 1);                             // still comparing
        auto fold = [&](const E* x) { if (!nocase) return x; return eIte(eAnd(eBin(ULE, K('A', 8), x), eBin(ULE, x, K('Z', 8))), eBin(ADD, x, K(32, 8)), x); };
        for (u64 i = 0; i < n; i++) {
            if (isK(cont, 0)) break;
            if (mode && !isK(cont)) { if (!feasible(s, cont, nullptr)) break;
                for (u64 base : {p, q}) { u64 slot = (base + i) >> 32, off = (base + i) & 0xffffffff; const Obj& o = *s.objs[slot - 1]; bool bad = o.sizeE ? feasible(s, eAnd(cont, eNot(eBin(ULE, K(off + 1, 64), o.sizeE))), nullptr) : off + 1 > o.size;
                    if (bad) { require(s, eNot(cont), "memory", "out-of-bounds read past the end of a string, object " + o.name); cont = K(0, 1); break; } }
                if (isK(cont, 0)) break; }
            else if (mode) { u64 o; access(s, cv(p + i, 64), 1, false, o, "read"); access(s, cv(q + i, 64), 1, false, o, "read"); }
            V x = loadByte(*s.objs[((p + i) >> 32) - 1], (p + i) & 0xffffffff), y = loadByte(*s.objs[((q + i) >> 32) - 1], (q + i) & 0xffffffff);
            sh |= (x.sh | y.sh) && (isK(cont, 1) || mode == 0) ? 1 : 0; const E *xe = fold(toE(x)), *ye = fold(toE(y)); const E* same = eBin(EQ, xe, ye);
            lt = eBin(OR, lt, eAnd(cont, eBin(ULT, xe, ye))); eq = eAnd(eq, eBin(OR, eNot(cont), same)); cont = eAnd(cont, same); if (mode) cont = eAnd(cont, eNot(eBin(EQ, xe, K(0, 8))));
        }
        r = ev_(eIte(eq, K(0, 32), eIte(lt, K(0xffffffff, 32), K(1, 32)))); r.sh = sh ? maskw(32) : 0; if (sh && !r.e && r.c) r.sh = 0; return true; }; };
    def("memcmp", cmp(0, false)); alias("bcmp", "memcmp"); def("strncmp", cmp(1, false)); def("strcmp", cmp(2, false)); def("strncasecmp", cmp(1, true)); def("strcasecmp", cmp(2, true));
    auto nop0 = [](State&, Ins&, Args&, V& r) { r = cv(0, r.w); return true; };
    for (const char* n : {"perror", "printf", "puts", "putchar", "vprintf", "setlocale", "setvbuf", "setbuf", "sx_note", "srand"}) def(n, nop0);
    // snprintf(b, n, fmt, ...) and sprintf(b, fmt, ...): the formats are constants, the numbers are split into their values
    auto fmtTo = [](bool bounded, bool alloc, bool va = false) { return [bounded, alloc, va](State& s, Ins&, Args& a, V& r) {
        size_t k = bounded ? 2 : 1; u64 lim = bounded ? concretise(s, a[1]) : ~0ull; std::string f = cstr(s, a[k++]); std::vector<V> o; auto ch = [&](u8 c) { o.push_back(cv(c, 8)); };
        auto next = [&]() -> V {
            if (va) { u64 off; u32 id = access(s, a[k], 24, true, off, "read"); V p = loadN(*s.objs[id], off + 8, 8, 64); needInit(s, p, "a list of arguments"); u64 po; u32 q = access(s, p, 8, false, po, "read"); V r = loadN(*s.objs[q], po, 8, 64); p.c += 8; storeN(wr(s, id), off + 8, p, 8); return r; }
            if (k >= a.size()) die("too few arguments of a formatted output"); return a[k++]; };
        for (size_t i = 0; i < f.size(); i++) {
            if (f[i] != '%') { ch(f[i]); continue; } i++; if (f[i] == '%') { ch('%'); continue; }
            std::string spec = "%"; bool left = false; while (i < f.size() && strchr("-0+ #", f[i])) { left |= f[i] == '-'; spec += f[i++]; }
            long width = 0, prec = -1; if (f[i] == '*') { V v = next(); width = (int)concretise(s, v); if (width < 0) { left = true; width = -width; spec += '-'; } i++; } else while (isdigit(f[i])) width = width * 10 + (f[i++] - '0');
            if (f[i] == '.') { i++; prec = 0; if (f[i] == '*') { V v = next(); prec = (int)concretise(s, v); i++; } else while (isdigit(f[i])) prec = prec * 10 + (f[i++] - '0'); }
            int longs = 0, shorts = 0; while (i < f.size() && strchr("lhzjt", f[i])) { if (f[i] == 'h') shorts++; else longs++; i++; }
            if (width > 4096 || prec > 100000) die("format width"); std::vector<V> item;
            if (f[i] == 'c') { V v = next(); V b = v.e ? ev_(eExtract(v.e, 0, 8)) : cv(v.c & 0xff, 8); b.sh = v.sh & 0xff; item.push_back(b); }
            else if (f[i] == 's') { V p = next(); u64 q = concretise(s, p); for (long n = 0; prec < 0 || n < prec; n++) { u64 off; u32 id = access(s, cv(q + n, 64), 1, false, off, "read"); V b = loadByte(*s.objs[id], off); needInit(s, b, "a formatted string"); if (b.e ? decide(s, eBin(EQ, b.e, K(0, 8))) : b.c == 0) break; item.push_back(b); } }
            else if (f[i] && strchr("diuxXop", f[i])) { V v = next(); needInit(s, v, "a formatted number"); u64 x = concretise(s, v); bool sg = f[i] == 'd' || f[i] == 'i'; unsigned w = longs || f[i] == 'p' ? 64 : shorts == 1 ? 16 : shorts == 2 ? 8 : 32; if (sg) x = (u64)sx(x, w); else x &= maskw(w);
                if (width) spec += std::to_string(width); if (prec >= 0) spec += "." + std::to_string(prec); spec += "ll"; spec += f[i] == 'p' ? 'x' : f[i]; char t[8300]; int n = snprintf(t, sizeof t, spec.c_str(), (long long)x); for (int q = 0; q < n && q < 8299; q++) item.push_back(cv((u8)t[q], 8)); width = 0; }
            else die("format %%%c is not modelled", f[i]);
            if (!left) for (long n = item.size(); n < width; n++) ch(' ');
            o.insert(o.end(), item.begin(), item.end()); if (left) for (long n = item.size(); n < width; n++) ch(' ');
        }
        u64 n = o.size();
        if (alloc) { V m = doAlloc(s, cv(n + 1, 64), false, "asprintf"); u64 off; u32 id = access(s, a[0], 8, true, off, "write"); storeN(wr(s, id), off, m, 8); Obj& d = wr(s, (m.c >> 32) - 1); d.ensure(n + 1); for (u64 i = 0; i < n; i++) storeByte(d, i, o[i]); storeByte(d, n, cv(0, 8)); }
        else if (lim) { u64 m = std::min<u64>(n, lim - 1), off; u32 id = access(s, a[0], m + 1, true, off, "write"); Obj& d = wr(s, id); d.ensure(off + m + 1); for (u64 i = 0; i < m; i++) storeByte(d, off + i, o[i]); storeByte(d, off + m, cv(0, 8)); }
        r = cv(n, 32); return true; }; };
    def("snprintf", fmtTo(true, false)); def("sprintf", fmtTo(false, false)); def("asprintf", fmtTo(false, true)); def("vsnprintf", fmtTo(true, false, true)); def("vsprintf", fmtTo(false, false, true)); def("vasprintf", fmtTo(false, true, true));
    auto stop = [](const char* k) { return [k](State& s, Ins&, Args&, V&) -> bool { report(s, "abort", k, *s.model); endPath(); }; };
    def("exit", stop("the library calls exit()")); def("_exit", stop("the library calls exit()")); def("abort", stop("the library calls abort()")); def("__assert_fail", stop("assertion failure in the library"));
    // ---- harness interface
    def("sx_sym", [](State& s, Ins&, Args& a, V&) {
        u64 n = concretise(s, a[1]); std::string nm = cstr(s, a[2]); u64 off; if (!n) { s.inputs.push_back({nm, s.nsym, 0}); return true; } u32 id = access(s, a[0], n, true, off, "write"); Obj& o = wr(s, id); s.inputs.push_back({nm, s.nsym, (u32)n});
        auto m = std::make_shared<std::vector<u8>>(*s.model); m->resize(s.nsym + n); s.model = m; s.fixed.resize(s.nsym + n);
        for (u64 i = 0; i < n; i++) storeByte(o, off + i, ev_(mk(SYM, 8, s.nsym + i))); s.nsym += n; return true; });
    def("sx_choose", [](State& s, Ins& I, Args& a, V& r) {   // one of 0..n-1, on separate paths
        u64 n = concretise(s, a[0]); if (n < 1 || n > 256) die("sx_choose range"); u32 b = s.nsym; std::string nm = cstr(s, a[1]);
        s.inputs.push_back({nm, b, 1}); s.nsym++; s.fixed.push_back(0); auto m = std::make_shared<std::vector<u8>>(*s.model); m->push_back(0); s.model = m;
        const E* x = mk(SYM, 8, b); addCons(s, eBin(ULE, x, K(n - 1, 8))); r = ev_(eZext(x, 32));
        // fork all values now (the siblings continue after this call); shards split the choices of the first shardDepth calls
        bool last = false; u64 base = s.shardCode; if (shardN > 1 && s.choiceDepth < shardDepth) { s.choiceDepth++; last = s.choiceDepth == shardDepth; }
        auto mine = [&](u64 k) { return !last || mix(base * 257 + k) % shardN == shardI; };
        for (u64 k = n - 1; k >= 1; k--) { if (!mine(k)) continue; State* o = forkState(s); o->shardCode = base * 257 + k; auto mm = std::make_shared<std::vector<u8>>(*o->model); (*mm)[b] = k; o->model = mm; addCons(*o, eBin(EQ, x, K(k, 8))); o->st.back().regs[I.dst] = cv(k, 32); o->st.back().pc++; work.push_back(o); }
        if (!mine(0)) { nOther++; throw PathEnd(); } s.shardCode = base * 257;
        addCons(s, eBin(EQ, x, K(0, 8))); r = cv(0, 32); return true; });
    def("sx_same", [](State& s, Ins&, Args& a, V& r) {       // are n bytes equal, as one expression
        u64 n = concretise(s, a[2]); const E* eq = K(1, 1); if (n) { u64 o1, o2; u32 x = access(s, a[0], n, false, o1, "read"), y = access(s, a[1], n, false, o2, "read"); const Obj &ox = *s.objs[x], &oy = *s.objs[y];
            for (u64 i = 0; i < n; i++) { V p = loadByte(ox, o1 + i), q = loadByte(oy, o2 + i); if (p.sh) needInit(s, p, "compared data"); if (q.sh) needInit(s, q, "compared data"); if (!p.e && !q.e) { if (p.c != q.c) { eq = K(0, 1); break; } } else eq = eAnd(eq, eBin(EQ, toE(p), toE(q))); } }
        r = ev_(eZext(eq, 32)); return true; });
    def("sx_assume", [](State& s, Ins&, Args& a, V&) { needInit(s, a[0], "sx_assume"); const E* c = eNot(eBin(EQ, toE(a[0]), K(0, a[0].w))); std::shared_ptr<const std::vector<u8>> m; if (!feasible(s, c, &m)) { nAssume0++; throw PathEnd(); } s.model = m; addCons(s, c); return true; });
    def("sx_assert", [](State& s, Ins&, Args& a, V&) { nAsserts++; std::string msg = cstr(s, a[1]); needInit(s, a[0], ("assertion: " + msg).c_str()); require(s, eNot(eBin(EQ, toE(a[0]), K(0, a[0].w))), "assertion", msg); return true; });
    def("sx_fail", [](State& s, Ins&, Args& a, V&) -> bool { nAsserts++; report(s, "assertion", cstr(s, a[0]), *s.model); endPath(); });
    def("sx_reach", [](State& s, Ins&, Args& a, V&) { std::string l = cstr(s, a[0]); size_t i; for (i = 0; i < labels.size(); i++) if (labels[i] == l) break; if (i == labels.size()) labels.push_back(l); s.reached.push_back(i); return true; });
    def("sx_observe", [](State& s, Ins&, Args& a, V&) { needInit(s, a[1], "an observed value"); s.obs.push_back({cstr(s, a[0]), {a[1]}}); return true; });
    def("sx_observe_bytes", [](State& s, Ins&, Args& a, V&) { u64 n = concretise(s, a[2]); Obs o{cstr(s, a[0]), {}}; if (n) { u64 off; u32 id = access(s, a[1], n, false, off, "read"); for (u64 i = 0; i < n; i++) { V b = loadByte(*s.objs[id], off + i); needInit(s, b, "observed bytes"); o.v.push_back(b); } } s.obs.push_back(o); return true; });
    def("sx_touch", [](State& s, Ins&, Args& a, V&) { u32 id; u64 off; u64 n = range(s, a[0], a[1], false, id, off, "read"); for (u64 i = 0; i < n; i++) { V b = loadByte(*s.objs[id], off + i); needInit(s, b, "data handed out by the library"); } return true; });
    def("sx_live", [](State& s, Ins&, Args&, V& r) { u64 n = 0; for (auto& o : s.objs) if (o->reg == HEAP && !o->freed) n++; r = cv(n, 32); return true; });
    def("sx_is_live", [](State& s, Ins&, Args& a, V& r) { u64 p = concretise(s, a[0]); u64 slot = p >> 32; r = cv(slot && slot - 1 < s.objs.size() && !s.objs[slot - 1]->freed, 32); return true; });
    def("sx_threads", [](State& s, Ins&, Args& a, V&) {
        Fn* f[2]; for (int i = 0; i < 2; i++) { u64 x = concretise(s, a[i]); auto it = fnByObj.find((x >> 32) - 1); if (it == fnByObj.end()) die("sx_threads"); f[i] = it->second; }
        s.st.back().pc++; startThreads(s, f[0], f[1]); State* o = forkState(s); o->sched.back() = 1; swapThreads(*o); work.push_back(o); s.st.back().pc = -1; return true; });
    def("sx_no_leaks", [](State& s, Ins&, Args& a, V&) { nAsserts++; for (auto& o : s.objs) if (o->reg == HEAP && !o->freed) { report(s, "leak", "memory leak: " + cstr(s, a[0]) + ": " + o->name, *s.model); break; } return true; });
    def("sx_param", [](State& s, Ins&, Args& a, V& r) { std::string n = cstr(s, a[0]); paramsUsed.insert(n); auto it = params.find(n); r = cv(it == params.end() ? a[1].c : (u64)it->second, 32); return true; });
    def("sx_concrete", [](State& s, Ins&, Args& a, V& r) { r = cv(concretise(s, a[0]), a[0].w); return true; });
    def("sx_native", nop0);
    def("__errno_location", [](State& s, Ins&, Args&, V& r) { auto* g = M->getNamedGlobal("sx_errno"); if (!g) die("sx_errno missing"); r = cv(addrOf(gObj.at(g)), 64); return true; });
}
static bool intrinsic(State& s, Ins& I, Args& a) {
    Frame& f = s.st.back(); V r; r.w = I.w; bool ok = true;
    auto ovf = [&](Op op, bool sgn) { unsigned w = a[0].w; const E *x = toE(a[0]), *y = toE(a[1]); V v = ev_(eBin(op, x, y)); v.sh = (a[0].sh | a[1].sh) ? maskw(w) : 0; const E* o;
        if (2 * w > 64) { if (w != 64) die("overflow width"); if (op == ADD && !sgn) o = eBin(ULT, toE(v), x); else if (op == SUB && !sgn) o = eBin(ULT, x, y); else if (op == MUL) { if (a[0].e || a[1].e) die("64-bit mul overflow"); unsigned __int128 p = (unsigned __int128)a[0].c * a[1].c; __int128 sp = (__int128)(int64_t)a[0].c * (int64_t)a[1].c; o = K(sgn ? sp != (int64_t)sp : (p >> 64) != 0, 1); }
            else { const E* sx_ = eExtract(x, 63, 1); const E* sy = eExtract(y, 63, 1); const E* sr = eExtract(toE(v), 63, 1); o = op == ADD ? eAnd(eBin(EQ, sx_, sy), eNot(eBin(EQ, sx_, sr))) : eAnd(eNot(eBin(EQ, sx_, sy)), eNot(eBin(EQ, sx_, sr))); } }
        else { const E* X = sgn ? eSext(x, 2 * w) : eZext(x, 2 * w); const E* Y = sgn ? eSext(y, 2 * w) : eZext(y, 2 * w); const E* R = eBin(op, X, Y); o = eNot(eBin(EQ, R, sgn ? eSext(toE(v), 2 * w) : eZext(toE(v), 2 * w))); }
        f.regs[I.dst] = v; V ov = ev_(o); ov.sh = v.sh ? 1 : 0; f.regs[I.dst + 1] = ov; };
    switch (I.iid) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: { V t; builtins[builtinIds["memcpy"]](s, I, a, t); return true; }
    case Intrinsic::memmove: { V t; builtins[builtinIds["memmove"]](s, I, a, t); return true; }
    case Intrinsic::memset: { V t; builtins[builtinIds["memset"]](s, I, a, t); return true; }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: return true;
    case Intrinsic::stacksave: r = cv(f.allocas.size() | (s.stackBytes << 20), 64); break;
    case Intrinsic::stackrestore: { u64 k = a[0].c & 0xfffff; while (f.allocas.size() > k) { Obj& o = wr(s, f.allocas.back()); o.freed = true; o.sym.clear(); o.val.clear(); o.sh.clear(); o.kind.clear(); f.allocas.pop_back(); } s.stackBytes = a[0].c >> 20; return true; }
    // x86-64: struct { int gp_offset, fp_offset; void *overflow_arg_area, *reg_save_area; }, with all arguments in the overflow area
    case Intrinsic::vastart: {
        V m = newAlloca(s, cv(std::max<u64>(f.va.size(), 1) * 8, 64), 1, "variable arguments"); Frame& g = s.st.back();
        for (size_t i = 0; i < g.va.size(); i++) { V v = g.va[i]; u64 sh = v.sh; if (v.e && v.e->w < 64) { v = ev_(eZext(v.e, 64)); v.sh = sh; } storeN(wr(s, (m.c >> 32) - 1), 8 * i, v, 8); }
        u64 off; u32 id = access(s, a[0], 24, true, off, "write"); Obj& o = wr(s, id); storeN(o, off, cv(48, 32), 4); storeN(o, off + 4, cv(176, 32), 4); storeN(o, off + 8, m, 8); storeN(o, off + 16, cv(0, 64), 8); return true; }
    case Intrinsic::vacopy: { u64 so, d; u32 q = access(s, a[1], 24, false, so, "read"); u32 id = access(s, a[0], 24, true, d, "write"); copyBytes(s, id, d, q, so, 24); return true; }
    case Intrinsic::vaend: return true;
    case Intrinsic::expect: r = a[0]; break;
    case Intrinsic::objectsize: r = cv(~0ull, I.w); break;
    case Intrinsic::is_constant: r = cv(0, 1); break;
    case Intrinsic::abs: { const E* x = toE(a[0]); r = ev_(eIte(eBin(SLT, x, K(0, x->w)), eBin(SUB, K(0, x->w), x), x)); r.sh = a[0].sh ? maskw(I.w) : 0; break; }
    case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::umin: case Intrinsic::umax: { const E *x = toE(a[0]), *y = toE(a[1]); bool mn = I.iid == Intrinsic::smin || I.iid == Intrinsic::umin; bool sg = I.iid == Intrinsic::smin || I.iid == Intrinsic::smax; const E* l = eBin(sg ? SLT : ULT, x, y); r = ev_(mn ? eIte(l, x, y) : eIte(l, y, x)); r.sh = (a[0].sh | a[1].sh) ? maskw(I.w) : 0; break; }
    case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::fabs: case Intrinsic::fmuladd: case Intrinsic::fma: case Intrinsic::minnum: case Intrinsic::maxnum: {
        double x[3] = {0, 0, 0}; for (size_t i = 0; i < a.size() && i < 3; i++) { V v = a[i]; needInit(s, v, "arithmetic"); x[i] = fpOf(concretise(s, v), v.w); }
        double y; switch (I.iid) { case Intrinsic::ceil: y = ceil(x[0]); break; case Intrinsic::floor: y = floor(x[0]); break; case Intrinsic::trunc: y = trunc(x[0]); break; case Intrinsic::round: y = round(x[0]); break; case Intrinsic::fabs: y = fabs(x[0]); break; case Intrinsic::fmuladd: y = x[0] * x[1] + x[2]; break; case Intrinsic::fma: y = fma(x[0], x[1], x[2]); break; case Intrinsic::minnum: y = fmin(x[0], x[1]); break; case Intrinsic::maxnum: y = fmax(x[0], x[1]); break; default: y = nearbyint(x[0]); }
        r = fpV(y, I.w); break; }
    case Intrinsic::ctpop: { const E* x = toE(a[0]); needInit(s, a[0], "arithmetic"); const E* o = K(0, x->w); for (unsigned i = 0; i < x->w; i++) { const E* b = eExtract(x, i, 1); o = eBin(ADD, o, x->w == 1 ? b : eZext(b, x->w)); } r = ev_(o); break; }
    case Intrinsic::ctlz: case Intrinsic::cttz: { V v = a[0]; needInit(s, v, "arithmetic"); u64 c = concretise(s, v); unsigned n = 0; bool l = I.iid == Intrinsic::ctlz; while (n < v.w && !(c >> (l ? v.w - 1 - n : n) & 1)) n++; r = cv(n, v.w); break; }
    case Intrinsic::bswap: { const E* x = toE(a[0]); const E* o = eExtract(x, 0, 8); for (unsigned i = 8; i < x->w; i += 8) o = eConcat(o, eExtract(x, i, 8)); r = ev_(o); u64 sh = 0; for (unsigned i = 0; i < I.w; i += 8) sh |= ((a[0].sh >> i) & 0xff) << (I.w - 8 - i); r.sh = sh; break; }
    case Intrinsic::fshl: case Intrinsic::fshr: { if (a[2].e) die("symbolic funnel shift"); unsigned w = I.w, k = a[2].c % w; if (I.iid == Intrinsic::fshr) k = (w - k) % w; const E *x = toE(a[0]), *y = toE(a[1]); r = k == 0 ? (I.iid == Intrinsic::fshl ? a[0] : a[1]) : ev_(eBin(OR, eBin(SHL, x, K(k, w)), eBin(LSHR, y, K(w - k, w)))); r.sh = (a[0].sh | a[1].sh) ? maskw(w) : 0; break; }
    case Intrinsic::sadd_with_overflow: ovf(ADD, true); return true; case Intrinsic::uadd_with_overflow: ovf(ADD, false); return true;
    case Intrinsic::ssub_with_overflow: ovf(SUB, true); return true; case Intrinsic::usub_with_overflow: ovf(SUB, false); return true;
    case Intrinsic::smul_with_overflow: ovf(MUL, true); return true; case Intrinsic::umul_with_overflow: ovf(MUL, false); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: report(s, "abort", "trap reached", *s.model); endPath();
    default: die("unsupported intrinsic %s", I.callee->name.c_str());
    }
    if (ok && I.dst >= 0) f.regs[I.dst] = r; return true;
}
// ------------------------------------------------------------------ one instruction
static std::set<std::string> linesCovered;
// ------------------------------------------------------------------ merging of small side-effect-free regions
// A branch whose two sides only compute a truth value (&&, ||, early "return false") up to the point where they meet is
// evaluated on both sides and merged into one if-then-else value, so that how a condition is spelt does not multiply the
// paths.  Only loads and stores that are certainly in bounds are taken; anything else falls back to splitting the path.
struct Region2 { int join = -1; u32 fails = 0, tries = 0; bool known = false; };
static std::map<std::pair<Fn*, int>, Region2> regions; static u64 nMerged = 0; static bool noMerge = getenv("SYMX_NOMERGE") != nullptr;
static bool regionOp(const Ins& I) {
    switch (I.op) {
    case Instruction::PHI: case Instruction::GetElementPtr: case Instruction::Br: case Instruction::ICmp: case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::Select:
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::Freeze: case Instruction::BitCast: return true;
    case Instruction::Call: return I.callee && !I.iid && I.nslots <= 1;
    case Instruction::Load: return I.idx.empty() && I.nslots == 1; case Instruction::Store: return I.idx.empty(); default: return false; }
}
static int joinOf(Fn* f, const Ins& I) {
    Region2& r = regions[{f, I.bbIdx}]; if (r.known) return r.join; r.known = true;
    PostDominatorTree T(*const_cast<Function*>(f->F)); auto* n = T.getNode(const_cast<BasicBlock*>(I.I->getParent())); if (!n || !n->getIDom() || !n->getIDom()->getBlock()) return -1;
    std::map<const BasicBlock*, int> ix; int k = 0; for (auto& B : *f->F) ix[&B] = k++; int J = ix[n->getIDom()->getBlock()];
    std::vector<const BasicBlock*> byIx(k); for (auto& p : ix) byIx[p.second] = p.first;
    std::map<int, int> st; u32 blocks = 0, ins = 0;             // 1 = on the stack, 2 = done
    std::function<bool(int)> dfs = [&](int b) { if (b == J) return true; if (b == I.bbIdx || st[b] == 1) return false; if (st[b] == 2) return true; st[b] = 1; if (++blocks > 12) return false;
        size_t pc = f->bbStart[b]; for (; pc < f->code.size() && f->code[pc].bbIdx == b; pc++) { if (!regionOp(f->code[pc]) || ++ins > 80) return false; } 
        for (int t : f->code[pc - 1].bb) if (!dfs(t)) return false; st[b] = 2; return true; };
    for (int t : I.bb) if (!dfs(t)) return -1;
    return r.join = J;
}
struct Side { std::vector<V> phi; std::map<std::pair<u32, u64>, V> mem; };
struct NoMerge { };
static const u32 TEMP = 0x7fff0000;                          // objects of the calls inside a region
static bool sameV(const V& x, const V& y) { return x.e == y.e && (x.e || x.c == y.c) && x.sh == y.sh; }
static V mergeV(const E* c, const V& x, const V& y) {
    if (sameV(x, y)) return x;
    if (x.sh || y.sh) throw NoMerge();
    if (x.w != 1 && (x.e || y.e || x.c > 1 || y.c > 1)) throw NoMerge();
    V r = ev_(eIte(c, toE(x), toE(y))); r.w = x.w; return r;
}
static Side mergeSide(State& s, const E* c, const Side& a, const Side& b) {
    Side r; for (size_t i = 0; i < a.phi.size(); i++) r.phi.push_back(mergeV(c, a.phi[i], b.phi[i]));
    auto cur1 = [&](const Side& x, const std::pair<u32, u64>& k) { auto it = x.mem.find(k); if (it != x.mem.end()) return it->second; if (k.first >= TEMP) { V u; u.w = 8; u.sh = 0xFF; return u; } return loadByte(*s.objs[k.first], k.second); };
    for (auto& p : a.mem) r.mem[p.first] = mergeV(c, p.second, cur1(b, p.first));
    for (auto& p : b.mem) if (!a.mem.count(p.first)) r.mem[p.first] = mergeV(c, cur1(a, p.first), p.second);
    return r;
}
struct Pure {                                                 // execution without effects on the state
    State& s; Fn* fn; std::vector<V> regs; Side mem; int from, J; u32& fuel; std::vector<u64> temps; size_t base;
    const V& get(int o) const { return o >= 0 ? regs[o] : fn->pool[~o]; }
    u32 where(const V& p, u64 n, bool write, u64& off) const {
        if (p.e || p.sh) throw NoMerge(); u64 slot = p.c >> 32; off = p.c & 0xffffffff;
        if (slot > TEMP && slot - 1 - TEMP < temps.size()) { if (off + n > temps[slot - 1 - TEMP]) throw NoMerge(); return slot - 1; }
        if (!slot || slot - 1 >= s.objs.size()) throw NoMerge(); const Obj& o = *s.objs[slot - 1]; if (o.reg == FUNC || o.freed || o.sizeE || off + n > o.size || (write && o.ro)) throw NoMerge(); return slot - 1; }
    V byteAt(u32 id, u64 off) const { auto it = mem.mem.find({id, off}); if (it != mem.mem.end()) return it->second; if (id >= TEMP) { V u; u.w = 8; u.sh = 0xFF; return u; } return loadByte(*s.objs[id], off); }
};
static Side sideEval(State& s, Fn* fn, std::vector<V> regs, Side mem, int bb, int from, int J, u32& fuel, std::vector<u64> temps, size_t base);
static void execPure(Pure& c, Ins& I) {
    State& s = c.s; Fn* fn = c.fn; if (!c.fuel--) throw NoMerge(); s.instrs++; nInstr++;
    switch (I.op) {
        case Instruction::Alloca: { const V& n = c.get(I.a[0]); if (c.J >= 0 || n.e || n.sh || n.c * I.sz > 4096) throw NoMerge(); c.temps.push_back(n.c * I.sz); c.regs[I.dst] = cv(addrOf(TEMP + c.temps.size() - 1), 64); break; }
        case Instruction::Call: {
            if (!I.callee || I.iid || I.nslots > 1) throw NoMerge(); Fn* g = I.callee;
            if (g->ext) {                                   // comparisons of bytes that are all there
                int full = g->name == "memcmp" || g->name == "bcmp" || g->name == "strncmp"; if (!full) throw NoMerge(); auto m = fnByName.find("sxm_" + g->name); if (m != fnByName.end() && !m->second->ext) throw NoMerge();
                Args a; for (int o : I.a) a.push_back(c.get(o)); const V& n = a[2]; if (n.e || n.sh || n.c > 64) throw NoMerge(); u64 o1, o2; u32 i1 = c.where(a[0], n.c, false, o1), i2 = c.where(a[1], n.c, false, o2); if (i1 >= TEMP || i2 >= TEMP) throw NoMerge();
                for (u64 k = 0; k < n.c; k++) if (c.mem.mem.count({i1, o1 + k}) || c.mem.mem.count({i2, o2 + k})) throw NoMerge();
                V r; r.w = I.w; builtins[builtinIds.at(g->name)](s, I, a, r); r.w = I.w; if (I.dst >= 0) c.regs[I.dst] = r; break; }
            compile(g); if (I.a.size() < g->args.size() || g->args.size() != g->byval.size()) throw NoMerge(); for (u64 v : g->byval) if (v) throw NoMerge();
            std::vector<V> r2(g->nregs); for (size_t k = 0; k < g->args.size(); k++) r2[g->args[k]] = c.get(I.a[k]);
            std::vector<V> keep; keep.swap(c.mem.phi); if (c.fuel > 2000 || c.temps.size() > 200) throw NoMerge(); g->executed++;
            c.mem = sideEval(s, g, std::move(r2), c.mem, 0, -1, -1, c.fuel, c.temps, c.temps.size()); if (I.nslots) { if (c.mem.phi.empty()) throw NoMerge(); c.regs[I.dst] = c.mem.phi[0]; } keep.swap(c.mem.phi); break; }
        case Instruction::PHI: { std::vector<V> t; for (auto& p : I.phis[c.from]) t.push_back(c.get(p.second)); for (size_t i = 0; i < t.size(); i++) c.regs[I.phis[c.from][i].first] = t[i]; break; }
        case Instruction::Load: { if (!I.idx.empty() || I.nslots != 1) throw NoMerge(); u64 off; u32 id = c.where(c.get(I.a[0]), I.sz, false, off); bool over = id >= TEMP; for (u64 i = 0; i < I.sz && !over; i++) over |= c.mem.mem.count({id, off + i}); V v;
            if (!over) v = loadN(*s.objs[id], off, I.sz, I.w); else { Obj t; t.reg = HEAP; t.size = I.sz; t.ensure(I.sz); for (u64 i = 0; i < I.sz; i++) { V b = c.byteAt(id, off + i); t.sh[i] = b.sh; if (b.e) { t.kind[i] = 1; t.sym[i] = b.e; } else t.val[i] = b.c; } v = loadN(t, 0, I.sz, I.w); }
            c.regs[I.dst] = v; break; }
        case Instruction::Store: { if (!I.idx.empty()) throw NoMerge(); u64 off; u32 id = c.where(c.get(I.a[1]), I.sz, true, off); V v = c.get(I.a[0]); Obj t; t.reg = HEAP; t.size = I.sz; t.ensure(I.sz); storeN(t, 0, v, I.sz); for (u64 i = 0; i < I.sz; i++) c.mem.mem[{id, off + i}] = loadByte(t, i); break; }
        case Instruction::GetElementPtr: { V p = c.get(I.a[0]); u64 off = I.off; if (p.e || p.sh) throw NoMerge(); for (size_t i = 0; i < I.idx.size(); i++) { const V& x = c.get(I.idx[i].first); if (x.sh || x.e) throw NoMerge(); off += (u64)sx(x.c, x.w) * I.idx[i].second; } p.c += off; p.w = 64; c.regs[I.dst] = p; break; }
        case Instruction::ICmp: c.regs[I.dst] = icmp(I.pred, c.get(I.a[0]), c.get(I.a[1])); break;
        case Instruction::Select: { V k = c.get(I.a[0]); const V x = c.get(I.a[1]), y = c.get(I.a[2]); if (k.sh) throw NoMerge(); V r = !k.e ? (k.c ? x : y) : mergeV(k.e, x, y); r.w = I.w; c.regs[I.dst] = r; break; }
        case Instruction::Trunc: { V v = c.get(I.a[0]), r; if (!v.e) r = cv(v.c, I.w); else r = ev_(eExtract(v.e, 0, I.w)); r.sh = v.sh & maskw(I.w); c.regs[I.dst] = r; break; }
        case Instruction::ZExt: { V v = c.get(I.a[0]), r; if (!v.e) r = cv(v.c, I.w); else r = ev_(eZext(v.e, I.w)); r.sh = v.sh; c.regs[I.dst] = r; break; }
        case Instruction::SExt: { V v = c.get(I.a[0]), r; if (!v.e) r = cv((u64)sx(v.c, v.w), I.w); else r = ev_(eSext(v.e, I.w)); r.sh = (u64)sx(v.sh, v.w) & maskw(I.w); c.regs[I.dst] = r; break; }
        case Instruction::Freeze: case Instruction::BitCast: c.regs[I.dst] = c.get(I.a[0]); break;
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: { V r = binop(s, I.op, c.get(I.a[0]), c.get(I.a[1])); c.regs[I.dst] = r; break; }
    default: throw NoMerge();
    }
}
static Side sideEval(State& s, Fn* fn, std::vector<V> regs0, Side mem0, int bb, int from, int J, u32& fuel, std::vector<u64> temps, size_t base) {
    Pure c{s, fn, std::move(regs0), std::move(mem0), from, J, fuel, std::move(temps), base};
    for (;;) {
        size_t pc = fn->bbStart[bb];
        if (bb == J) { if (fn->code[pc].op == Instruction::PHI) for (auto& p : fn->code[pc].phis[c.from]) c.mem.phi.push_back(c.get(p.second)); return c.mem; }
        for (;; pc++) {
            Ins& I = fn->code[pc];
            if (I.op == Instruction::Br) {
                if (!fuel--) throw NoMerge(); s.instrs++; nInstr++; int t; if (I.a.empty()) t = I.bb[0];
                else { const V k = c.get(I.a[0]); if (k.sh) throw NoMerge(); if (!k.e) t = k.c ? I.bb[0] : I.bb[1]; else { Side x = sideEval(s, fn, c.regs, c.mem, I.bb[0], bb, J, fuel, c.temps, base), y = sideEval(s, fn, c.regs, c.mem, I.bb[1], bb, J, fuel, c.temps, base); return mergeSide(s, k.e, x, y); } }
                c.from = bb; bb = t; break;
            }
            if (I.op == Instruction::Ret) { if (J >= 0 || I.nslots > 1) throw NoMerge(); if (I.nslots) c.mem.phi.push_back(c.get(I.a[0])); c.mem.mem.erase(c.mem.mem.lower_bound({TEMP + base, 0}), c.mem.mem.end()); return c.mem; }
            execPure(c, I);
        }
    }
}
static bool tryMerge(State& s, Ins& I, const E* cond) {
    if (noMerge) return false; Frame& f = s.st.back(); int J = joinOf(f.fn, I); if (J < 0) return false; Region2& r = regions[{f.fn, I.bbIdx}]; if (r.fails > 20 && r.fails * 2 > r.tries) return false; r.tries++;
    bool v = evalE(cond, *s.model); if (!feasible(s, v ? eNot(cond) : cond, nullptr)) return false;
    try {
        u32 fuel = 300; Side a = sideEval(s, f.fn, f.regs, Side(), I.bb[0], I.bbIdx, J, fuel, {}, 0), b = sideEval(s, f.fn, f.regs, Side(), I.bb[1], I.bbIdx, J, fuel, {}, 0), m = mergeSide(s, cond, a, b);
        int pc = f.fn->bbStart[J]; if (f.fn->code[pc].op == Instruction::PHI) { const std::vector<std::pair<int, int>>* any = nullptr; for (auto& q : f.fn->code[pc].phis) if (!q.empty() && (!any || q.size() < any->size())) any = &q;
            if (!any || any->size() != m.phi.size()) throw NoMerge(); for (size_t k = 0; k < m.phi.size(); k++) f.regs[(*any)[k].first] = m.phi[k]; pc++; }
        for (auto& p : m.mem) storeN(wr(s, p.first.first), p.first.second, p.second, 1);
        f.bb = I.bbIdx; f.pc = pc; nMerged++; return true;
    } catch (NoMerge&) { r.fails++; return false; }
}
// if (a && b) X else Y is several blocks: the ones that only compute the next part of the condition are evaluated together
// and the path splits once, on the whole condition
struct Fold { bool known = false; std::vector<int> absorbed; u32 fails = 0, tries = 0; }; static std::map<std::pair<Fn*, int>, Fold> folds;
static Fold& foldOf(Fn* f, const Ins& I) {
    Fold& r = folds[{f, I.bbIdx}]; if (r.known) return r; r.known = true;
    std::vector<std::vector<int>> preds(f->bbStart.size()); auto last = [&](int b) { size_t pc = f->bbStart[b]; while (pc + 1 < f->code.size() && f->code[pc + 1].bbIdx == b) pc++; return pc; };
    for (size_t b = 0; b < f->bbStart.size(); b++) { const Ins& L = f->code[last(b)]; for (int t : L.bb) preds[t].push_back(b); }
    std::set<int> in = {I.bbIdx}; std::vector<int> order; size_t best = 0;
    for (int round = 0; round < 8; round++) {
        int pick = -1; std::vector<int> all = {I.bbIdx}; all.insert(all.end(), order.begin(), order.end());
        for (int b : all) { for (int t : f->code[last(b)].bb) { if (in.count(t) || pick >= 0) continue; const Ins& L = f->code[last(t)]; if (L.op != Instruction::Br || L.bb.size() != 2) continue; bool ok = true; for (int q : preds[t]) ok &= in.count(q) > 0; size_t pc = f->bbStart[t]; if (last(t) - pc > 24) ok = false; for (; ok && pc <= last(t); pc++) ok = regionOp(f->code[pc]) && f->code[pc].op != Instruction::Store; if (ok) pick = t; } if (pick >= 0) break; }
        if (pick < 0) break; order.push_back(pick); in.insert(pick);
        std::set<int> ex; bool back = false; for (int b : in) for (int t : f->code[last(b)].bb) { if (t == I.bbIdx) back = true; if (!in.count(t)) ex.insert(t); } if (back) break; if (ex.size() == 2) best = order.size();
    }
    order.resize(best); r.absorbed = order; return r;
}
static bool tryFold(State& s, Ins& I, const E* cond) {
    if (noMerge) return false; Fn* fn = s.st.back().fn; Fold& r = foldOf(fn, I); if (r.absorbed.empty() || (r.fails > 20 && r.fails * 2 > r.tries)) return false; r.tries++;
    bool v = evalE(cond, *s.model); if (!feasible(s, v ? eNot(cond) : cond, nullptr)) return false;
    try {
        u32 fuel = 300; Pure c{s, fn, s.st.back().regs, Side(), I.bbIdx, -2, fuel, {}, 0};
        struct Edge { int from; const E* g; }; std::map<int, std::vector<Edge>> edges; auto edge = [&](int from, int to, const E* g) { if (!isK(g, 0)) edges[to].push_back({from, g}); };
        edge(I.bbIdx, I.bb[0], cond); edge(I.bbIdx, I.bb[1], eNot(cond));
        auto phisOf = [&](int b, std::vector<std::pair<int, V>>& out) { Ins& P = fn->code[fn->bbStart[b]]; if (P.op != Instruction::PHI) return; auto& E0 = edges[b]; size_t n = P.phis[E0[0].from].size();
            for (size_t k = 0; k < n; k++) { V x; for (size_t i = E0.size(); i-- > 0;) { if (P.phis[E0[i].from].size() != n) throw NoMerge(); V y = c.get(P.phis[E0[i].from][k].second); x = i + 1 == E0.size() ? y : mergeV(E0[i].g, y, x); } out.push_back({P.phis[E0[0].from][k].first, x}); } };
        for (int b : r.absorbed) {
            if (!edges.count(b)) continue; const E* g = K(0, 1); for (auto& e : edges[b]) g = eBin(OR, g, e.g);
            size_t pc = fn->bbStart[b]; if (fn->code[pc].op == Instruction::PHI) { std::vector<std::pair<int, V>> ph; phisOf(b, ph); for (auto& p : ph) c.regs[p.first] = p.second; pc++; }
            for (; fn->code[pc].op != Instruction::Br; pc++) { execPure(c, fn->code[pc]); if (!c.mem.mem.empty()) throw NoMerge(); }
            Ins& B = fn->code[pc]; const V k = c.get(B.a[0]); if (k.sh) throw NoMerge(); const E* ke = toE(k); edge(b, B.bb[0], eAnd(g, ke)); edge(b, B.bb[1], eAnd(g, eNot(ke))); edges.erase(b);
        }
        if (edges.empty() || edges.size() > 2) throw NoMerge();
        auto it = edges.begin(); int t0 = it->first; const E* g0 = K(0, 1); for (auto& e : it->second) g0 = eBin(OR, g0, e.g); int t1 = edges.size() == 2 ? (++it)->first : t0;
        std::vector<std::pair<int, V>> p0, p1; phisOf(t0, p0); if (t1 != t0) phisOf(t1, p1);
        bool first = t1 == t0 || decide(s, g0); Frame& f = s.st.back(); int t = first ? t0 : t1; f.regs = c.regs; for (auto& p : first ? p0 : p1) f.regs[p.first] = p.second;
        f.bb = edges[t][0].from; f.pc = fn->bbStart[t]; if (fn->code[f.pc].op == Instruction::PHI) f.pc++; nMerged++; return true;
    } catch (NoMerge&) { r.fails++; return false; }
}
static bool hung = false;
static long rssMB() { long a = 0, b = 0; FILE* f = fopen("/proc/self/statm", "r"); if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return b / 256; }
static void step(State& s) {
    Frame& f = s.st.back(); Ins& I = f.fn->code[f.pc];
    auto get = [&](int o) -> const V& { return o >= 0 ? s.st.back().regs[o] : s.st.back().fn->pool[~o]; };
    s.instrs++; nInstr++;
    if (s.tid && !f.entered && f.fn->lib) { f.entered = true; atBlock(s); }
    if (s.instrs > maxInstr) { report(s, "hang", "the path does not end within the instruction limit", *s.model); hung = true; endPath(); }
    if (!(s.instrs & 0xfffff) && rssMB() > 9000) { report(s, "hang", "the path takes ever more memory", *s.model); hung = true; endPath(); }
    switch (I.op) {
    case Instruction::PHI: { auto& L = I.phis[f.bb]; std::vector<V> t; for (auto& p : L) t.push_back(get(p.second)); for (size_t i = 0; i < L.size(); i++) f.regs[L[i].first] = t[i]; f.pc++; return; }
    case Instruction::Alloca: { V r = newAlloca(s, get(I.a[0]), I.sz, I.I->hasName() ? I.I->getName().str().c_str() : "alloca"); s.st.back().regs[I.dst] = r; s.st.back().pc++; return; }
    case Instruction::Load: { V t; if (I.idx.empty() && get(I.a[0]).e && tableLoad(s, get(I.a[0]), I.sz, I.w, t)) { s.st.back().regs[I.dst] = t; s.st.back().pc++; return; }
        u64 off; u32 id = access(s, get(I.a[0]), I.sz, false, off, "read"); if (!I.idx.empty()) { for (size_t i = 0; i < I.idx.size(); i++) s.st.back().regs[I.dst + i] = loadN(*s.objs[id], off + I.idx[i].second, (I.idx[i].first + 7) / 8, I.idx[i].first); s.st.back().pc++; return; } s.st.back().regs[I.dst] = loadN(*s.objs[id], off, I.sz, I.w); s.st.back().pc++; return; }
    case Instruction::Store: { u64 off; u32 id = access(s, get(I.a[1]), I.sz, true, off, "write"); if (!I.idx.empty()) { Frame& g = s.st.back(); Obj& o = wr(s, id); for (size_t i = 0; i < I.idx.size(); i++) { V v = I.a[0] >= 0 ? g.regs[I.a[0] + i] : g.fn->pool[~I.a[0] + i]; v.w = I.idx[i].first; storeN(o, off + I.idx[i].second, v, (I.idx[i].first + 7) / 8); } g.pc++; return; } V v = get(I.a[0]); storeN(wr(s, id), off, v, I.sz); s.st.back().pc++; return; }
    case Instruction::GetElementPtr: {
        V p = get(I.a[0]); u64 sh = p.sh; u64 off = I.off; const E* e = nullptr;
        for (size_t i = 0; i < I.idx.size(); i++) { const V& x = get(I.idx[i].first); if (x.sh) sh = ~0ull; if (!x.e) off += (u64)sx(x.c, x.w) * I.idx[i].second; else { const E* t = eBin(MUL, eSext(x.e, 64), K(I.idx[i].second, 64)); e = e ? eBin(ADD, e, t) : t; } }
        if (!p.e && !e) p.c += off; else { const E* t = eBin(ADD, toE(p), K(off, 64)); if (e) t = eBin(ADD, t, e); p = ev_(t); } p.sh = sh; p.w = 64; f.regs[I.dst] = p; f.pc++; return; }
    case Instruction::Br: {
        if (I.a.empty()) { gotoBB(f, I.bb[0]); return; }
        const V c = get(I.a[0]); needInit(s, c, "a branch");
        if (c.e && !s.tid && (tryMerge(s, I, c.e) || tryFold(s, I, c.e))) return;
        bool t = c.e ? decide(s, c.e) : c.c; gotoBB(s.st.back(), t ? I.bb[0] : I.bb[1]); return; }
    case Instruction::Switch: {
        const V c = get(I.a[0]); needInit(s, c, "a switch");
        if (!c.e) { int t = I.bb[0]; for (auto& k : I.cases) if (k.first == c.c) t = k.second; gotoBB(f, t); return; }
        for (auto& k : I.cases) if (decide(s, eBin(EQ, c.e, K(k.first, c.w)))) { gotoBB(s.st.back(), k.second); return; }
        gotoBB(s.st.back(), I.bb[0]); return; }
    case Instruction::Ret: {
        std::vector<V> r; for (int i = 0; i < I.nslots; i++) r.push_back(I.a[0] >= 0 ? f.regs[I.a[0] + i] : f.fn->pool[~I.a[0] + i]);
        int ret = f.ret; popFrame(s); if (s.st.empty()) { if (s.tid) endThread(s); return; }
        Frame& g = s.st.back(); if (ret >= 0) for (size_t i = 0; i < r.size(); i++) g.regs[ret + i] = r[i]; g.pc++; return; }
    case Instruction::Call: {
        Args a; for (int o : I.a) a.push_back(get(o)); Fn* fn = I.callee;
        if (I.iid) { intrinsic(s, I, a); s.st.back().pc++; return; }
        if (!fn) { V p = a.back(); a.pop_back(); needInit(s, p, "a call"); u64 x = concretise(s, p); auto it = (x >> 32) ? fnByObj.find((x >> 32) - 1) : fnByObj.end(); if (it == fnByObj.end() || (x & 0xffffffff)) { report(s, "memory", "call through a bad function pointer", *s.model); endPath(); } fn = it->second; }
        if (fn->ext) {
            if (I.builtin >= 0) { V r; r.w = I.w ? I.w : 32; builtins[I.builtin](s, I, a, r); Frame& g = s.st.back(); if (I.dst >= 0) { r.w = I.w; g.regs[I.dst] = r; } g.pc++; return; }
            std::string nm = fn->name; for (const char* p_ : {"__isoc99_", "__isoc23_"}) if (nm.rfind(p_, 0) == 0) nm = nm.substr(9);
            auto m = fnByName.find("sxm_" + nm); if (m != fnByName.end() && !m->second->ext) { fn = m->second; if (I.callee) I.callee = fn; }
            else {
                auto b = builtinIds.find(nm); if (b == builtinIds.end()) die("call of unmodelled external function %s at %s", nm.c_str(), locOf(I.I).c_str());
                if (I.callee) I.builtin = b->second;
                V r; r.w = I.w ? I.w : 32; builtins[b->second](s, I, a, r); Frame& g = s.st.back(); if (I.dst >= 0) { r.w = I.w; g.regs[I.dst] = r; } g.pc++; return;
            }
        }
        if (s.tid && fn->names && f.fn->lib) { if (!f.before) { f.before = true; atBlock(s); } s.st.back().before = false; s.shared = true; }
        pushCall(s, fn, a, I.dst, nullptr); return; }
    case Instruction::ICmp: { f.regs[I.dst] = icmp(I.pred, get(I.a[0]), get(I.a[1])); f.pc++; return; }
    case Instruction::Select: {
        V c = get(I.a[0]); const V x = get(I.a[1]), y = get(I.a[2]); V r;
        if (c.e && !c.sh && !x.e && !y.e && !x.sh && !y.sh && I.w != 1 && x.c != y.c) { c.c = decide(s, c.e); c.e = nullptr; Frame& g = s.st.back(); r = c.c ? x : y; r.w = I.w; g.regs[I.dst] = r; g.pc++; return; }   // between constants: as a branch
        if (c.e && !c.sh && !feasible(s, evalE(c.e, *s.model) ? eNot(c.e) : c.e, nullptr)) { c.c = evalE(c.e, *s.model); c.e = nullptr; }
        if (!c.e) r = c.c ? x : y; else { r = ev_(eIte(c.e, toE(x), toE(y))); r.sh = x.sh | y.sh; } if (c.sh) r.sh = maskw(I.w); r.w = I.w; f.regs[I.dst] = r; f.pc++; return; }
    case Instruction::Trunc: { V v = get(I.a[0]); V r; if (!v.e) r = cv(v.c, I.w); else r = ev_(eExtract(v.e, 0, I.w)); r.sh = v.sh & maskw(I.w); f.regs[I.dst] = r; f.pc++; return; }
    case Instruction::ZExt: { V v = get(I.a[0]); V r; if (!v.e) r = cv(v.c, I.w); else r = ev_(eZext(v.e, I.w)); r.sh = v.sh; f.regs[I.dst] = r; f.pc++; return; }
    case Instruction::SExt: { V v = get(I.a[0]); V r; if (!v.e) r = cv((u64)sx(v.c, v.w), I.w); else r = ev_(eSext(v.e, I.w)); r.sh = (u64)sx(v.sh, v.w) & maskw(I.w); f.regs[I.dst] = r; f.pc++; return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { V v = get(I.a[0]); V r; if (!v.e) r = cv(v.c, I.w); else r = ev_(I.w < v.w ? eExtract(v.e, 0, I.w) : eZext(v.e, I.w)); r.sh = v.sh & maskw(I.w); f.regs[I.dst] = r; f.pc++; return; }
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: f.regs[I.dst] = get(I.a[0]); f.pc++; return;
    case Instruction::ExtractValue: for (int i = 0; i < I.nslots; i++) f.regs[I.dst + i] = I.a[0] >= 0 ? f.regs[I.a[0] + I.off + i] : f.fn->pool[~I.a[0] + I.off + i]; f.pc++; return;
    case Instruction::InsertValue: { std::vector<V> t; for (int i = 0; i < I.nslots; i++) t.push_back(I.a[0] >= 0 ? f.regs[I.a[0] + i] : f.fn->pool[~I.a[0] + i]); for (u64 i = 0; i < I.sz; i++) t[I.off + i] = I.a[1] >= 0 ? f.regs[I.a[1] + i] : f.fn->pool[~I.a[1] + i]; for (int i = 0; i < I.nslots; i++) f.regs[I.dst + i] = t[i]; f.pc++; return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: case Instruction::FCmp: {
        V a = get(I.a[0]), b = get(I.a[1]); needInit(s, a, "arithmetic"); needInit(s, b, "arithmetic"); double x = fpOf(concretise(s, a), a.w), y = fpOf(concretise(s, b), b.w); V r;
        switch (I.op) { case Instruction::FAdd: r = fpV(x + y, I.w); break; case Instruction::FSub: r = fpV(x - y, I.w); break; case Instruction::FMul: r = fpV(x * y, I.w); break; case Instruction::FDiv: r = fpV(x / y, I.w); break; case Instruction::FRem: r = fpV(fmod(x, y), I.w); break; default: r = cv(fcmp(I.pred, x, y), 1); }
        Frame& g = s.st.back(); g.regs[I.dst] = r; g.pc++; return; }
    case Instruction::FNeg: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: {
        V a = get(I.a[0]); needInit(s, a, "arithmetic"); u64 c = concretise(s, a); double x = fpOf(c, a.w); V r;
        switch (I.op) { case Instruction::FNeg: r = fpV(-x, I.w); break; case Instruction::SIToFP: r = fpV((double)(int64_t)sx(c, a.w), I.w); break; case Instruction::UIToFP: r = fpV((double)c, I.w); break; case Instruction::FPExt: case Instruction::FPTrunc: r = fpV(x, I.w); break;
            default: { bool sg = I.op == Instruction::FPToSI; double hi = ldexp(1, I.w - (sg ? 1 : 0)), t = trunc(x); if (!(t < hi && t >= (sg ? -hi : 0))) { report(s, "arithmetic", "a floating point value that the integer cannot hold", *s.model); endPath(); } r = cv(sg ? (u64)(int64_t)t : (u64)t, I.w); } }
        Frame& g = s.st.back(); g.regs[I.dst] = r; g.pc++; return; }
    case Instruction::Fence: f.pc++; return;
    case Instruction::AtomicRMW: {
        u64 off; u32 id = access(s, get(I.a[0]), I.sz, true, off, "write"); V old = loadN(*s.objs[id], off, I.sz, I.w), v = get(I.a[1]), r;
        switch (I.pred) { case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Add: r = binop(s, Instruction::Add, old, v); break; case AtomicRMWInst::Sub: r = binop(s, Instruction::Sub, old, v); break; case AtomicRMWInst::And: r = binop(s, Instruction::And, old, v); break; case AtomicRMWInst::Or: r = binop(s, Instruction::Or, old, v); break; case AtomicRMWInst::Xor: r = binop(s, Instruction::Xor, old, v); break; default: die("unsupported atomic operation"); }
        storeN(wr(s, id), off, r, I.sz); Frame& g = s.st.back(); g.regs[I.dst] = old; g.pc++; return; }
    case Instruction::AtomicCmpXchg: {
        u64 off; u32 id = access(s, get(I.a[0]), I.sz, true, off, "write"); V want = get(I.a[1]), v = get(I.a[2]), old = loadN(*s.objs[id], off, I.sz, want.w), k = icmp(CmpInst::ICMP_EQ, old, want); needInit(s, k, "a comparison");
        bool t = k.e ? decide(s, k.e) : k.c; if (t) storeN(wr(s, id), off, v, I.sz); Frame& g = s.st.back(); g.regs[I.dst] = old; g.regs[I.dst + 1] = cv(t, 1); g.pc++; return; }
    case Instruction::Unreachable: report(s, "abort", "unreachable code reached", *s.model); endPath();
    default: { V r = binop(s, I.op, get(I.a[0]), get(I.a[1])); s.st.back().regs[I.dst] = r; s.st.back().pc++; return; }
    }
}
// ------------------------------------------------------------------ output
static std::string js(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string hex(const u8* p, size_t n) { std::string r; char b[4]; for (size_t i = 0; i < n; i++) { snprintf(b, 4, "%02x", p[i]); r += b; } return r; }
static std::string inputsJ(const std::vector<Inp>& in, const std::vector<u8>& bytes) { std::string r = "["; for (size_t i = 0; i < in.size(); i++) { if (i) r += ","; r += "[" + js(in[i].name) + ",\"" + hex(bytes.data() + in[i].start, in[i].len) + "\"]"; } return r + "]"; }
static std::string schedJ(const std::vector<u32>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::to_string(v[i]); return r + "]"; }
struct Sample { std::vector<u32> sched; std::vector<Inp> in; std::vector<u8> bytes; std::vector<std::pair<std::string, std::string>> obs; std::vector<std::string> reach; u64 instrs; };
int main(int argc, char** argv) {
    std::string bc, entry, out;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { if (++i >= argc) die("missing argument of %s", a.c_str()); return std::string(argv[i]); };
        if (a == "-entry") entry = nx(); else if (a == "-lib") { std::ifstream f(nx()); std::string n; while (f >> n) libNames.insert(n); } else if (a == "-out") out = nx(); else if (a == "-time") timeLimit = atof(nx().c_str()); else if (a == "-maxinstr") maxInstr = atoll(nx().c_str()); else if (a == "-maxviol") maxViol = atoi(nx().c_str());
        else if (a == "-shard") { shardI = atoll(nx().c_str()); shardN = atoll(nx().c_str()); shardDepth = atoll(nx().c_str()); } else if (a == "-seed") seed = atoll(nx().c_str()); else if (a == "-samples") nSamples = atoi(nx().c_str()); else if (a == "-dump") { dumpDir = nx(); dumpN = atoi(nx().c_str()); }
        else if (a == "-p") { std::string p = nx(); auto e = p.find('='); params[p.substr(0, e)] = atol(p.substr(e + 1).c_str()); } else bc = a; }
    reuse = params.count("REUSE") && params["REUSE"]; paramsUsed.insert("REUSE"); if (params.count("SWITCHES")) maxSwitches = params["SWITCHES"]; if (params.count("FORCE")) forceShared = params["FORCE"]; paramsUsed.insert("SWITCHES"); paramsUsed.insert("FORCE");
    tStart = nowS(); SMDiagnostic err; M = parseIRFile(bc, err, C); if (!M) die("cannot parse %s: %s", bc.c_str(), err.getMessage().str().c_str()); DL = &M->getDataLayout();
    Z3_config cfg = Z3_mk_config(); zc = Z3_mk_context(cfg); Z3_set_error_handler(zc, zErr); zReset(); defBuiltins();
    for (auto& F : *M) getFn(&F); for (auto& G : M->globals()) globalObj(&G); for (auto& F : *M) globalObj(&F);
    for (auto& p : fnByName) { p.second->lib = libNames.count(p.first); for (const char* n : {"fopen", "freopen", "open", "creat", "mkstemp", "remove", "unlink", "rename", "fclose", "close"}) if (p.first == std::string("sxm_") + n) p.second->names = true; }
    for (auto& G : M->globals()) { u32 g = gObj.at(&G); if (G.isThreadLocal()) { tlsGlobals.push_back(g); tlsInit.push_back(initObjs[g]); } else if (libNames.count(G.getName().str())) libGlobals.insert(g); }
    auto it = fnByName.find(entry); if (it == fnByName.end() || it->second->ext) die("no entry %s", entry.c_str());
    State* s0 = new State; s0->objs = initObjs; initObjs.clear(); s0->model = std::make_shared<std::vector<u8>>(); pushCall(*s0, it->second, {}, -1, nullptr); work.push_back(s0);
    std::mt19937_64 rng(seed); std::vector<Sample> samples; u64 maxDepth = 0, maxCons = 0, maxPathInstr = 0; std::map<std::string, Sample> firstReach;
    while (!work.empty()) {
        State* s = work.back(); work.pop_back(); cur = s; bool done = false; u32 cnt = 0;
        try {
            while (!s->st.empty()) { step(*s); if ((++cnt & 0xfff) == 0 && nowS() - tStart > timeLimit) { statusS = "time limit"; break; } }
            done = s->st.empty();
        } catch (PathEnd&) { nPruned++; maxPathInstr = std::max(maxPathInstr, s->instrs); }
        if (done) {
            nPaths++; maxCons = std::max<u64>(maxCons, s->cons.size()); maxPathInstr = std::max(maxPathInstr, s->instrs); maxDepth = std::max<u64>(maxDepth, s->nsym);
            std::set<u32> rs(s->reached.begin(), s->reached.end()); bool fresh = false; for (u32 r : rs) { if (!reachCount[labels[r]]++) fresh = true; }
            auto mkS = [&]() { Sample p; p.sched = s->sched; p.in = s->inputs; p.bytes = *s->model; p.instrs = s->instrs; for (u32 r : rs) p.reach.push_back(labels[r]); for (auto& o : s->obs) { std::string v; if (o.v.size() == 1 && o.v[0].w > 8) v = std::to_string((long long)sx(o.v[0].e ? evalE(o.v[0].e, *s->model) : o.v[0].c, o.v[0].w)); else for (auto& b : o.v) { u8 x = b.e ? evalE(b.e, *s->model) : b.c; v += hex(&x, 1); } p.obs.push_back({o.name, v}); } return p; };
            if (nSamples) { if ((int)samples.size() < nSamples) samples.push_back(mkS()); else { u64 k = rng() % nPaths; if (k < (u64)nSamples) samples[k] = mkS(); } if (fresh) for (u32 r : rs) if (!firstReach.count(labels[r])) firstReach[labels[r]] = mkS(); }
        }
        delete s;
        if (statusS != "complete") break;
        if ((int)viols.size() >= maxViol || hung) { if (!work.empty()) statusS = "stopped after violations"; break; }
        if (nowS() - tStart > timeLimit && !work.empty()) { statusS = "time limit"; break; }
    }
    if (forkStats) for (auto& p : forkAt) fprintf(stderr, "%8llu %s\n", (unsigned long long)p.second, p.first.c_str());
    std::ofstream o(out.empty() ? "/dev/stdout" : out);
    o << "{\"status\":" << js(statusS) << ",\"entry\":" << js(entry) << ",\"params\":{"; bool c0 = false; for (auto& p : params) { o << (c0 ? "," : "") << js(p.first) << ":" << p.second; c0 = true; }
    o << "},\"paths\":" << nPaths << ",\"ended_early\":" << nPruned - nOther << ",\"assume_pruned\":" << nAssume0 << ",\"pending\":" << work.size() << ",\"forks\":" << nForks << ",\"merged\":" << nMerged << ",\"instructions\":" << nInstr << ",\"queries\":" << nQueries << ",\"z3_queries\":" << nZ3 << ",\"sat\":" << nSat << ",\"unsat\":" << nUnsat << ",\"solver_s\":" << solverS << ",\"max_query_s\":" << maxQ << ",\"asserts\":" << nAsserts << ",\"checks\":" << nMemQ << ",\"expressions\":" << g_all.size() << ",\"max_input_bytes\":" << maxDepth << ",\"max_constraints\":" << maxCons << ",\"max_path_instructions\":" << maxPathInstr << ",\"wall_s\":" << nowS() - tStart << ",\"violations_total\":" << violTotal << ",\"functions\":{";
    c0 = false; for (auto& p : fnByName) if (p.second->executed) { o << (c0 ? "," : "") << js(p.first) << ":" << p.second->executed; c0 = true; }
    o << "},\"reach\":{"; c0 = false; for (auto& p : reachCount) { o << (c0 ? "," : "") << js(p.first) << ":" << p.second; c0 = true; }
    o << "},\"violations\":["; for (size_t i = 0; i < viols.size(); i++) { auto& v = viols[i]; o << (i ? "," : "") << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"loc\":" << js(v.loc) << ",\"sched\":" << schedJ(v.sched) << ",\"stack\":["; for (size_t k = 0; k < v.stack.size(); k++) o << (k ? "," : "") << js(v.stack[k]); o << "],\"inputs\":" << inputsJ(v.inputs, v.bytes) << "}"; }
    o << "],\"samples\":["; for (auto& p : firstReach) samples.push_back(p.second);
    for (size_t i = 0; i < samples.size(); i++) { auto& p = samples[i]; o << (i ? "," : "") << "{\"inputs\":" << inputsJ(p.in, p.bytes) << ",\"sched\":" << schedJ(p.sched) << ",\"instrs\":" << p.instrs << ",\"reach\":["; for (size_t k = 0; k < p.reach.size(); k++) o << (k ? "," : "") << js(p.reach[k]); o << "],\"obs\":["; for (size_t k = 0; k < p.obs.size(); k++) o << (k ? "," : "") << "[" << js(p.obs[k].first) << "," << js(p.obs[k].second) << "]"; o << "]}"; }
    o << "]}\n"; o.close(); fflush(stdout); _exit(0);
}
