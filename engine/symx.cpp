// symx: bounded symbolic executor for LLVM bitcode (LLVM 20) with Z3 as the deciding solver.
// Exploration is depth-first by re-execution of decision prefixes; several worker processes share
// the work.  See DESIGN.md for the model of memory, exceptions and environment.
#include "expr.h"

#include <unordered_set>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <algorithm>
#include <atomic>
#include <deque>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <pthread.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace llvm;
using std::string;
using std::vector;

void engine_error(const string &m) { throw EngineError{m}; }
static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// ---------------------------------------------------------------- options
static string opt_bc, opt_entry, opt_out;
static int opt_jobs = 8;
static double opt_time = 300;
static u64 opt_maxsteps = 3000000;
static unsigned opt_qtimeout = 20000;
static u64 opt_maxpaths = ~0ull;
static int opt_samples = 24;
static bool opt_verbose = false, opt_intervals = false;
static int opt_maxviol = 40;
static int opt_seed = 1;
static string opt_tactic;
static bool opt_ite_loads = true;
static double opt_afterviol = 10;
static std::set<string> opt_known;

// ---------------------------------------------------------------- values
struct V {
    u64 c;
    Expr *e;
};
static inline V VC(u64 c) { return V{c, nullptr}; }
static inline V VE(Expr *e) {
    if(e->op == E_CONST) return V{e->val, nullptr};
    return V{0, e};
}
static inline Expr *toE(const V &v, unsigned w) { return v.e ? v.e : mkc(v.c, w); }

// ---------------------------------------------------------------- solver
struct Stats {
    u64 paths_complete = 0, paths_violation = 0, paths_assumed_away = 0, paths_error = 0, paths_limit = 0, tolerated = 0;
    u64 queries = 0, q_sat = 0, q_unsat = 0, q_unknown = 0;
    u64 forks = 0, implied = 0, steps = 0, asserts = 0, sym_asserts = 0, by_interval = 0;
    double solver_time = 0;
};
static Stats st;

struct Decision {
    u64 val;
    u32 kind; // 0/1 forked false/true, 2/3 implied, 4 eq-value taken, 5 neq-value taken, 6 eq-value implied
    u32 pad;
};

struct Solver {
    Z3_context ctx = nullptr;
    Z3_solver s = nullptr;
    vector<Expr *> stack;
    u64 since_reset = 0;
    vector<Expr *> translated;
    vector<Z3_ast> kept;
    // every term handed out by the C API is kept alive until the context is dropped
    template<class F, class... A> Z3_ast K(F f, A... a) {
        Z3_ast r = f(ctx, a...);
        Z3_inc_ref(ctx, r);
        kept.push_back(r);
        return r;
    }
    template<class F> Z3_ast K(F f) {
        Z3_ast r = f(ctx);
        Z3_inc_ref(ctx, r);
        kept.push_back(r);
        return r;
    }

    void init() {
        Z3_config cfg = Z3_mk_config();
        ctx = Z3_mk_context_rc(cfg);
        Z3_del_config(cfg);
        Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) {
            throw EngineError{string("z3: ") + Z3_get_error_msg(c, e)};
        });
        if(opt_tactic.size()) {
            s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, opt_tactic.c_str()));
        } else {
            s = Z3_mk_simple_solver(ctx);
        }
        Z3_solver_inc_ref(ctx, s);
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), opt_qtimeout);
        Z3_solver_set_params(ctx, s, p);
        Z3_params_dec_ref(ctx, p);
        stack.clear();
        translated.clear();
    }
    void destroy() {
        for(Expr *e : translated) {
            e->z = e->zb = nullptr;
        }
        for(Z3_ast k : kept) Z3_dec_ref(ctx, k);
        kept.clear();
        translated.clear();
        fps[0] = fps[1] = nullptr;
        Z3_solver_dec_ref(ctx, s);
        Z3_del_context(ctx);
        ctx = nullptr;
    }
    Z3_sort fps[2] = {};
    Z3_sort fpsort(unsigned w) {
        Z3_sort &f = fps[w == 64];
        if(!f) {
            f = w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx);
            Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, f));
        }
        return f;
    }
    Z3_ast fp(Expr *e) { return K(Z3_mk_fpa_to_fp_bv, tr(e), fpsort(e->w)); }
    Z3_ast b2bv(Z3_ast b) {
        Z3_sort s1 = Z3_mk_bv_sort(ctx, 1);
        return K(Z3_mk_ite, b, K(Z3_mk_unsigned_int, 1, s1), K(Z3_mk_unsigned_int, 0, s1));
    }
    // translate boolean (width-1) expression to a z3 Bool
    Z3_ast trb(Expr *e) {
        if(e->zb) return e->zb;
        Z3_ast r = trb1(e);
        e->zb = r;
        translated.push_back(e);
        return r;
    }
    Z3_ast trb1(Expr *e) {
        switch(e->op) {
        case E_EQ: return K(Z3_mk_eq, tr(e->a), tr(e->b));
        case E_ULT: return K(Z3_mk_bvult, tr(e->a), tr(e->b));
        case E_ULE: return K(Z3_mk_bvule, tr(e->a), tr(e->b));
        case E_SLT: return K(Z3_mk_bvslt, tr(e->a), tr(e->b));
        case E_SLE: return K(Z3_mk_bvsle, tr(e->a), tr(e->b));
        case E_FLT: return K(Z3_mk_fpa_lt, fp(e->a), fp(e->b));
        case E_FLE: return K(Z3_mk_fpa_leq, fp(e->a), fp(e->b));
        case E_FEQ: return K(Z3_mk_fpa_eq, fp(e->a), fp(e->b));
        case E_FUNO: {
            Z3_ast x[2] = {K(Z3_mk_fpa_is_nan, fp(e->a)), K(Z3_mk_fpa_is_nan, fp(e->b))};
            return K(Z3_mk_or, 2, x);
        }
        case E_AND: {
            Z3_ast x[2] = {trb(e->a), trb(e->b)};
            return K(Z3_mk_and, 2, x);
        }
        case E_OR: {
            Z3_ast x[2] = {trb(e->a), trb(e->b)};
            return K(Z3_mk_or, 2, x);
        }
        case E_XOR:
            if(isc(e->b)) return e->b->val ? K(Z3_mk_not, trb(e->a)) : trb(e->a);
            return K(Z3_mk_xor, trb(e->a), trb(e->b));
        case E_CONST: return e->val ? K(Z3_mk_true) : K(Z3_mk_false);
        case E_ITE: return K(Z3_mk_ite, trb(e->a), trb(e->b), trb(e->c));
        default: {
            Z3_sort s1 = Z3_mk_bv_sort(ctx, 1);
            return K(Z3_mk_eq, tr(e), K(Z3_mk_unsigned_int, 1, s1));
        }
        }
    }
    Z3_ast tr(Expr *e) {
        if(e->z) return e->z;
        Z3_ast r;
        switch(e->op) {
        case E_CONST: r = K(Z3_mk_unsigned_int64, e->val, Z3_mk_bv_sort(ctx, e->w)); break;
        case E_VAR: {
            char n[32];
            snprintf(n, 32, "v%llu_%u", (unsigned long long)e->val, e->w);
            r = K(Z3_mk_const, Z3_mk_string_symbol(ctx, n), Z3_mk_bv_sort(ctx, e->w));
            break;
        }
        case E_ADD: r = K(Z3_mk_bvadd, tr(e->a), tr(e->b)); break;
        case E_SUB: r = K(Z3_mk_bvsub, tr(e->a), tr(e->b)); break;
        case E_MUL: r = K(Z3_mk_bvmul, tr(e->a), tr(e->b)); break;
        case E_UDIV: r = K(Z3_mk_bvudiv, tr(e->a), tr(e->b)); break;
        case E_SDIV: r = K(Z3_mk_bvsdiv, tr(e->a), tr(e->b)); break;
        case E_UREM: r = K(Z3_mk_bvurem, tr(e->a), tr(e->b)); break;
        case E_SREM: r = K(Z3_mk_bvsrem, tr(e->a), tr(e->b)); break;
        case E_AND: r = e->w == 1 ? b2bv(trb(e)) : K(Z3_mk_bvand, tr(e->a), tr(e->b)); break;
        case E_OR: r = e->w == 1 ? b2bv(trb(e)) : K(Z3_mk_bvor, tr(e->a), tr(e->b)); break;
        case E_XOR: r = e->w == 1 ? b2bv(trb(e)) : K(Z3_mk_bvxor, tr(e->a), tr(e->b)); break;
        case E_SHL: r = K(Z3_mk_bvshl, tr(e->a), tr(e->b)); break;
        case E_LSHR: r = K(Z3_mk_bvlshr, tr(e->a), tr(e->b)); break;
        case E_ASHR: r = K(Z3_mk_bvashr, tr(e->a), tr(e->b)); break;
        case E_CONCAT: r = K(Z3_mk_concat, tr(e->a), tr(e->b)); break;
        case E_EXTRACT: r = K(Z3_mk_extract, e->val + e->w - 1, e->val, tr(e->a)); break;
        case E_ZEXT: r = K(Z3_mk_zero_ext, e->w - e->a->w, tr(e->a)); break;
        case E_SEXT: r = K(Z3_mk_sign_ext, e->w - e->a->w, tr(e->a)); break;
        case E_ITE: r = K(Z3_mk_ite, trb(e->a), tr(e->b), tr(e->c)); break;
        case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE:
        case E_FLT: case E_FLE: case E_FEQ: case E_FUNO:
            r = b2bv(trb(e));
            break;
        case E_FADD: r = K(Z3_mk_fpa_to_ieee_bv, K(Z3_mk_fpa_add, K(Z3_mk_fpa_rne), fp(e->a), fp(e->b))); break;
        case E_FSUB: r = K(Z3_mk_fpa_to_ieee_bv, K(Z3_mk_fpa_sub, K(Z3_mk_fpa_rne), fp(e->a), fp(e->b))); break;
        case E_FMUL: r = K(Z3_mk_fpa_to_ieee_bv, K(Z3_mk_fpa_mul, K(Z3_mk_fpa_rne), fp(e->a), fp(e->b))); break;
        case E_FDIV: r = K(Z3_mk_fpa_to_ieee_bv, K(Z3_mk_fpa_div, K(Z3_mk_fpa_rne), fp(e->a), fp(e->b))); break;
        case E_SI2F:
            r = K(Z3_mk_fpa_to_ieee_bv, K(Z3_mk_fpa_to_fp_signed, K(Z3_mk_fpa_rne), tr(e->a), fpsort(e->w)));
            break;
        case E_UI2F:
            r = K(Z3_mk_fpa_to_ieee_bv, K(Z3_mk_fpa_to_fp_unsigned, K(Z3_mk_fpa_rne), tr(e->a), fpsort(e->w)));
            break;
        case E_F2SI: r = K(Z3_mk_fpa_to_sbv, K(Z3_mk_fpa_rtz), fp(e->a), e->w); break;
        case E_F2UI: r = K(Z3_mk_fpa_to_ubv, K(Z3_mk_fpa_rtz), fp(e->a), e->w); break;
        case E_FPEXT: case E_FPTRUNC:
            r = K(Z3_mk_fpa_to_ieee_bv, K(Z3_mk_fpa_to_fp_float, K(Z3_mk_fpa_rne), fp(e->a), fpsort(e->w)));
            break;
        default: engine_error("tr");
        }
        e->z = r;
        translated.push_back(e);
        return r;
    }
    void sync(const vector<Expr *> &pc) {
        size_t k = 0;
        while(k < stack.size() && k < pc.size() && stack[k] == pc[k]) ++k;
        if(stack.size() > k) {
            Z3_solver_pop(ctx, s, stack.size() - k);
            stack.resize(k);
        }
        for(; k < pc.size(); ++k) {
            Z3_solver_push(ctx, s);
            Z3_solver_assert(ctx, s, trb(pc[k]));
            stack.push_back(pc[k]);
        }
    }
    // 1 sat, 0 unsat, -1 unknown.
    int check(const vector<Expr *> &pc, Expr *extra, const vector<unsigned> &varw, Model &out) {
        double t0 = now();
        sync(pc);
        if(extra) {
            Z3_solver_push(ctx, s);
            Z3_solver_assert(ctx, s, trb(extra));
        }
        Z3_lbool r = Z3_solver_check(ctx, s);
        int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        if(res == 1) {
            Z3_model m = Z3_solver_get_model(ctx, s);
            Z3_model_inc_ref(ctx, m);
            out.v.assign(varw.size(), 0);
            unsigned n = Z3_model_get_num_consts(ctx, m);
            for(unsigned i = 0; i < n; ++i) {
                Z3_func_decl d = Z3_model_get_const_decl(ctx, m, i);
                const char *nm = Z3_get_symbol_string(ctx, Z3_get_decl_name(ctx, d));
                if(nm[0] != 'v') continue;
                char *endp;
                u64 idx = strtoull(nm + 1, &endp, 10);
                if(idx >= varw.size() || (unsigned)atoi(endp + 1) != varw[idx]) continue;
                Z3_ast v = Z3_model_get_const_interp(ctx, m, d);
                u64 x = 0;
                if(v && Z3_get_numeral_uint64(ctx, v, &x)) out.v[idx] = x;
            }
            Z3_model_dec_ref(ctx, m);
        }
        if(extra) Z3_solver_pop(ctx, s, 1);
        st.solver_time += now() - t0;
        st.queries++;
        if(res == 1) st.q_sat++;
        else if(res == 0) st.q_unsat++;
        else st.q_unknown++;
        return res;
    }
};
static Solver solver;

// ---------------------------------------------------------------- memory
static const u64 BASE = 0x10000000ull;
static const u64 FUNC_BASE = 0x100000ull;
static const u64 ARENA = 512ull << 20;
static const u64 STACK_OFF = 32ull << 20, STACK_SIZE = 32ull << 20, HEAP_OFF = 64ull << 20;
static uint8_t *arena;
static Expr **shadow;
static u32 *gran;

enum ObjKind : uint8_t { OK_GLOBAL, OK_CONST, OK_STACK, OK_MALLOC, OK_NEW, OK_NEWARR, OK_EXC };
struct Obj {
    u64 base, size;
    ObjKind kind;
    bool freed, hasSym, dirty, exempt;
    string *name;
    const Instruction *site;
};
static vector<Obj> objs; // index 0 unused
static u64 glob_top, stack_top, heap_top;
static size_t n_static_objs;
static vector<u32> free_stack_ids;

static u32 new_obj(u64 off, u64 size, ObjKind k) {
    u32 id;
    if(k == OK_STACK && !free_stack_ids.empty()) {
        id = free_stack_ids.back();
        free_stack_ids.pop_back();
    } else {
        id = objs.size();
        objs.emplace_back();
    }
    Obj &o = objs[id];
    o.base = BASE + off;
    o.size = size;
    o.kind = k;
    o.freed = o.hasSym = o.dirty = o.exempt = false;
    o.name = nullptr;
    o.site = nullptr;
    u64 g0 = off >> 4, g1 = (off + (size ? size : 1) + 15) >> 4;
    for(u64 g = g0; g < g1; ++g) gran[g] = id;
    return id;
}
static inline u32 obj_at(u64 addr) {
    u64 off = addr - BASE;
    if(off >= ARENA) return 0;
    return gran[off >> 4];
}

// ---------------------------------------------------------------- program
enum IOp : uint16_t {
    I_BIN, I_ICMP, I_FCMP, I_TRUNC, I_ZEXT, I_SEXT, I_COPY, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_CALL, I_RET, I_BR,
    I_CONDBR, I_SWITCH, I_SELECT, I_INSERT, I_LPAD, I_RESUME, I_UNREACHABLE, I_FPCONV, I_FNEG, I_EXTELT, I_INSELT,
    I_SHUF, I_RMW, I_CMPXCHG, I_NOP, I_UNSUP, I_COPYBITS
};
struct Edge {
    int target;
    vector<std::array<int, 3>> phis; // dst, src, n
};
struct GepTerm {
    int op;
    u64 scale;
    unsigned w;
};
struct FuncInfo;
struct Inst {
    IOp op;
    uint16_t w = 0, w2 = 0, sub = 0;
    int dst = -1, a = 0, b = 0, c = 0, n = 1;
    u64 imm = 0;
    const Instruction *I = nullptr;
    vector<int> args;
    vector<std::array<int, 2>> argslots; // (operand, nslots)
    vector<GepTerm> gep;
    vector<Edge> edges;
    vector<unsigned> lanew;
    FuncInfo *callee = nullptr;
};
struct FuncInfo {
    const Function *F = nullptr;
    string name;
    u64 addr = 0;
    int builtin = 0; // >0: builtin id
    bool decoded = false;
    int nslots = 0;
    vector<vector<Inst>> blocks;
    vector<uint8_t> seen; // blocks that were executed
    vector<std::array<int, 2>> params;
    u64 calls = 0;
    bool is_intrinsic = false;
    unsigned iid = 0;
    int retslots = 0;
    unsigned retw = 0;
};
static LLVMContext *Ctx;
static Module *M;
static const DataLayout *DL;
static std::map<const Function *, FuncInfo *> finfo;
static vector<FuncInfo *> func_by_idx;
static std::map<const GlobalVariable *, u64> gaddr;
static vector<V> constpool;
static std::map<const Constant *, int> constidx;

static unsigned scalar_width(Type *t) {
    if(t->isIntegerTy()) return t->getIntegerBitWidth();
    if(t->isPointerTy()) return 64;
    if(t->isFloatTy()) return 32;
    if(t->isDoubleTy()) return 64;
    if(t->isX86_FP80Ty()) return 80;
    if(t->isHalfTy()) return 16;
    return 0;
}
// flattened scalars with byte offsets
struct Leaf {
    unsigned w;
    u64 off;
    unsigned bytes;
};
static void flatten(Type *t, u64 off, vector<Leaf> &out) {
    if(unsigned w = scalar_width(t)) {
        out.push_back({w, off, (unsigned)DL->getTypeStoreSize(t).getFixedValue()});
        return;
    }
    if(auto *s = dyn_cast<StructType>(t)) {
        const StructLayout *sl = DL->getStructLayout(s);
        for(unsigned i = 0; i < s->getNumElements(); ++i)
            flatten(s->getElementType(i), off + sl->getElementOffset(i), out);
        return;
    }
    if(auto *a = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(a->getElementType());
        for(u64 i = 0; i < a->getNumElements(); ++i) flatten(a->getElementType(), off + i * es, out);
        return;
    }
    if(auto *v = dyn_cast<FixedVectorType>(t)) {
        unsigned ew = scalar_width(v->getElementType());
        u64 es = (ew + 7) / 8;
        if(ew % 8 && v->getNumElements() > 1) { // bit-packed <N x i1>: no memory form supported
            for(u64 i = 0; i < v->getNumElements(); ++i) out.push_back({ew, off, 0});
            return;
        }
        for(u64 i = 0; i < v->getNumElements(); ++i) flatten(v->getElementType(), off + i * es, out);
        return;
    }
    if(t->isVoidTy() || t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) return;
    string s;
    raw_string_ostream os(s);
    t->print(os);
    engine_error("unsupported type " + s);
}
static unsigned nslots_of(Type *t) {
    if(scalar_width(t)) return 1;
    vector<Leaf> l;
    flatten(t, 0, l);
    return l.size();
}

static u64 const_gaddr(const GlobalValue *g);
static void eval_const(const Constant *c, vector<V> &out);
static u64 eval_const1(const Constant *c) {
    vector<V> v;
    eval_const(c, v);
    if(v.size() != 1) engine_error("const scalar");
    return v[0].c;
}
static FuncInfo *get_func(const Function *f);
static u64 const_gaddr(const GlobalValue *g) {
    if(auto *f = dyn_cast<Function>(g)) return get_func(f)->addr;
    if(auto *v = dyn_cast<GlobalVariable>(g)) return gaddr.at(v);
    if(auto *a = dyn_cast<GlobalAlias>(g)) return eval_const1(a->getAliasee());
    engine_error("global value");
}
static void eval_const(const Constant *c, vector<V> &out) {
    Type *t = c->getType();
    if(auto *ci = dyn_cast<ConstantInt>(c)) {
        if(ci->getType()->isVectorTy()) {
            unsigned n = nslots_of(t);
            for(unsigned i = 0; i < n; ++i) out.push_back(VC(ci->getValue().getZExtValue()));
            return;
        }
        if(ci->getBitWidth() > 64) {
            APInt v = ci->getValue();
            unsigned w = ci->getBitWidth();
            if(v.isIntN(64)) {
                out.push_back(V{v.getZExtValue(), nullptr});
                if(0) {}
                // wide concrete values are always held as expressions
                out.back() = V{0, mkconcat(mkc(0, w - 64), mkc(v.getZExtValue(), 64))};
            } else
                out.push_back(V{0, pool.mk(E_CONCAT, w, 0, mkc(v.lshr(64).getZExtValue(), w - 64),
                                          mkc(v.trunc(64).getZExtValue(), 64), nullptr)});
            return;
        }
        out.push_back(VC(ci->getZExtValue()));
        return;
    }
    if(auto *cf = dyn_cast<ConstantFP>(c)) {
        unsigned n = nslots_of(t);
        for(unsigned i = 0; i < n; ++i) out.push_back(VC(cf->getValueAPF().bitcastToAPInt().getZExtValue()));
        return;
    }
    if(isa<ConstantPointerNull>(c)) {
        out.push_back(VC(0));
        return;
    }
    if(isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        unsigned n = nslots_of(t);
        for(unsigned i = 0; i < n; ++i) out.push_back(VC(0));
        return;
    }
    if(auto *ca = dyn_cast<ConstantAggregate>(c)) {
        for(unsigned i = 0; i < ca->getNumOperands(); ++i) eval_const(ca->getOperand(i), out);
        return;
    }
    if(auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        for(unsigned i = 0; i < cd->getNumElements(); ++i) eval_const(cd->getElementAsConstant(i), out);
        return;
    }
    if(auto *g = dyn_cast<GlobalValue>(c)) {
        out.push_back(VC(const_gaddr(g)));
        return;
    }
    if(auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch(ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if(!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) engine_error("const gep");
            out.push_back(VC(eval_const1(ce->getOperand(0)) + off.getSExtValue()));
            return;
        }
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        case Instruction::BitCast:
        case Instruction::Trunc:
            out.push_back(VC(eval_const1(ce->getOperand(0)) & mask_w(scalar_width(t))));
            return;
        case Instruction::Sub:
            out.push_back(VC((eval_const1(ce->getOperand(0)) - eval_const1(ce->getOperand(1))) & mask_w(scalar_width(t))));
            return;
        case Instruction::Add:
            out.push_back(VC((eval_const1(ce->getOperand(0)) + eval_const1(ce->getOperand(1))) & mask_w(scalar_width(t))));
            return;
        default: break;
        }
    }
    string s;
    raw_string_ostream os(s);
    c->print(os);
    engine_error("constant: " + s);
}
static void write_init(const Constant *c, uint8_t *p) {
    vector<V> v;
    vector<Leaf> l;
    flatten(c->getType(), 0, l);
    eval_const(c, v);
    if(v.size() != l.size()) engine_error("init size");
    for(size_t i = 0; i < l.size(); ++i) memcpy(p + l[i].off, &v[i].c, l[i].bytes);
}

enum Builtin {
    B_NONE = 0,
    B_VX_SYM, B_VX_ASSUME, B_VX_ASSERT, B_VX_FAIL, B_VX_REACH, B_VX_OBSERVE, B_VX_LIVE, B_VX_WORK, B_VX_HEAP, B_VX_ALLOW_LEAKS, B_VX_TIER,
    B_VX_CONC, B_VX_END, B_VX_RANGE, B_VX_ISVALID, B_VX_OBJSIZE, B_VX_IS_ENGINE, B_VX_FORK, B_VX_ITE, B_VX_TOLERATE,
    B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWARR, B_DELETE, B_DELETEARR, B_ALIGNED_ALLOC,
    B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_ABORT, B_ASSERTFAIL, B_TERMINATE, B_EXIT,
    B_CXA_ALLOC_EXC, B_CXA_FREE_EXC, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_CXA_RETHROW, B_CXA_PURE, B_CXA_ATEXIT,
    B_GUARD_ACQ, B_GUARD_REL, B_RET0, B_POSIX_MEMALIGN, B_UNSUPPORTED,
};
static const std::map<string, int> builtins = {
    {"vx_sym", B_VX_SYM}, {"vx_assume", B_VX_ASSUME}, {"vx_assert", B_VX_ASSERT}, {"vx_fail", B_VX_FAIL},
    {"vx_reach", B_VX_REACH}, {"vx_observe", B_VX_OBSERVE}, {"vx_live_allocs", B_VX_LIVE}, {"vx_work", B_VX_WORK}, {"vx_heap", B_VX_HEAP},
    {"vx_allow_leaks", B_VX_ALLOW_LEAKS}, {"vx_tolerate", B_VX_TOLERATE}, {"vx_tier", B_VX_TIER}, {"vx_concretize", B_VX_CONC}, {"vx_end", B_VX_END},
    {"vx_is_engine", B_VX_IS_ENGINE}, {"vx_fork", B_VX_FORK}, {"vx_ite", B_VX_ITE}, {"vx_range", B_VX_RANGE},
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE},
    {"aligned_alloc", B_ALIGNED_ALLOC}, {"memalign", B_ALIGNED_ALLOC},
    {"_Znwm", B_NEW}, {"_Znam", B_NEWARR}, {"_ZdlPv", B_DELETE}, {"_ZdaPv", B_DELETEARR}, {"_ZdlPvm", B_DELETE},
    {"_ZdaPvm", B_DELETEARR}, {"_ZdlPvSt11align_val_t", B_DELETE}, {"_ZdlPvmSt11align_val_t", B_DELETE}, {"_ZdaPvSt11align_val_t", B_DELETEARR}, {"_ZdaPvmSt11align_val_t", B_DELETEARR},
    {"_ZnwmSt11align_val_t", B_NEW}, {"_ZnamSt11align_val_t", B_NEWARR},
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP},
    {"abort", B_ABORT}, {"__assert_fail", B_ASSERTFAIL}, {"_ZSt9terminatev", B_TERMINATE}, {"exit", B_EXIT},
    {"_exit", B_EXIT}, {"__cxa_allocate_exception", B_CXA_ALLOC_EXC}, {"__cxa_free_exception", B_CXA_FREE_EXC},
    {"__cxa_throw", B_CXA_THROW}, {"__cxa_begin_catch", B_CXA_BEGIN}, {"__cxa_end_catch", B_CXA_END},
    {"__cxa_rethrow", B_CXA_RETHROW}, {"__cxa_pure_virtual", B_CXA_PURE}, {"__cxa_atexit", B_CXA_ATEXIT},
    {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_GUARD_REL}, {"__cxa_guard_abort", B_RET0},
    {"printf", B_RET0}, {"fprintf", B_RET0}, {"puts", B_RET0}, {"putchar", B_RET0}, {"perror", B_RET0},
    {"fputs", B_RET0}, {"fputc", B_RET0}, {"fwrite", B_RET0}, {"fflush", B_RET0}, {"__gxx_personality_v0", B_UNSUPPORTED},
};

static FuncInfo *get_func(const Function *f) {
    auto it = finfo.find(f);
    if(it != finfo.end()) return it->second;
    FuncInfo *fi = new FuncInfo;
    fi->F = f;
    fi->name = f->getName().str();
    fi->addr = FUNC_BASE + 16 * func_by_idx.size();
    func_by_idx.push_back(fi);
    finfo[f] = fi;
    Type *rt = f->getReturnType();
    fi->retslots = nslots_of(rt);
    fi->retw = scalar_width(rt);
    if(f->isIntrinsic()) {
        fi->is_intrinsic = true;
        fi->iid = f->getIntrinsicID();
        return fi;
    }
    auto b = builtins.find(fi->name);
    if(b != builtins.end()) {
        // a wrapper in the module takes precedence
        fi->builtin = b->second;
    } else if(f->isDeclaration())
        fi->builtin = B_UNSUPPORTED;
    // --wrap semantics: calls to X go to __wrap_X when the module defines it
    if(fi->name.rfind("__wrap_", 0) != 0) {
        if(Function *wf = M->getFunction("__wrap_" + fi->name))
            if(!wf->isDeclaration()) {
                FuncInfo *w = get_func(wf);
                finfo[f] = w;
                return w;
            }
    }
    if(fi->name.rfind("__real_", 0) == 0) {
        if(Function *rf = M->getFunction(fi->name.substr(7))) {
            auto bb = builtins.find(fi->name.substr(7));
            if(bb != builtins.end()) fi->builtin = bb->second;
            else if(!rf->isDeclaration()) fi->F = rf, fi->builtin = 0;
        }
    }
    return fi;
}

struct Decoder {
    FuncInfo *fi;
    std::map<const Value *, int> slot;
    int next = 0;

    int operand(const Value *v) {
        if(auto *c = dyn_cast<Constant>(v)) {
            auto it = constidx.find(c);
            if(it != constidx.end()) return ~it->second;
            vector<V> vals;
            eval_const(c, vals);
            int i = constpool.size();
            constpool.insert(constpool.end(), vals.begin(), vals.end());
            if(vals.empty()) constpool.push_back(VC(0));
            constidx[c] = i;
            return ~i;
        }
        auto it = slot.find(v);
        if(it == slot.end()) {
            if(isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return ~0;
            engine_error("operand without slot in " + fi->name);
        }
        return it->second;
    }
    int newslot(const Value *v) {
        int n = nslots_of(v->getType());
        slot[v] = next;
        next += n;
        return slot[v];
    }
    void decode(FuncInfo *f) {
        fi = f;
        const Function *F = f->F;
        for(auto &a : F->args()) {
            int n = nslots_of(a.getType());
            int s = newslot(&a);
            f->params.push_back({s, n});
        }
        std::map<const BasicBlock *, int> bidx;
        int nb = 0;
        for(auto &bb : *F) {
            bidx[&bb] = nb++;
            for(auto &I : bb)
                if(!I.getType()->isVoidTy()) newslot(&I);
        }
        f->blocks.resize(nb);
        f->seen.assign(nb, 0);
        int bi = 0;
        for(auto &bb : *F) {
            auto &out = f->blocks[bi++];
            for(auto &I : bb) {
                if(isa<PHINode>(I)) continue;
                if(isa<DbgInfoIntrinsic>(I)) continue;
                Inst x;
                x.I = &I;
                if(!I.getType()->isVoidTy()) x.dst = slot[&I], x.n = nslots_of(I.getType());
                one(I, x, bidx, &bb);
                if(x.op != I_NOP) out.push_back(std::move(x));
            }
        }
        f->nslots = next;
        f->decoded = true;
    }
    Edge mkedge(const BasicBlock *from, const BasicBlock *to, std::map<const BasicBlock *, int> &bidx) {
        Edge e;
        e.target = bidx[to];
        for(auto &phi : to->phis()) {
            const Value *v = phi.getIncomingValueForBlock(from);
            e.phis.push_back({slot[&phi], operand(v), (int)nslots_of(phi.getType())});
        }
        return e;
    }
    void one(const Instruction &I, Inst &x, std::map<const BasicBlock *, int> &bidx, const BasicBlock *bb) {
        Type *T = I.getType();
        Type *ST = T->isVectorTy() ? cast<VectorType>(T)->getElementType() : T;
        x.w = scalar_width(ST);
        if(auto *bo = dyn_cast<BinaryOperator>(&I)) {
            x.op = I_BIN;
            x.sub = bo->getOpcode();
            x.a = operand(I.getOperand(0));
            x.b = operand(I.getOperand(1));
            return;
        }
        switch(I.getOpcode()) {
        case Instruction::FNeg:
            x.op = I_FNEG;
            x.a = operand(I.getOperand(0));
            return;
        case Instruction::ICmp:
        case Instruction::FCmp: {
            x.op = I.getOpcode() == Instruction::ICmp ? I_ICMP : I_FCMP;
            x.sub = cast<CmpInst>(I).getPredicate();
            Type *ot = I.getOperand(0)->getType();
            x.w2 = scalar_width(ot->getScalarType());
            x.a = operand(I.getOperand(0));
            x.b = operand(I.getOperand(1));
            return;
        }
        case Instruction::Trunc:
        case Instruction::ZExt:
        case Instruction::SExt:
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        case Instruction::BitCast:
        case Instruction::AddrSpaceCast:
        case Instruction::Freeze: {
            Type *ot = I.getOperand(0)->getType();
            x.w2 = scalar_width(ot->getScalarType());
            x.a = operand(I.getOperand(0));
            if(I.getOpcode() == Instruction::ZExt) x.op = I_ZEXT;
            else if(I.getOpcode() == Instruction::SExt) x.op = I_SEXT;
            else if(I.getOpcode() == Instruction::Trunc) x.op = I_TRUNC;
            else if(I.getOpcode() == Instruction::BitCast && nslots_of(ot) != (unsigned)x.n) {
                x.op = I_COPYBITS;
                x.imm = nslots_of(ot);
            } else if(x.w2 > x.w && x.w) x.op = I_TRUNC;
            else if(x.w2 < x.w) x.op = I_ZEXT;
            else x.op = I_COPY;
            return;
        }
        case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP:
        case Instruction::FPToSI: case Instruction::FPToUI:
            x.op = I_FPCONV;
            x.sub = I.getOpcode();
            x.w2 = scalar_width(I.getOperand(0)->getType()->getScalarType());
            x.a = operand(I.getOperand(0));
            return;
        case Instruction::Load:
        case Instruction::Store: {
            bool ld = I.getOpcode() == Instruction::Load;
            x.op = ld ? I_LOAD : I_STORE;
            Type *t = ld ? T : I.getOperand(0)->getType();
            vector<Leaf> l;
            flatten(t, 0, l);
            x.n = l.size();
            for(auto &k : l) {
                x.argslots.push_back({(int)k.off, (int)k.bytes});
                x.lanew.push_back(k.w);
            }
            x.imm = DL->getTypeStoreSize(t).getFixedValue();
            if(ld) x.a = operand(I.getOperand(0));
            else {
                x.b = operand(I.getOperand(0));
                x.a = operand(I.getOperand(1));
            }
            return;
        }
        case Instruction::GetElementPtr: {
            auto &g = cast<GetElementPtrInst>(I);
            x.op = I_GEP;
            x.a = operand(g.getPointerOperand());
            u64 off = 0;
            for(auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
                const Value *idx = gti.getOperand();
                if(StructType *sty = gti.getStructTypeOrNull()) {
                    off += DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                } else {
                    u64 sc = gti.getSequentialElementStride(*DL).getFixedValue();
                    if(auto *ci = dyn_cast<ConstantInt>(idx)) off += (u64)ci->getSExtValue() * sc;
                    else x.gep.push_back({operand(idx), sc, scalar_width(idx->getType())});
                }
            }
            x.imm = off;
            if(T->isVectorTy()) x.op = I_UNSUP;
            return;
        }
        case Instruction::Alloca: {
            auto &a = cast<AllocaInst>(I);
            x.op = I_ALLOCA;
            x.imm = DL->getTypeAllocSize(a.getAllocatedType());
            x.a = operand(a.getArraySize());
            return;
        }
        case Instruction::Call:
        case Instruction::Invoke: {
            auto &cb = cast<CallBase>(I);
            x.op = I_CALL;
            if(cb.isInlineAsm()) { // compiler barriers only
                x.op = I.getOpcode() == Instruction::Call ? I_NOP : I_UNSUP;
                return;
            }
            for(unsigned i = 0; i < cb.arg_size(); ++i) {
                const Value *v = cb.getArgOperand(i);
                int n = nslots_of(v->getType());
                x.argslots.push_back({n ? operand(v) : ~0, n});
                x.lanew.push_back(scalar_width(v->getType()->getScalarType()));
            }
            const Value *cv = cb.getCalledOperand()->stripPointerCasts();
            if(auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
            if(auto *f = dyn_cast<Function>(cv)) {
                if(f->isIntrinsic()) {
                    switch(f->getIntrinsicID()) {
                    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
                    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start:
                    case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch:
                    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
                    case Intrinsic::stackrestore: case Intrinsic::sideeffect: case Intrinsic::var_annotation:
                        x.op = I_NOP;
                        return;
                    default: break;
                    }
                }
                x.callee = get_func(f);
            } else
                x.a = operand(cb.getCalledOperand());
            if(auto *inv = dyn_cast<InvokeInst>(&I)) {
                x.edges.push_back(mkedge(bb, inv->getNormalDest(), bidx));
                x.edges.push_back(mkedge(bb, inv->getUnwindDest(), bidx));
            }
            return;
        }
        case Instruction::Ret:
            x.op = I_RET;
            if(I.getNumOperands()) {
                x.a = operand(I.getOperand(0));
                x.n = nslots_of(I.getOperand(0)->getType());
            } else
                x.n = 0;
            return;
        case Instruction::Br: {
            auto &b = cast<BranchInst>(I);
            if(b.isConditional()) {
                x.op = I_CONDBR;
                x.a = operand(b.getCondition());
                x.edges.push_back(mkedge(bb, b.getSuccessor(0), bidx));
                x.edges.push_back(mkedge(bb, b.getSuccessor(1), bidx));
            } else {
                x.op = I_BR;
                x.edges.push_back(mkedge(bb, b.getSuccessor(0), bidx));
            }
            return;
        }
        case Instruction::Switch: {
            auto &s = cast<SwitchInst>(I);
            x.op = I_SWITCH;
            x.a = operand(s.getCondition());
            x.w = scalar_width(s.getCondition()->getType());
            x.edges.push_back(mkedge(bb, s.getDefaultDest(), bidx));
            for(auto &c : s.cases()) {
                x.edges.push_back(mkedge(bb, c.getCaseSuccessor(), bidx));
                x.args.push_back(constpool.size());
                constpool.push_back(VC(c.getCaseValue()->getZExtValue()));
            }
            return;
        }
        case Instruction::Select:
            x.op = I_SELECT;
            x.c = operand(I.getOperand(0));
            x.a = operand(I.getOperand(1));
            x.b = operand(I.getOperand(2));
            x.sub = I.getOperand(0)->getType()->isVectorTy();
            {
                vector<Leaf> l;
                flatten(T, 0, l);
                for(auto &k : l) x.lanew.push_back(k.w);
            }
            return;
        case Instruction::ExtractValue:
        case Instruction::InsertValue: {
            bool ex = I.getOpcode() == Instruction::ExtractValue;
            Type *t = I.getOperand(0)->getType();
            ArrayRef<unsigned> idx =
                ex ? cast<ExtractValueInst>(I).getIndices() : cast<InsertValueInst>(I).getIndices();
            int off = 0;
            for(unsigned k : idx) {
                if(auto *s = dyn_cast<StructType>(t)) {
                    for(unsigned j = 0; j < k; ++j) off += nslots_of(s->getElementType(j));
                    t = s->getElementType(k);
                } else {
                    auto *a = cast<ArrayType>(t);
                    off += k * nslots_of(a->getElementType());
                    t = a->getElementType();
                }
            }
            int o = operand(I.getOperand(0));
            if(ex) {
                x.op = I_COPY;
                x.a = o >= 0 ? o + off : ~(~o + off);
                x.n = nslots_of(t);
            } else {
                x.op = I_INSERT;
                x.a = o;
                x.b = operand(I.getOperand(1));
                x.imm = off;
                x.c = nslots_of(t);
            }
            return;
        }
        case Instruction::LandingPad: x.op = I_LPAD; return;
        case Instruction::Resume:
            x.op = I_RESUME;
            x.a = operand(I.getOperand(0));
            return;
        case Instruction::Unreachable: x.op = I_UNREACHABLE; return;
        case Instruction::Fence: x.op = I_NOP; return;
        case Instruction::ExtractElement:
            x.op = I_EXTELT;
            x.a = operand(I.getOperand(0));
            x.b = operand(I.getOperand(1));
            return;
        case Instruction::InsertElement:
            x.op = I_INSELT;
            x.a = operand(I.getOperand(0));
            x.b = operand(I.getOperand(1));
            x.c = operand(I.getOperand(2));
            return;
        case Instruction::ShuffleVector: {
            auto &s = cast<ShuffleVectorInst>(I);
            x.op = I_SHUF;
            x.a = operand(I.getOperand(0));
            x.b = operand(I.getOperand(1));
            x.imm = nslots_of(I.getOperand(0)->getType());
            for(int k : s.getShuffleMask()) x.args.push_back(k);
            return;
        }
        case Instruction::AtomicRMW:
            x.op = I_RMW;
            x.sub = cast<AtomicRMWInst>(I).getOperation();
            x.a = operand(I.getOperand(0));
            x.b = operand(I.getOperand(1));
            return;
        case Instruction::AtomicCmpXchg:
            x.op = I_CMPXCHG;
            x.w = scalar_width(I.getOperand(1)->getType());
            x.a = operand(I.getOperand(0));
            x.b = operand(I.getOperand(1));
            x.c = operand(I.getOperand(2));
            return;
        default: x.op = I_UNSUP; return;
        }
    }
};
static void decode(FuncInfo *f) {
    Decoder d;
    d.decode(f);
}

// ---------------------------------------------------------------- path state
struct PathEnd {
    int kind; // 0 complete, 1 violation, 2 assumed away, 3 error, 4 limit
};
struct Frame {
    FuncInfo *f;
    V *regs;
    const vector<Inst> *blk;
    size_t ip;
    const Inst *call; // call instruction in this frame that is active
    u64 stack_mark;
    vector<u32> allocas;
    vector<std::pair<V, unsigned>> varargs;
    u64 free_on_return; // exception object
    bool discard;       // return value discarded, caller ip not touched
};
static vector<Frame> frames;
static size_t nframes;
static V *regstack;
static V *regtop;
static const size_t REGSTACK = 64 << 20, MAX_FRAMES = 65536;

struct VarInfo {
    unsigned w;
    string name;
};
static vector<VarInfo> vars;
static vector<unsigned> varw;
static vector<Expr *> pcs;
static vector<Decision> trail;
static size_t pos;         // next decision to replay
static size_t prefix_len;  // number of decisions to replay
static Model model;
static bool have_model;
static std::unordered_map<Expr *, bool> known;
static u64 steps;
static bool path_incomplete; // unknown answers on this path
static u64 live_heap;
static bool allow_leaks;
static bool tolerate; // the reference implementation runs: where it fails, the case is outside the claim
static vector<std::pair<string, V>> observed;
static std::set<string> reach_path;
static std::map<string, u64> reach_count;
static vector<u64> exc_caught; // stack
struct ExcInfo {
    u64 tinfo, dtor;
    int handlers;
    int refs;
};
static std::map<u64, ExcInfo> excs;
static const Inst *cur_inst;
static u64 unwinding_exc;
static bool in_static_init;

struct Alt {
    vector<Decision> d;
    Model m;
    bool has_model;
};
static vector<Alt> worklist;

struct Violation {
    string kind, label, where;
    vector<u64> input;
    vector<unsigned> widths;
    vector<string> names;
    vector<u64> obs;
};
static vector<Violation> violations;
static std::map<string, u64> viol_count;
static std::map<string, u64> error_count;
static std::map<string, u64> limit_count;

static string loc_str(const Instruction *I) {
    if(!I) return "?";
    if(const DILocation *d = I->getDebugLoc().get()) {
        string f = d->getFilename().str();
        size_t p = f.rfind('/');
        if(p != string::npos) f = f.substr(p + 1);
        return f + ":" + std::to_string(d->getLine());
    }
    return "?";
}
static string where() {
    string s;
    for(size_t i = nframes; i-- > 0 && s.size() < 800;) {
        Frame &f = frames[i];
        const Instruction *I = i + 1 == nframes ? (cur_inst ? cur_inst->I : nullptr) : (f.call ? f.call->I : nullptr);
        string l;
        if(I && I->getDebugLoc().get()) {
            for(const DILocation *d = I->getDebugLoc().get(); d; d = d->getInlinedAt()) {
                string fn = d->getFilename().str();
                size_t p = fn.rfind('/');
                if(p != string::npos) fn = fn.substr(p + 1);
                l += (l.empty() ? "" : " <- ") + fn + ":" + std::to_string(d->getLine());
            }
        } else
            l = f.f->name;
        s += (s.empty() ? "" : " <- ") + l;
    }
    return s;
}

static void bump_epoch() { ++eval_epoch; }

// Intervals of the symbolic variables implied by the path condition.  A variable is "pure" while every
// constraint on it is an interval constraint; then feasibility of a comparison with a constant is
// decided by the interval alone, otherwise the interval is only an over-approximation.
struct Ival { u64 lo, hi; bool pure, used; };
static vector<Ival> ivals;
static vector<Expr *> mark_stack;
static std::unordered_set<Expr *> marked;

static Ival &ival_of(u64 idx) {
    while(ivals.size() <= idx) ivals.push_back({0, mask_w(ivals.size() < varw.size() ? varw[ivals.size()] : 64), true, false});
    return ivals[idx];
}
// c as "variable in [lo, hi]" or, with neg, "variable outside [lo, hi]"
static bool as_interval(Expr *c, Expr *&var, u64 &lo, u64 &hi, bool &neg) {
    neg = false;
    if(c->op == E_XOR && c->w == 1 && isc(c->b) && c->b->val) {
        neg = true;
        c = c->a;
    }
    if(c->op != E_ULT && c->op != E_ULE && c->op != E_EQ) return false;
    Expr *a = c->a, *b = c->b;
    if(a->w > 64) return false;
    u64 m = mask_w(a->w);
    if(a->op == E_VAR && isc(b)) {
        var = a;
        lo = c->op == E_EQ ? b->val : 0;
        hi = b->val;
        if(c->op == E_ULT) {
            if(!hi) return false;
            --hi;
        }
        return true;
    }
    if(b->op == E_VAR && isc(a)) {
        var = b;
        lo = a->val;
        hi = c->op == E_EQ ? a->val : m;
        if(c->op == E_ULT) {
            if(lo == m) return false;
            ++lo;
        }
        return true;
    }
    return false;
}
static void taint(Expr *c) {
    if(!c || isc(c) || !marked.insert(c).second) return;
    if(c->op == E_VAR) {
        ival_of(c->val).pure = false;
        return;
    }
    taint(c->a);
    taint(c->b);
    taint(c->c);
}
static void add_pc(Expr *c) {
    pcs.push_back(c);
    if(!opt_intervals) return;
    Expr *v;
    u64 lo, hi;
    bool neg;
    if(as_interval(c, v, lo, hi, neg)) {
        Ival &i = ival_of(v->val);
        u64 m = mask_w(v->w);
        if(!neg) {
            i.lo = std::max(i.lo, lo);
            i.hi = std::min(i.hi, hi);
            return;
        }
        if(lo <= i.lo) {
            if(hi < m && hi >= i.lo) i.lo = hi + 1;
            if(hi < m) return;
        } else if(hi >= i.hi) {
            if(lo > 0 && lo <= i.hi) i.hi = lo - 1;
            return;
        }
        i.pure = false; // a hole in the middle
        return;
    }
    taint(c);
}
// 1 c is implied, 0 its negation is implied, 2 both sides are feasible (val makes "other" true), -1 not decided here
static int by_interval(Expr *c, Expr *&var, bool want, u64 &val) {
    u64 lo, hi;
    bool neg;
    if(!opt_intervals || !as_interval(c, var, lo, hi, neg)) return -1;
    Ival &i = ival_of(var->val);
    if(i.lo > i.hi) return -1;
    if(i.lo >= lo && i.hi <= hi) return neg ? 0 : 1;
    if(i.hi < lo || i.lo > hi) return neg ? 1 : 0;
    if(!i.pure) return -1;
    bool inside = want != neg;
    val = inside ? std::max(i.lo, lo) : (i.lo < lo ? i.lo : i.hi);
    return 2;
}

static bool ensure_model() {
    if(have_model) return true;
    Model m;
    int r = solver.check(pcs, nullptr, varw, m);
    if(r == 1) {
        model = m;
        have_model = true;
        bump_epoch();
        return true;
    }
    if(r == 0) throw PathEnd{2};
    limit_count["solver timeout (path abandoned)"]++;
    throw PathEnd{4};
}
static void push_trail(u32 kind, u64 val = 0) {
    trail.push_back({val, kind, 0});
    pos = trail.size();
    prefix_len = trail.size();
}
static void add_alt(u32 kind, u64 val, const Model &m, bool hm) {
    Alt a;
    a.d = trail;
    a.d.push_back({val, kind, 0});
    a.m = m;
    a.has_model = hm;
    worklist.push_back(std::move(a));
    st.forks++;
}
static bool lookup_known(Expr *c, bool &r) {
    auto it = known.find(c);
    if(it != known.end()) {
        r = it->second;
        return true;
    }
    return false;
}
static void learn(Expr *c, bool v) {
    known[c] = v;
    known[mknot(c)] = !v;
}
static bool branch(Expr *c) {
    if(isc(c)) return c->val;
    bool r;
    if(lookup_known(c, r)) return r;
    Expr *iv;
    u64 ival = 0;
    int bi = by_interval(c, iv, true, ival);
    if(bi == 0 || bi == 1) {
        st.by_interval++;
        learn(c, bi);
        return bi;
    }
    if(pos < prefix_len) {
        Decision d = trail[pos++];
        if(d.kind > 3) engine_error("replay divergence (branch)");
        r = d.kind & 1;
        if(d.kind < 2) add_pc(r ? c : mknot(c));
        learn(c, r);
        return r;
    }
    ensure_model();
    bool mv = eval_expr(c, model) != 0;
    Expr *mine = mv ? c : mknot(c), *other = mv ? mknot(c) : c;
    Model m2;
    int q;
    if(bi == 2) {
        by_interval(c, iv, !mv, ival);
        m2 = model;
        if(m2.v.size() < varw.size()) m2.v.resize(varw.size(), 0);
        m2.v[iv->val] = ival;
        q = 1;
        st.by_interval++;
    } else
        q = solver.check(pcs, other, varw, m2);
    if(opt_verbose) fprintf(stderr, "branch %s -> %d iv=%d @ %s\n", expr_str(c, 6).c_str(), q, bi, where().substr(0, 120).c_str());
    if(q == 0) {
        st.implied++;
        push_trail(mv ? 3 : 2);
        learn(c, mv);
        return mv;
    }
    if(q < 0) {
        limit_count["solver timeout (branch side not explored)"]++;
        path_incomplete = true;
    } else
        add_alt(mv ? 0 : 1, 0, m2, true);
    push_trail(mv ? 1 : 0);
    add_pc(mine);
    learn(c, mv);
    return mv;
}
static void assume(Expr *c) {
    if(isc(c)) {
        if(!c->val) throw PathEnd{2};
        return;
    }
    bool r;
    if(lookup_known(c, r)) {
        if(!r) throw PathEnd{2};
        return;
    }
    add_pc(c);
    learn(c, true);
    if(pos < prefix_len) return;
    if(have_model) {
        if(eval_expr(c, model)) return;
        have_model = false;
    }
    ensure_model();
}
static u64 concretize(const V &v, unsigned w) {
    if(!v.e) return v.c;
    Expr *e = v.e;
    for(;;) {
        if(pos < prefix_len) {
            Decision d = trail[pos++];
            Expr *eq = mkop(E_EQ, 1, e, mkc(d.val, w));
            if(d.kind == 4 || d.kind == 6) {
                if(d.kind == 4) add_pc(eq);
                learn(eq, true);
                return d.val;
            }
            if(d.kind != 5) engine_error("replay divergence (concretize)");
            add_pc(mknot(eq));
            learn(eq, false);
            continue;
        }
        ensure_model();
        u64 x = eval_expr(e, model);
        Expr *eq = mkop(E_EQ, 1, e, mkc(x, w));
        if(isc(eq)) {
            push_trail(6, x);
            return x;
        }
        Model m2;
        int q;
        Expr *iv;
        u64 ival = 0;
        int bi = by_interval(eq, iv, false, ival);
        if(bi == 1 || bi == 2) {
            q = bi == 1 ? 0 : 1;
            if(bi == 2) {
                m2 = model;
                if(m2.v.size() < varw.size()) m2.v.resize(varw.size(), 0);
                m2.v[iv->val] = ival;
            }
            st.by_interval++;
        } else
            q = solver.check(pcs, mknot(eq), varw, m2);
        if(q == 0) {
            st.implied++;
            push_trail(6, x);
            learn(eq, true);
            return x;
        }
        if(q < 0) {
            limit_count["solver timeout (branch side not explored)"]++;
            path_incomplete = true;
        } else
            add_alt(5, x, m2, true);
        push_trail(4, x);
        add_pc(eq);
        learn(eq, true);
        return x;
    }
}

struct Shared {
    std::atomic<int> hungry;
    std::atomic<u64> paths;
    std::atomic<int> stop;
    std::atomic<double> first_viol;
};
static Shared *shared;
[[noreturn]] static void violation(const string &kind, const string &label) {
    if(in_static_init) engine_error("violation in static init: " + kind + " " + label);
    if(tolerate) {
        st.tolerated++;
        throw PathEnd{2};
    }
    ensure_model();
    string w = where();
    string key = kind + "|" + label + "|" + (kind == "assert" ? "" : w.substr(0, w.find(" <- ")));
    u64 n = viol_count[key]++;
    if(shared && shared->first_viol.load() == 0 && !opt_known.count(kind + "|" + label)) shared->first_viol = now();
    if(n < 3 && violations.size() < (size_t)opt_maxviol) {
        Violation v;
        v.kind = kind;
        v.label = label;
        v.where = w;
        for(size_t i = 0; i < vars.size(); ++i) {
            v.input.push_back(i < model.v.size() ? model.v[i] & mask_w(vars[i].w) : 0);
            v.widths.push_back(vars[i].w);
            v.names.push_back(vars[i].name);
        }
        for(auto &o : observed) v.obs.push_back(o.second.e ? eval_expr(o.second.e, model) : o.second.c);
        violations.push_back(v);
    }
    throw PathEnd{1};
}

// ---------------------------------------------------------------- memory access
static u32 alloc_heap(u64 size, ObjKind k, u64 align = 16) {
    if(heap_top + size + 64 + align > ARENA) {
        if(tolerate) throw PathEnd{2};
        limit_count["heap arena exhausted"]++;
        throw PathEnd{4};
    }
    u64 off = (heap_top + align - 1) & ~(align - 1);
    u32 id = new_obj(off, size, k);
    memset(arena + off, 0xBE, size);
    heap_top = ((off + (size ? size : 1) + 15) & ~15ull) + 32;
    objs[id].site = cur_inst ? cur_inst->I : nullptr;
    return id;
}
static string obj_desc(u64 addr) {
    u32 id = obj_at(addr);
    char b[200];
    if(!id) {
        if(addr < 4096) return "null pointer";
        // nearest lower object
        u64 off = addr - BASE;
        if(off < ARENA)
            for(int k = 1; k < 8 && (off >> 4) >= (u64)k; ++k)
                if(u32 g = gran[(off >> 4) - k]) {
                    id = g;
                    break;
                }
        if(!id) return "wild pointer";
    }
    Obj &o = objs[id];
    const char *kn[] = {"global", "constant", "stack", "heap", "heap", "heap", "exception"};
    snprintf(b, sizeof b, "offset %lld of %s%s object of %llu bytes%s%s", (long long)(addr - o.base),
             o.freed ? "freed " : "", kn[o.kind], (unsigned long long)o.size, o.name ? " " : "",
             o.name ? o.name->c_str() : "");
    return b;
}
static inline Obj &access(u64 addr, u64 n, bool write) {
    u32 id = obj_at(addr);
    if(__builtin_expect(id != 0, 1)) {
        Obj &o = objs[id];
        if(!o.freed && addr >= o.base && n <= o.size && addr - o.base <= o.size - n) {
            if(write) {
                if(o.kind == OK_CONST) violation("memory", "write to constant object");
                o.dirty = true;
            }
            return o;
        }
        if(o.freed) violation("memory", string(write ? "write" : "read") + " after free");
    }
    if(opt_verbose) fprintf(stderr, "bad access %s\n", obj_desc(addr).c_str());
    if(addr < 4096) violation("memory", string("null pointer ") + (write ? "write" : "read"));
    violation("memory", string("out-of-bounds ") + (write ? "write" : "read"));
}
static inline void ensure_sym(Obj &o) {
    if(!o.hasSym) {
        memset(shadow + (o.base - BASE), 0, o.size * sizeof(Expr *));
        o.hasSym = true;
    }
}
static V load_at(Obj &o, u64 addr, unsigned bytes, unsigned w) {
    u64 off = addr - BASE;
    if(o.hasSym) {
        bool any = false;
        for(unsigned i = 0; i < bytes; ++i)
            if(shadow[off + i]) {
                any = true;
                break;
            }
        if(any) {
            Expr *r = nullptr;
            for(unsigned i = 0; i < bytes; ++i) {
                Expr *b = shadow[off + i] ? shadow[off + i] : mkc(arena[off + i], 8);
                r = r ? mkconcat(b, r) : b;
            }
            if(r->w > w) r = mkextract(r, 0, w);
            return VE(r);
        }
    }
    if(bytes > 8) {
        u64 lo, hi = 0;
        memcpy(&lo, arena + off, 8);
        memcpy(&hi, arena + off + 8, bytes - 8);
        return V{0, pool.mk(E_CONCAT, w, 0, mkc(hi, w - 64), mkc(lo, 64), nullptr)};
    }
    u64 v = 0;
    memcpy(&v, arena + off, bytes);
    return VC(v & mask_w(w));
}
static void store_at(Obj &o, u64 addr, unsigned bytes, unsigned w, const V &v) {
    u64 off = addr - BASE;
    if(!v.e) {
        memcpy(arena + off, &v.c, bytes);
        if(o.hasSym)
            for(unsigned i = 0; i < bytes; ++i) shadow[off + i] = nullptr;
        return;
    }
    ensure_sym(o);
    Expr *e = v.e;
    if(e->w < bytes * 8) e = mkzext(e, bytes * 8);
    for(unsigned i = 0; i < bytes; ++i) {
        Expr *b = mkextract(e, i * 8, 8);
        if(isc(b)) {
            arena[off + i] = b->val;
            shadow[off + i] = nullptr;
        } else
            shadow[off + i] = b;
    }
}
static V read_byte(Obj &o, u64 addr) { return load_at(o, addr, 1, 8); }
static void do_memcpy(u64 d, u64 s, u64 n, bool move) {
    if(n == 0) return;
    Obj &so = access(s, n, false);
    Obj &dob = access(d, n, true);
    if(!move && d != s && ((d < s && d + n > s) || (s < d && s + n > d)))
        violation("memory", "memcpy with overlapping ranges");
    if(so.hasSym) {
        ensure_sym(dob);
        memmove(shadow + (d - BASE), shadow + (s - BASE), n * sizeof(Expr *));
    } else if(dob.hasSym)
        memset(shadow + (d - BASE), 0, n * sizeof(Expr *));
    memmove(arena + (d - BASE), arena + (s - BASE), n);
}
static void do_memset(u64 d, const V &v, u64 n) {
    if(n == 0) return;
    Obj &o = access(d, n, true);
    if(!v.e) {
        memset(arena + (d - BASE), (int)v.c, n);
        if(o.hasSym) memset(shadow + (d - BASE), 0, n * sizeof(Expr *));
    } else {
        Expr *b = mkextract(v.e, 0, 8);
        for(u64 i = 0; i < n; ++i) store_at(o, d + i, 1, 8, VE(b));
    }
}
static string read_cstr(u64 a) {
    string s;
    for(int i = 0; i < 400; ++i) {
        u32 id = obj_at(a + i);
        if(!id || objs[id].freed) break;
        char c = (char)arena[a + i - BASE];
        if(objs[id].hasSym && shadow[a + i - BASE]) c = '?';
        if(!c) break;
        s += c;
    }
    return s;
}

// resolve a possibly symbolic address to a concrete one by forking
static u64 addr_of(const V &v) { return v.e ? concretize(v, 64) : v.c; }

// symbolic-address load without forking, when the target is confined to one small object
static bool ite_load(const V &av, unsigned bytes, unsigned w, V &out) {
    if(!opt_ite_loads || pos < prefix_len) {
        // the decision whether to use an ite must be replayable: see tag below
    }
    Expr *e = av.e;
    if(!opt_ite_loads || bytes > 8) return false;
    // recognise  const + scale*idx  with a small idx: ADD(x, const) where const lies in a constant object
    if(e->op != E_ADD || !isc(e->b)) return false;
    u64 base = e->b->val;
    u32 id = obj_at(base);
    if(!id) return false;
    Obj &o = objs[id];
    if(o.kind != OK_CONST || o.size > 1024 || o.hasSym) return false;
    // in bounds?  (forks the out-of-bounds side, if feasible)
    Expr *off = mkop(E_SUB, 64, e, mkc(o.base, 64));
    if(!branch(mkop(E_ULE, 1, off, mkc(o.size - bytes, 64)))) return false;
    unsigned step = 1;
    Expr *x = e->a;
    // alignment: low zero bits of x
    while(x->op == E_ZEXT) x = x->a;
    if(x->op == E_CONCAT && isc(x->b) && x->b->val == 0) step = 1u << x->b->w;
    else if(x->op == E_MUL && isc(x->b)) step = x->b->val & 0xffff ? (x->b->val & 0xffff) : 1;
    Expr *r = nullptr;
    u64 start = (base - o.base) % step;
    if((o.size / step) > 256) return false;
    for(u64 k = start; k + bytes <= o.size; k += step) {
        V v = load_at(o, o.base + k, bytes, w);
        Expr *ve = toE(v, w);
        r = r ? mkite(mkop(E_EQ, 1, off, mkc(k, 64)), ve, r) : ve;
    }
    out = VE(r);
    return true;
}

// ---------------------------------------------------------------- interpreter core
static inline const V &opnd(V *regs, int o) { return o >= 0 ? regs[o] : constpool[~o]; }

static void push_frame(FuncInfo *f, const Inst *call) {
    if(!f->decoded) decode(f);
    f->calls++;
    if(nframes >= MAX_FRAMES) violation("limit", "call depth over 65536 frames (exhausts the stack)");
    if(nframes == frames.size()) frames.emplace_back();
    Frame &fr = frames[nframes];
    fr.f = f;
    fr.regs = regtop;
    regtop += f->nslots;
    if(regtop > regstack + REGSTACK) engine_error("register stack");
    fr.blk = &f->blocks[0];
    f->seen[0] = 1;
    fr.ip = 0;
    fr.call = nullptr;
    fr.stack_mark = stack_top;
    fr.allocas.clear();
    fr.varargs.clear();
    fr.free_on_return = 0;
    fr.discard = false;
    nframes++;
    (void)call;
}
static void pop_frame() {
    Frame &fr = frames[nframes - 1];
    for(u32 id : fr.allocas) {
        Obj &o = objs[id];
        o.freed = true;
        u64 off = o.base - BASE;
        for(u64 g = off >> 4, e = (off + (o.size ? o.size : 1) + 15) >> 4; g < e; ++g) gran[g] = 0;
        delete o.name;
        o.name = nullptr;
        free_stack_ids.push_back(id);
    }
    fr.allocas.clear();
    stack_top = fr.stack_mark;
    regtop = fr.regs;
    nframes--;
}
static void take_edge(Frame &fr, const Edge &e) {
    if(!e.phis.empty()) {
        V tmp[64];
        int n = 0;
        vector<V> big;
        int total = 0;
        for(auto &p : e.phis) total += p[2];
        V *t = tmp;
        if(total > 64) {
            big.resize(total);
            t = big.data();
        }
        for(auto &p : e.phis)
            for(int k = 0; k < p[2]; ++k) t[n++] = p[1] >= 0 ? fr.regs[p[1] + k] : constpool[~p[1] + k];
        n = 0;
        for(auto &p : e.phis)
            for(int k = 0; k < p[2]; ++k) fr.regs[p[0] + k] = t[n++];
    }
    fr.blk = &fr.f->blocks[e.target];
    fr.f->seen[e.target] = 1;
    fr.ip = 0;
}
// call finished in frame fr (its active call instruction)
static void finish_call(Frame &fr, const Inst *ci, const V *ret, int n) {
    if(ci->dst >= 0)
        for(int k = 0; k < n && k < ci->n; ++k) fr.regs[ci->dst + k] = ret[k];
    if(!ci->edges.empty()) take_edge(fr, ci->edges[0]);
    else fr.ip++;
    fr.call = nullptr;
}

// ---------------------------------------------------------------- exceptions
static string tinfo_name(u64 t) {
    u32 id = obj_at(t);
    if(id && objs[id].name) return *objs[id].name;
    return "?";
}
static bool tinfo_matches(u64 thrown, u64 want) {
    for(int depth = 0; depth < 16; ++depth) {
        if(thrown == want) return true;
        u32 id = obj_at(thrown);
        if(!id) return false;
        Obj &o = objs[id];
        // __si_class_type_info: vptr, name, base
        if(o.size == 24 && objs[id].name && objs[id].name->rfind("_ZTIP", 0) != 0) {
            u64 b;
            memcpy(&b, arena + (thrown - BASE) + 16, 8);
            if(!obj_at(b)) return false;
            thrown = b;
            continue;
        }
        return false;
    }
    return false;
}
// handler lookup in a frame: returns selector (0 = cleanup only), found=false when nothing applies
static bool lpad_select(const Inst *ci, u64 tinfo, i64 &sel, bool &is_handler) {
    auto *inv = cast<InvokeInst>(ci->I);
    const LandingPadInst *lp = inv->getLandingPadInst();
    is_handler = false;
    for(unsigned i = 0; i < lp->getNumClauses(); ++i) {
        const Constant *c = lp->getClause(i);
        if(lp->isCatch(i)) {
            u64 want = isa<ConstantPointerNull>(c) ? 0 : eval_const1(c);
            if(want == 0 || tinfo_matches(tinfo, want)) {
                sel = want == 0 ? 0x7ffffff : (i64)((want - BASE) >> 3) + 1;
                is_handler = true;
                return true;
            }
        } else {
            sel = -1;
            is_handler = true;
            return true;
        }
    }
    if(lp->isCleanup()) {
        sel = 0;
        return true;
    }
    return false;
}
// unwind from the frame at the top (whose active call raised)
static void do_unwind(u64 exc, size_t from, bool phase1) {
    u64 tinfo = excs[exc].tinfo;
    if(phase1) {
        bool found = false;
        for(size_t i = from; i-- > 0 && !found;) {
            Frame &f = frames[i];
            if(f.call && !f.call->edges.empty()) {
                i64 s;
                bool h;
                if(lpad_select(f.call, tinfo, s, h) && h) found = true;
            }
        }
        if(!found) violation("terminate", "uncaught exception of type " + tinfo_name(tinfo));
    }
    while(nframes > 0) {
        Frame &f = frames[nframes - 1];
        if(f.call && !f.call->edges.empty()) {
            i64 s;
            bool h;
            if(lpad_select(f.call, tinfo, s, h)) {
                const Inst *ci = f.call;
                f.call = nullptr;
                take_edge(f, ci->edges[1]);
                // landingpad result is written when I_LPAD executes
                unwinding_exc = exc;
                // stash selector in first slots now
                const Inst &lp = (*f.blk)[0];
                if(lp.op != I_LPAD) engine_error("landingpad not first");
                f.regs[lp.dst] = VC(exc);
                f.regs[lp.dst + 1] = VC((u64)s & 0xffffffff);
                f.ip = 1;
                return;
            }
        }
        if(f.discard) violation("terminate", "exception escaped from a destructor during exception handling");
        pop_frame();
    }
    violation("terminate", "unwound past the entry point");
}
static void exc_release(u64 e) {
    auto it = excs.find(e);
    if(it == excs.end()) return;
    u64 dtor = it->second.dtor;
    excs.erase(it);
    u32 id = obj_at(e);
    if(dtor) {
        u64 fi = (dtor - FUNC_BASE) / 16;
        FuncInfo *f = func_by_idx.at(fi);
        if(f->builtin == 0) {
            push_frame(f, nullptr);
            Frame &fr = frames[nframes - 1];
            fr.regs[f->params[0][0]] = VC(e);
            fr.discard = true;
            fr.free_on_return = e;
            return;
        }
    }
    if(id) objs[id].freed = true;
}

// ---------------------------------------------------------------- builtins
static V bin_op(unsigned opc, unsigned w, const V &a, const V &b);
static u64 do_alloc(const V &szv, ObjKind k, u64 align = 16) {
    u64 n = concretize(szv, 64);
    if(n > (1ull << 40)) return 0;
    if(n > (64ull << 20)) {
        if(tolerate) throw PathEnd{2};
        limit_count["allocation over 64 MiB"]++;
        throw PathEnd{4};
    }
    u32 id = alloc_heap(n, k, align);
    live_heap++;
    return objs[id].base;
}
static void do_free(u64 p, int kind) { // kind 0 free, 1 delete, 2 delete[]
    if(p == 0) return;
    u32 id = obj_at(p);
    if(!id) violation("memory", "free of an invalid pointer");
    Obj &o = objs[id];
    if(o.kind < OK_MALLOC || o.kind == OK_EXC) violation("memory", "free of a non-heap pointer");
    if(o.freed) violation("memory", "double free");
    if(o.base != p) violation("memory", "free of an interior pointer");
    if((kind == 0 && o.kind != OK_MALLOC) || (kind == 1 && o.kind != OK_NEW) || (kind == 2 && o.kind != OK_NEWARR))
        violation("memory", "allocation and deallocation functions do not match");
    o.freed = true;
    live_heap--;
}

static Expr *sym_memcmp(u64 p, u64 q, u64 n, bool eqonly) {
    Obj &a = access(p, n, false);
    Obj &b = access(q, n, false);
    Expr *r = mkc(0, 32);
    for(u64 i = n; i-- > 0;) {
        V x = read_byte(a, p + i), y = read_byte(b, q + i);
        if(!x.e && !y.e) {
            if(x.c != y.c) r = mkc(x.c < y.c ? (u64)-1 : 1, 32);
            continue;
        }
        Expr *ex = toE(x, 8), *ey = toE(y, 8);
        Expr *eq = mkop(E_EQ, 1, ex, ey);
        if(eqonly) r = mkite(eq, r, mkc(1, 32));
        else r = mkite(eq, r, mkite(mkop(E_ULT, 1, ex, ey), mkc((u64)-1, 32), mkc(1, 32)));
    }
    return r;
}

static void call_builtin(FuncInfo *f, Frame &fr, const Inst &x) {
    V *R = fr.regs;
    auto arg = [&](int i) -> const V & { return opnd(R, x.argslots[i][0]); };
    auto argc = [&](int i) -> u64 { return concretize(arg(i), x.lanew[i]); };
    V ret = VC(0);
    switch(f->builtin) {
    case B_VX_SYM: {
        unsigned w = arg(1).c;
        string nm = read_cstr(arg(0).c);
        Expr *v = mkvar(vars.size(), w);
        vars.push_back({w, nm});
        varw.push_back(w);
        if(have_model && model.v.size() < vars.size()) model.v.resize(vars.size(), 0);
        ret = VE(mkzext(v, 64));
        break;
    }
    case B_VX_RANGE: { // vx_range(name, lo, hi): inclusive
        u64 lo = arg(1).c, hi = arg(2).c;
        if(lo == hi) {
            // still consumes an input so that the replay stays aligned
            Expr *v = mkvar(vars.size(), 32);
            vars.push_back({32, read_cstr(arg(0).c)});
            varw.push_back(32);
            if(have_model && model.v.size() < vars.size()) model.v.resize(vars.size(), 0), model.v.back() = lo, bump_epoch();
            assume(mkop(E_EQ, 1, v, mkc(lo, 32)));
            ret = VC(lo);
            break;
        }
        Expr *v = mkvar(vars.size(), 32);
        vars.push_back({32, read_cstr(arg(0).c)});
        varw.push_back(32);
        if(have_model && model.v.size() < vars.size()) model.v.resize(vars.size(), 0), model.v.back() = lo, bump_epoch();
        assume(mkop(E_ULE, 1, mkc(lo, 32), v));
        assume(mkop(E_ULE, 1, v, mkc(hi, 32)));
        ret = VE(mkzext(v, 64));
        break;
    }
    case B_VX_ASSUME: {
        const V &c = arg(0);
        Expr *e = toE(c, x.lanew[0]);
        assume(mknot(mkop(E_EQ, 1, e, mkc(0, e->w))));
        break;
    }
    case B_VX_ASSERT: {
        st.asserts++;
        const V &c = arg(0);
        if(c.e) st.sym_asserts++;
        Expr *e = toE(c, x.lanew[0]);
        bool ok = branch(mknot(mkop(E_EQ, 1, e, mkc(0, e->w))));
        if(!ok) violation("assert", read_cstr(argc(1)));
        break;
    }
    case B_VX_FORK: {
        const V &c = arg(0);
        Expr *e = toE(c, x.lanew[0]);
        ret = VC(branch(mknot(mkop(E_EQ, 1, e, mkc(0, e->w)))));
        break;
    }
    case B_VX_ITE: {
        Expr *e = toE(arg(0), x.lanew[0]);
        Expr *c = mknot(mkop(E_EQ, 1, e, mkc(0, e->w)));
        ret = VE(mkite(c, toE(arg(1), 64), toE(arg(2), 64)));
        break;
    }
    case B_VX_FAIL: violation("assert", read_cstr(argc(0)));
    case B_VX_REACH: reach_path.insert(read_cstr(argc(0))); break;
    case B_VX_OBSERVE: observed.push_back({read_cstr(arg(0).c), arg(1)}); break;
    case B_VX_LIVE: ret = VC(live_heap); break;
    case B_VX_WORK: ret = VC(steps); break;
    case B_VX_HEAP: {
        u64 n = 0;
        for(const Obj &o : objs)
            if((o.kind == OK_MALLOC || o.kind == OK_NEW || o.kind == OK_NEWARR) && !o.freed) n += o.size;
        ret = VC(n);
        break;
    }
    case B_VX_ALLOW_LEAKS: allow_leaks = true; break;
    case B_VX_TOLERATE: tolerate = argc(0) & 1; break;
    case B_VX_CONC: ret = VC(argc(0)); break;
    case B_VX_IS_ENGINE: ret = VC(1); break;
    case B_VX_END: throw PathEnd{0};
    case B_MALLOC: ret = VC(do_alloc(arg(0), OK_MALLOC)); break;
    case B_ALIGNED_ALLOC: {
        u64 al = argc(0), n = argc(1);
        if(n > (64ull << 20)) { if(tolerate) throw PathEnd{2}; limit_count["allocation over 64 MiB"]++; throw PathEnd{4}; }
        u32 id = alloc_heap(n, OK_MALLOC, al < 16 ? 16 : al);
        live_heap++;
        ret = VC(objs[id].base);
        break;
    }
    case B_CALLOC: {
        u64 a = argc(0), b = argc(1);
        u64 p = do_alloc(VC(a * b), OK_MALLOC);
        if(p) memset(arena + (p - BASE), 0, a * b);
        ret = VC(p);
        break;
    }
    case B_REALLOC: {
        u64 p = argc(0), n = argc(1);
        if(p == 0) {
            ret = VC(do_alloc(VC(n), OK_MALLOC));
            break;
        }
        u32 id = obj_at(p);
        if(!id || objs[id].kind != OK_MALLOC || objs[id].base != p) violation("memory", "realloc of an invalid pointer");
        if(objs[id].freed) violation("memory", "realloc after free");
        u64 old = objs[id].size;
        u64 q = do_alloc(VC(n), OK_MALLOC);
        if(q) {
            do_memcpy(q, p, old < n ? old : n, false);
            do_free(p, 0);
        }
        ret = VC(q);
        break;
    }
    case B_FREE: do_free(argc(0), 0); break;
    case B_NEW:
    case B_NEWARR: {
        const bool aligned = f->F->arg_size() == 2;
        u64 p = do_alloc(arg(0), f->builtin == B_NEW ? OK_NEW : OK_NEWARR, aligned && argc(1) > 16 ? argc(1) : 16);
        if(!p) violation("terminate", "operator new: absurd allocation size");
        ret = VC(p);
        break;
    }
    case B_DELETE: do_free(argc(0), 1); break;
    case B_DELETEARR: do_free(argc(0), 2); break;
    case B_MEMCPY:
    case B_MEMMOVE: {
        u64 n = argc(2), d = argc(0), s = argc(1);
        do_memcpy(d, s, n, f->builtin == B_MEMMOVE);
        ret = VC(d);
        break;
    }
    case B_MEMSET: {
        u64 n = argc(2), d = argc(0);
        do_memset(d, arg(1), n);
        ret = VC(d);
        break;
    }
    case B_MEMCMP: {
        u64 n = argc(2);
        u64 p = argc(0), q = argc(1);
        if(n) ret = VE(sym_memcmp(p, q, n, f->name == "bcmp"));
        break;
    }
    case B_ABORT: violation("abort", "abort() called");
    case B_ASSERTFAIL: violation("abort", "assertion failed: " + read_cstr(arg(0).c));
    case B_TERMINATE: violation("terminate", "std::terminate");
    case B_EXIT: violation("exit", "exit() called");
    case B_CXA_ALLOC_EXC: {
        u32 id = alloc_heap(argc(0), OK_EXC);
        ret = VC(objs[id].base);
        break;
    }
    case B_CXA_FREE_EXC: {
        u32 id = obj_at(arg(0).c);
        if(id) objs[id].freed = true;
        break;
    }
    case B_CXA_THROW: {
        u64 e = arg(0).c;
        excs[e] = ExcInfo{arg(1).c, arg(2).c, 0, 0};
        fr.call = &x;
        do_unwind(e, nframes, true);
        return;
    }
    case B_CXA_BEGIN: {
        u64 e = arg(0).c;
        auto it = excs.find(e);
        if(it == excs.end()) engine_error("begin_catch");
        it->second.handlers = it->second.handlers < 0 ? -it->second.handlers + 1 : it->second.handlers + 1;
        exc_caught.push_back(e);
        string tn = tinfo_name(it->second.tinfo);
        if(tn.rfind("_ZTIP", 0) == 0) {
            u64 v;
            memcpy(&v, arena + (e - BASE), 8);
            ret = VC(v);
        } else
            ret = VC(e);
        break;
    }
    case B_CXA_END: {
        if(exc_caught.empty()) engine_error("end_catch");
        u64 e = exc_caught.back();
        exc_caught.pop_back();
        auto it = excs.find(e);
        finish_call(fr, &x, &ret, 1);
        if(it != excs.end()) {
            if(it->second.handlers < 0) { // rethrown: do not destroy
                it->second.handlers++;
            } else if(--it->second.handlers == 0)
                exc_release(e);
        }
        return;
    }
    case B_CXA_RETHROW: {
        if(exc_caught.empty()) violation("terminate", "rethrow without active exception");
        u64 e = exc_caught.back();
        excs[e].handlers = -excs[e].handlers;
        fr.call = &x;
        do_unwind(e, nframes, true);
        return;
    }
    case B_CXA_PURE: violation("abort", "pure virtual call");
    case B_CXA_ATEXIT: break;
    case B_GUARD_ACQ: {
        u64 p = argc(0);
        Obj &o = access(p, 8, true);
        V v = load_at(o, p, 1, 8);
        ret = VC(v.c ? 0 : 1);
        break;
    }
    case B_GUARD_REL: {
        u64 p = argc(0);
        Obj &o = access(p, 8, true);
        store_at(o, p, 1, 8, VC(1));
        break;
    }
    case B_RET0: break;
    default:
        engine_error("call to unmodelled function " + f->name);
    }
    finish_call(fr, &x, &ret, f->retslots);
}

static void overflow_op(unsigned iid, unsigned w, const V &a, const V &b, V &res, V &ov) {
    unsigned opc = 0;
    switch(iid) {
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: opc = Instruction::Add; break;
    case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: opc = Instruction::Sub; break;
    default: opc = Instruction::Mul;
    }
    res = bin_op(opc, w, a, b);
    if(!a.e && !b.e) {
        __int128 sa = sext_w(a.c, w), sb = sext_w(b.c, w), r;
        unsigned __int128 ua = a.c, ub = b.c, ur;
        bool o = false;
        switch(iid) {
        case Intrinsic::uadd_with_overflow: ur = ua + ub; o = ur > mask_w(w); break;
        case Intrinsic::usub_with_overflow: o = ua < ub; break;
        case Intrinsic::umul_with_overflow: ur = ua * ub; o = ur > mask_w(w); break;
        case Intrinsic::sadd_with_overflow: r = sa + sb; o = r != sext_w(res.c, w); break;
        case Intrinsic::ssub_with_overflow: r = sa - sb; o = r != sext_w(res.c, w); break;
        case Intrinsic::smul_with_overflow: r = sa * sb; o = r != sext_w(res.c, w); break;
        }
        ov = VC(o);
        return;
    }
    Expr *x = toE(a, w), *y = toE(b, w);
    switch(iid) {
    case Intrinsic::uadd_with_overflow: ov = VE(mkop(E_ULT, 1, toE(res, w), x)); return;
    case Intrinsic::usub_with_overflow: ov = VE(mkop(E_ULT, 1, x, y)); return;
    case Intrinsic::umul_with_overflow: {
        if(isc(y) && y->val) {
            ov = VE(mkop(E_ULT, 1, mkc(mask_w(w) / y->val, w), x));
            return;
        }
        Expr *p = mkop(E_MUL, 2 * w, mkzext(x, 2 * w), mkzext(y, 2 * w));
        ov = VE(mknot(mkop(E_EQ, 1, mkextract(p, w, w), mkc(0, w))));
        return;
    }
    case Intrinsic::sadd_with_overflow: {
        Expr *r = toE(res, w), *z = mkc(0, w);
        Expr *xs = mkop(E_SLT, 1, x, z), *ys = mkop(E_SLT, 1, y, z), *rs = mkop(E_SLT, 1, r, z);
        ov = VE(mkop(E_AND, 1, mknot(mkop(E_XOR, 1, xs, ys)), mkop(E_XOR, 1, xs, rs)));
        return;
    }
    case Intrinsic::ssub_with_overflow: {
        Expr *r = toE(res, w), *z = mkc(0, w);
        Expr *xs = mkop(E_SLT, 1, x, z), *ys = mkop(E_SLT, 1, y, z), *rs = mkop(E_SLT, 1, r, z);
        ov = VE(mkop(E_AND, 1, mkop(E_XOR, 1, xs, ys), mkop(E_XOR, 1, xs, rs)));
        return;
    }
    case Intrinsic::smul_with_overflow: {
        if(w > 32) engine_error("smul overflow wide");
        Expr *p = mkop(E_MUL, 2 * w, mksext(x, 2 * w), mksext(y, 2 * w));
        ov = VE(mknot(mkop(E_EQ, 1, mksext(toE(res, w), 2 * w), p)));
        return;
    }
    }
    engine_error("overflow_op");
}

static V cmp_op(unsigned pred, unsigned w, const V &a, const V &b);
static void call_intrinsic(FuncInfo *f, Frame &fr, const Inst &x) {
    V *R = fr.regs;
    auto arg = [&](int i) -> const V & { return opnd(R, x.argslots[i][0]); };
    unsigned w = x.lanew.empty() ? 0 : x.lanew[0];
    V ret[64];
    int n = x.n;
    if(x.dst < 0) n = 0;
    if(n > 64) engine_error("wide intrinsic");
    auto lane = [&](int i, int k) -> V {
        int o = x.argslots[i][0];
        return o >= 0 ? R[o + k] : constpool[~o + k];
    };
    switch(f->iid) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        u64 nn = concretize(arg(2), x.lanew[2]);
        if(nn) {
            u64 d = addr_of(arg(0)), s = addr_of(arg(1));
            do_memcpy(d, s, nn, f->iid == Intrinsic::memmove);
        }
        break;
    }
    case Intrinsic::memset: {
        u64 nn = concretize(arg(2), x.lanew[2]);
        if(nn) do_memset(addr_of(arg(0)), arg(1), nn);
        break;
    }
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin:
        for(int k = 0; k < n; ++k) {
            V a = lane(0, k), b = lane(1, k);
            unsigned p = f->iid == Intrinsic::umax ? CmpInst::ICMP_UGT : f->iid == Intrinsic::umin ? CmpInst::ICMP_ULT
                         : f->iid == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
            V c = cmp_op(p, w, a, b);
            if(!c.e) ret[k] = c.c ? a : b;
            else ret[k] = VE(mkite(c.e, toE(a, w), toE(b, w)));
        }
        break;
    case Intrinsic::abs:
        for(int k = 0; k < n; ++k) {
            V a = lane(0, k);
            V neg = bin_op(Instruction::Sub, w, VC(0), a);
            V c = cmp_op(CmpInst::ICMP_SLT, w, a, VC(0));
            if(!c.e) ret[k] = c.c ? neg : a;
            else ret[k] = VE(mkite(c.e, toE(neg, w), toE(a, w)));
        }
        break;
    case Intrinsic::usub_sat: case Intrinsic::uadd_sat: {
        V a = arg(0), b = arg(1);
        if(f->iid == Intrinsic::usub_sat) {
            V c = cmp_op(CmpInst::ICMP_ULT, w, a, b), d = bin_op(Instruction::Sub, w, a, b);
            ret[0] = !c.e ? (c.c ? VC(0) : d) : VE(mkite(c.e, mkc(0, w), toE(d, w)));
        } else {
            V d = bin_op(Instruction::Add, w, a, b), c = cmp_op(CmpInst::ICMP_ULT, w, d, a);
            ret[0] = !c.e ? (c.c ? VC(mask_w(w)) : d) : VE(mkite(c.e, mkc(mask_w(w), w), toE(d, w)));
        }
        break;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
        overflow_op(f->iid, w, arg(0), arg(1), ret[0], ret[1]);
        break;
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
        V a = arg(0);
        if(!a.e) {
            if(f->iid == Intrinsic::ctpop) ret[0] = VC(__builtin_popcountll(a.c));
            else if(f->iid == Intrinsic::ctlz) ret[0] = VC(a.c ? __builtin_clzll(a.c) - (64 - w) : w);
            else ret[0] = VC(a.c ? __builtin_ctzll(a.c) : w);
        } else {
            Expr *r;
            if(f->iid == Intrinsic::ctpop) {
                r = mkc(0, w);
                for(unsigned i = 0; i < w; ++i) r = mkop(E_ADD, w, r, mkzext(mkextract(a.e, i, 1), w));
            } else if(f->iid == Intrinsic::ctlz) {
                r = mkc(w, w);
                for(unsigned i = 0; i < w; ++i) r = mkite(mkextract(a.e, i, 1), mkc(w - 1 - i, w), r);
            } else {
                r = mkc(w, w);
                for(unsigned i = w; i-- > 0;) r = mkite(mkextract(a.e, i, 1), mkc(i, w), r);
            }
            ret[0] = VE(r);
        }
        break;
    }
    case Intrinsic::bswap: {
        V a = arg(0);
        Expr *e = toE(a, w), *r = nullptr;
        for(unsigned i = 0; i < w; i += 8) {
            Expr *b = mkextract(e, i, 8);
            r = r ? mkconcat(r, b) : b;
        }
        ret[0] = VE(r);
        break;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        V a = arg(0), b = arg(1), s = arg(2);
        u64 k = concretize(s, w) % w;
        Expr *A = toE(a, w), *B = toE(b, w);
        if(f->iid == Intrinsic::fshr) k = (w - k) % w, k == 0 ? (void)(A = B) : (void)0;
        ret[0] = k == 0 ? VE(A) : VE(mkconcat(mkextract(A, 0, w - k), mkextract(B, w - k, k)));
        break;
    }
    case Intrinsic::is_constant: ret[0] = VC(0); break;
    case Intrinsic::objectsize: ret[0] = VC(mask_w(x.w)); break;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
    case Intrinsic::ptr_annotation: case Intrinsic::expect_with_probability: case Intrinsic::annotation:
    case Intrinsic::threadlocal_address:
        ret[0] = arg(0);
        break;
    case Intrinsic::eh_typeid_for: {
        u64 t = arg(0).c;
        ret[0] = VC(t == 0 ? 0x7ffffff : ((t - BASE) >> 3) + 1);
        break;
    }
    case Intrinsic::trap: violation("abort", "llvm.trap");
    case Intrinsic::ubsantrap: violation("ub", "undefined behaviour sanitizer trap " + std::to_string(arg(0).c));
    case Intrinsic::stacksave: ret[0] = VC(0); break;
    case Intrinsic::vastart: {
        // all variadic arguments live in the overflow area
        u64 p = addr_of(arg(0));
        Obj &o = access(p, 24, true);
        u64 sz = fr.varargs.size() * 8;
        u64 off = (stack_top + 15) & ~15ull;
        if(off + sz + 64 > STACK_OFF + STACK_SIZE) engine_error("stack");
        u32 id = new_obj(off, sz ? sz : 1, OK_STACK);
        frames[nframes - 1].allocas.push_back(id);
        stack_top = ((off + sz + 16) & ~15ull) + 32;
        for(size_t i = 0; i < fr.varargs.size(); ++i) {
            unsigned vw = fr.varargs[i].second;
            V v = fr.varargs[i].first;
            if(v.e) v = VE(mkzext(v.e, 64));
            (void)vw;
            store_at(objs[id], BASE + off + i * 8, 8, 64, v);
        }
        Obj &o2 = access(p, 24, true);
        store_at(o2, p, 4, 32, VC(48));
        store_at(o2, p + 4, 4, 32, VC(176));
        store_at(o2, p + 8, 8, 64, VC(BASE + off));
        store_at(o2, p + 16, 8, 64, VC(0));
        (void)o;
        break;
    }
    case Intrinsic::vaend: break;
    case Intrinsic::vacopy: do_memcpy(addr_of(arg(0)), addr_of(arg(1)), 24, true); break;
    case Intrinsic::fabs: {
        V a = arg(0);
        ret[0] = bin_op(Instruction::And, w, a, VC(mask_w(w) >> 1));
        break;
    }
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: {
        int m = x.argslots[0][1];
        V r = lane(0, 0);
        unsigned opc = f->iid == Intrinsic::vector_reduce_or ? Instruction::Or
                       : f->iid == Intrinsic::vector_reduce_and ? Instruction::And : Instruction::Add;
        for(int k = 1; k < m; ++k) r = bin_op(opc, w, r, lane(0, k));
        ret[0] = r;
        break;
    }
    case Intrinsic::ucmp: case Intrinsic::scmp: {
        V a = arg(0), b = arg(1);
        bool u = f->iid == Intrinsic::ucmp;
        V lt = cmp_op(u ? CmpInst::ICMP_ULT : CmpInst::ICMP_SLT, w, a, b);
        V eq = cmp_op(CmpInst::ICMP_EQ, w, a, b);
        ret[0] = VE(mkite(toE(lt, 1), mkc((u64)-1, x.w), mkite(toE(eq, 1), mkc(0, x.w), mkc(1, x.w))));
        break;
    }
    default: engine_error("intrinsic " + f->name);
    }
    finish_call(fr, &x, ret, n);
}

static V bin_op(unsigned opc, unsigned w, const V &a, const V &b) {
    u64 m = mask_w(w);
    if(!a.e && !b.e) {
        u64 x = a.c, y = b.c;
        switch(opc) {
        case Instruction::Add: return VC((x + y) & m);
        case Instruction::Sub: return VC((x - y) & m);
        case Instruction::Mul: return VC((x * y) & m);
        case Instruction::And: return VC(x & y);
        case Instruction::Or: return VC(x | y);
        case Instruction::Xor: return VC(x ^ y);
        case Instruction::Shl: return VC(y >= w ? 0 : (x << y) & m);
        case Instruction::LShr: return VC(y >= w ? 0 : x >> y);
        case Instruction::AShr: return VC((u64)(sext_w(x, w) >> (y >= w ? w - 1 : y)) & m);
        default: break;
        }
    }
    if(opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem || opc == Instruction::SRem) {
        Expr *d = toE(b, w);
        Expr *z = mkop(E_EQ, 1, d, mkc(0, w));
        if(branch(z)) violation("ub", "division by zero");
        static const std::map<unsigned, EOp> mm = {{Instruction::UDiv, E_UDIV}, {Instruction::SDiv, E_SDIV},
                                                   {Instruction::URem, E_UREM}, {Instruction::SRem, E_SREM}};
        return VE(mkop(mm.at(opc), w, toE(a, w), d));
    }
    EOp e;
    switch(opc) {
    case Instruction::Add: e = E_ADD; break;
    case Instruction::Sub: e = E_SUB; break;
    case Instruction::Mul: e = E_MUL; break;
    case Instruction::And: e = E_AND; break;
    case Instruction::Or: e = E_OR; break;
    case Instruction::Xor: e = E_XOR; break;
    case Instruction::Shl: e = E_SHL; break;
    case Instruction::LShr: e = E_LSHR; break;
    case Instruction::AShr: e = E_ASHR; break;
    case Instruction::FAdd: e = E_FADD; break;
    case Instruction::FSub: e = E_FSUB; break;
    case Instruction::FMul: e = E_FMUL; break;
    case Instruction::FDiv: e = E_FDIV; break;
    default: engine_error("binop");
    }
    return VE(mkop(e, w, toE(a, w), toE(b, w)));
}
static V cmp_op(unsigned pred, unsigned w, const V &a, const V &b) {
    if(!a.e && !b.e) {
        u64 x = a.c, y = b.c;
        i64 sx = sext_w(x, w), sy = sext_w(y, w);
        switch(pred) {
        case CmpInst::ICMP_EQ: return VC(x == y);
        case CmpInst::ICMP_NE: return VC(x != y);
        case CmpInst::ICMP_ULT: return VC(x < y);
        case CmpInst::ICMP_ULE: return VC(x <= y);
        case CmpInst::ICMP_UGT: return VC(x > y);
        case CmpInst::ICMP_UGE: return VC(x >= y);
        case CmpInst::ICMP_SLT: return VC(sx < sy);
        case CmpInst::ICMP_SLE: return VC(sx <= sy);
        case CmpInst::ICMP_SGT: return VC(sx > sy);
        case CmpInst::ICMP_SGE: return VC(sx >= sy);
        }
    }
    Expr *x = toE(a, w), *y = toE(b, w);
    switch(pred) {
    case CmpInst::ICMP_EQ: return VE(mkop(E_EQ, 1, x, y));
    case CmpInst::ICMP_NE: return VE(mknot(mkop(E_EQ, 1, x, y)));
    case CmpInst::ICMP_ULT: return VE(mkop(E_ULT, 1, x, y));
    case CmpInst::ICMP_ULE: return VE(mkop(E_ULE, 1, x, y));
    case CmpInst::ICMP_UGT: return VE(mkop(E_ULT, 1, y, x));
    case CmpInst::ICMP_UGE: return VE(mkop(E_ULE, 1, y, x));
    case CmpInst::ICMP_SLT: return VE(mkop(E_SLT, 1, x, y));
    case CmpInst::ICMP_SLE: return VE(mkop(E_SLE, 1, x, y));
    case CmpInst::ICMP_SGT: return VE(mkop(E_SLT, 1, y, x));
    case CmpInst::ICMP_SGE: return VE(mkop(E_SLE, 1, y, x));
    }
    engine_error("icmp");
}
static V fcmp_op(unsigned pred, unsigned w, const V &a, const V &b) {
    Expr *x = toE(a, w), *y = toE(b, w);
    Expr *r;
    Expr *uno = mkop(E_FUNO, 1, x, y);
    switch(pred & 7) {
    case 0: r = mkc(0, 1); break;
    case 1: r = mkop(E_FEQ, 1, x, y); break;
    case 2: r = mkop(E_FLT, 1, y, x); break;
    case 3: r = mkop(E_FLE, 1, y, x); break;
    case 4: r = mkop(E_FLT, 1, x, y); break;
    case 5: r = mkop(E_FLE, 1, x, y); break;
    case 6: r = mkop(E_OR, 1, mkop(E_FLT, 1, x, y), mkop(E_FLT, 1, y, x)); break;
    default: r = mknot(uno); break;
    }
    if(pred & 8) { // unordered variants
        if((pred & 7) == 7) r = mkc(1, 1);
        else r = mkop(E_OR, 1, uno, r);
    }
    return VE(r);
}

static void run_loop(size_t base_frames) {
    while(nframes > base_frames) {
        Frame &fr = frames[nframes - 1];
        const Inst &x = (*fr.blk)[fr.ip];
        V *R = fr.regs;
        cur_inst = &x;
        if(++steps > opt_maxsteps) {
            violation("hang", "step limit exceeded (non-termination within the bound)");
        }
        switch(x.op) {
        case I_BIN:
            for(int k = 0; k < x.n; ++k) {
                const V &a = x.a >= 0 ? R[x.a + k] : constpool[~x.a + k];
                const V &b = x.b >= 0 ? R[x.b + k] : constpool[~x.b + k];
                R[x.dst + k] = bin_op(x.sub, x.w, a, b);
            }
            fr.ip++;
            break;
        case I_ICMP:
        case I_FCMP:
            for(int k = 0; k < x.n; ++k) {
                const V &a = x.a >= 0 ? R[x.a + k] : constpool[~x.a + k];
                const V &b = x.b >= 0 ? R[x.b + k] : constpool[~x.b + k];
                R[x.dst + k] = x.op == I_ICMP ? cmp_op(x.sub, x.w2, a, b) : fcmp_op(x.sub, x.w2, a, b);
            }
            fr.ip++;
            break;
        case I_TRUNC:
        case I_ZEXT:
        case I_SEXT:
        case I_COPY:
        case I_FNEG:
            for(int k = 0; k < x.n; ++k) {
                const V &a = x.a >= 0 ? R[x.a + k] : constpool[~x.a + k];
                V &d = R[x.dst + k];
                if(x.op == I_COPY) d = a;
                else if(x.op == I_FNEG) d = bin_op(Instruction::Xor, x.w, a, VC(1ull << (x.w - 1)));
                else if(!a.e && x.w <= 64) {
                    if(x.op == I_SEXT) d = VC((u64)sext_w(a.c, x.w2) & mask_w(x.w));
                    else d = VC(a.c & mask_w(x.w));
                } else {
                    Expr *e = toE(a, x.w2);
                    if(x.op == I_TRUNC) d = VE(mkextract(e, 0, x.w));
                    else if(x.op == I_ZEXT) d = VE(mkzext(e, x.w));
                    else d = VE(mksext(e, x.w));
                }
            }
            fr.ip++;
            break;
        case I_COPYBITS: {
            Expr *e = nullptr;
            for(u64 k = 0; k < x.imm; ++k) {
                const V &a = x.a >= 0 ? R[x.a + k] : constpool[~x.a + k];
                Expr *p = toE(a, x.w2);
                e = e ? mkconcat(p, e) : p;
            }
            for(int k = 0; k < x.n; ++k) R[x.dst + k] = VE(mkextract(e, k * x.w, x.w));
            fr.ip++;
            break;
        }
        case I_FPCONV: {
            for(int k = 0; k < x.n; ++k) {
                const V &a = x.a >= 0 ? R[x.a + k] : constpool[~x.a + k];
                EOp o;
                switch(x.sub) {
                case Instruction::FPExt: o = E_FPEXT; break;
                case Instruction::FPTrunc: o = E_FPTRUNC; break;
                case Instruction::SIToFP: o = E_SI2F; break;
                case Instruction::UIToFP: o = E_UI2F; break;
                case Instruction::FPToSI: o = E_F2SI; break;
                default: o = E_F2UI; break;
                }
                R[x.dst + k] = VE(mkop(o, x.w, toE(a, x.w2)));
            }
            fr.ip++;
            break;
        }
        case I_LOAD: {
            const V &av = opnd(R, x.a);
            if(av.e && x.n == 1) {
                V out;
                if(ite_load(av, x.imm, x.lanew[0], out)) {
                    R[x.dst] = out;
                    fr.ip++;
                    break;
                }
            }
            u64 p = addr_of(av);
            Obj &o = access(p, x.imm, false);
            for(int k = 0; k < x.n; ++k)
                R[x.dst + k] = load_at(o, p + x.argslots[k][0], x.argslots[k][1], x.lanew[k]);
            fr.ip++;
            break;
        }
        case I_STORE: {
            u64 p = addr_of(opnd(R, x.a));
            Obj &o = access(p, x.imm, true);
            for(int k = 0; k < x.n; ++k) {
                const V &v = x.b >= 0 ? R[x.b + k] : constpool[~x.b + k];
                store_at(o, p + x.argslots[k][0], x.argslots[k][1], x.lanew[k], v);
            }
            fr.ip++;
            break;
        }
        case I_GEP: {
            V r = opnd(R, x.a);
            if(!r.e) r.c += x.imm;
            else if(x.imm) r = VE(mkop(E_ADD, 64, r.e, mkc(x.imm, 64)));
            for(auto &g : x.gep) {
                const V &i = opnd(R, g.op);
                if(!i.e) {
                    u64 k = (u64)sext_w(i.c, g.w) * g.scale;
                    if(!r.e) r.c += k;
                    else r = VE(mkop(E_ADD, 64, r.e, mkc(k, 64)));
                } else {
                    Expr *ie = mksext(i.e, 64);
                    if(g.scale != 1) ie = mkop(E_MUL, 64, ie, mkc(g.scale, 64));
                    r = VE(mkop(E_ADD, 64, toE(r, 64), ie));
                }
            }
            R[x.dst] = r;
            fr.ip++;
            break;
        }
        case I_ALLOCA: {
            u64 n = concretize(opnd(R, x.a), 64) * x.imm;
            const u64 al = std::max<u64>(64, cast<AllocaInst>(x.I)->getAlign().value());
            u64 off = (stack_top + al - 1) & ~(al - 1);
            if(n > (1 << 20) || off + n + 64 > STACK_OFF + STACK_SIZE) violation("limit", "stack overflow");
            u32 id = new_obj(off, n, OK_STACK);
            memset(arena + off, 0xCD, n);
            stack_top = ((off + n + 15) & ~15ull) + 32;
            fr.allocas.push_back(id);
            R[x.dst] = VC(BASE + off);
            fr.ip++;
            break;
        }
        case I_CALL: {
            FuncInfo *f = x.callee;
            if(!f) {
                u64 a = addr_of(opnd(R, x.a));
                u64 i = (a - FUNC_BASE) / 16;
                if(a < FUNC_BASE || i >= func_by_idx.size() || func_by_idx[i]->addr != a)
                    violation("memory", "call through an invalid function pointer");
                f = func_by_idx[i];
                if(f->F) f = get_func(f->F);
            }
            if(f->is_intrinsic) {
                call_intrinsic(f, fr, x);
                break;
            }
            if(f->builtin) {
                call_builtin(f, fr, x);
                break;
            }
            fr.call = &x;
            Frame *caller = &frames[nframes - 1];
            V *cr = caller->regs;
            push_frame(f, &x);
            Frame &nf = frames[nframes - 1];
            size_t np = f->params.size();
            for(size_t i = 0; i < x.argslots.size(); ++i) {
                if(i < np) {
                    for(int k = 0; k < x.argslots[i][1]; ++k) {
                        int o = x.argslots[i][0];
                        nf.regs[f->params[i][0] + k] = o >= 0 ? cr[o + k] : constpool[~o + k];
                    }
                } else
                    nf.varargs.push_back({opnd(cr, x.argslots[i][0]), x.lanew[i]});
            }
            // byval arguments: copy
            if(f->F)
                for(size_t i = 0; i < np && i < x.argslots.size(); ++i)
                    if(f->F->getArg(i)->hasByValAttr()) {
                        u64 sz = DL->getTypeAllocSize(f->F->getParamByValType(i));
                        u64 off = (stack_top + 63) & ~63ull;
                        u32 id = new_obj(off, sz, OK_STACK);
                        stack_top = ((off + sz + 15) & ~15ull) + 32;
                        nf.allocas.push_back(id);
                        V &pv = nf.regs[f->params[i][0]];
                        do_memcpy(BASE + off, addr_of(pv), sz, true);
                        pv = VC(BASE + off);
                    }
            break;
        }
        case I_RET: {
            V ret[64];
            if(x.n > 64) engine_error("wide return");
            for(int k = 0; k < x.n; ++k) ret[k] = x.a >= 0 ? R[x.a + k] : constpool[~x.a + k];
            bool disc = fr.discard;
            u64 fe = fr.free_on_return;
            pop_frame();
            if(fe) {
                u32 id = obj_at(fe);
                if(id) objs[id].freed = true;
            }
            if(disc) break;
            if(nframes == base_frames) return;
            if(nframes) {
                Frame &c = frames[nframes - 1];
                finish_call(c, c.call, ret, x.n);
            }
            break;
        }
        case I_BR: take_edge(fr, x.edges[0]); break;
        case I_CONDBR: {
            const V &c = opnd(R, x.a);
            bool t = c.e ? branch(c.e) : (c.c & 1);
            take_edge(fr, x.edges[t ? 0 : 1]);
            break;
        }
        case I_SWITCH: {
            const V &v = opnd(R, x.a);
            size_t k = 0;
            bool hit = false;
            if(!v.e) {
                for(; k < x.args.size(); ++k)
                    if(constpool[x.args[k]].c == v.c) {
                        hit = true;
                        break;
                    }
            } else {
                V vv = v;
                for(; k < x.args.size(); ++k)
                    if(branch(mkop(E_EQ, 1, vv.e, mkc(constpool[x.args[k]].c, x.w)))) {
                        hit = true;
                        break;
                    }
            }
            take_edge(fr, x.edges[hit ? k + 1 : 0]);
            break;
        }
        case I_SELECT:
            for(int k = 0; k < x.n; ++k) {
                const V &c = x.sub ? (x.c >= 0 ? R[x.c + k] : constpool[~x.c + k]) : opnd(R, x.c);
                const V &a = x.a >= 0 ? R[x.a + k] : constpool[~x.a + k];
                const V &b = x.b >= 0 ? R[x.b + k] : constpool[~x.b + k];
                if(!c.e) R[x.dst + k] = (c.c & 1) ? a : b;
                else R[x.dst + k] = VE(mkite(c.e, toE(a, x.lanew[k]), toE(b, x.lanew[k])));
            }
            fr.ip++;
            break;
        case I_INSERT: {
            for(int k = 0; k < x.n; ++k) R[x.dst + k] = x.a >= 0 ? R[x.a + k] : constpool[~x.a + k];
            for(int k = 0; k < x.c; ++k) R[x.dst + x.imm + k] = x.b >= 0 ? R[x.b + k] : constpool[~x.b + k];
            fr.ip++;
            break;
        }
        case I_LPAD: engine_error("landingpad reached by fallthrough");
        case I_RESUME: {
            u64 e = opnd(R, x.a).c;
            pop_frame();
            if(nframes == 0) violation("terminate", "exception escaped the entry point");
            do_unwind(e, nframes, false);
            break;
        }
        case I_UNREACHABLE: violation("ub", "unreachable code reached");
        case I_EXTELT: {
            u64 i = concretize(opnd(R, x.b), 64);
            R[x.dst] = x.a >= 0 ? R[x.a + i] : constpool[~x.a + i];
            fr.ip++;
            break;
        }
        case I_INSELT: {
            u64 i = concretize(opnd(R, x.c), 64);
            V v = opnd(R, x.b);
            for(int k = 0; k < x.n; ++k) R[x.dst + k] = x.a >= 0 ? R[x.a + k] : constpool[~x.a + k];
            R[x.dst + i] = v;
            fr.ip++;
            break;
        }
        case I_SHUF: {
            V t[64];
            for(int k = 0; k < x.n; ++k) {
                int m = x.args[k];
                if(m < 0) t[k] = VC(0);
                else if((u64)m < x.imm) t[k] = x.a >= 0 ? R[x.a + m] : constpool[~x.a + m];
                else t[k] = x.b >= 0 ? R[x.b + m - x.imm] : constpool[~x.b + m - x.imm];
            }
            for(int k = 0; k < x.n; ++k) R[x.dst + k] = t[k];
            fr.ip++;
            break;
        }
        case I_RMW: {
            u64 p = addr_of(opnd(R, x.a));
            unsigned bytes = (x.w + 7) / 8;
            Obj &o = access(p, bytes, true);
            V old = load_at(o, p, bytes, x.w), b = opnd(R, x.b), nv;
            switch(x.sub) {
            case AtomicRMWInst::Xchg: nv = b; break;
            case AtomicRMWInst::Add: nv = bin_op(Instruction::Add, x.w, old, b); break;
            case AtomicRMWInst::Sub: nv = bin_op(Instruction::Sub, x.w, old, b); break;
            case AtomicRMWInst::And: nv = bin_op(Instruction::And, x.w, old, b); break;
            case AtomicRMWInst::Or: nv = bin_op(Instruction::Or, x.w, old, b); break;
            default: engine_error("rmw");
            }
            store_at(o, p, bytes, x.w, nv);
            R[x.dst] = old;
            fr.ip++;
            break;
        }
        case I_CMPXCHG: {
            u64 p = addr_of(opnd(R, x.a));
            unsigned bytes = (x.w + 7) / 8;
            Obj &o = access(p, bytes, true);
            V old = load_at(o, p, bytes, x.w);
            V eq = cmp_op(CmpInst::ICMP_EQ, x.w, old, opnd(R, x.b));
            bool t = eq.e ? branch(eq.e) : eq.c;
            if(t) store_at(o, p, bytes, x.w, opnd(R, x.c));
            R[x.dst] = old;
            R[x.dst + 1] = VC(t);
            fr.ip++;
            break;
        }
        default: {
            string s;
            raw_string_ostream os(s);
            x.I->print(os);
            engine_error("unsupported instruction " + s);
        }
        }
    }
}

// ---------------------------------------------------------------- globals
static vector<std::pair<u32, vector<uint8_t>>> snapshots;

static void setup_globals() {
    glob_top = 64;
    objs.resize(1);
    for(auto &g : M->globals()) {
        if(g.getName().starts_with("llvm.")) continue;
        u64 sz;
        if(g.getValueType()->isSized()) sz = DL->getTypeAllocSize(g.getValueType());
        else sz = 64;
        if(g.isDeclaration()) sz = std::max<u64>(sz, 64);
        u64 off = (glob_top + 63) & ~63ull;
        if(off + sz + 64 > STACK_OFF) engine_error("too many globals");
        u32 id = new_obj(off, sz, g.isConstant() ? OK_CONST : OK_GLOBAL);
        objs[id].name = new string(g.getName().str());
        gaddr[&g] = BASE + off;
        glob_top = ((off + sz + 15) & ~15ull) + 32;
        memset(arena + off, 0, sz);
    }
    for(auto &f : *M)
        if(!f.isIntrinsic()) get_func(&f);
    for(auto &g : M->globals()) {
        if(g.getName().starts_with("llvm.") || g.isDeclaration()) continue;
        write_init(g.getInitializer(), arena + (gaddr[&g] - BASE));
    }
    n_static_objs = objs.size();
}
static void reset_path() {
    while(nframes) pop_frame();
    // clear heap granules
    memset(gran + (HEAP_OFF >> 4), 0, ((heap_top - HEAP_OFF + 63) >> 4) * 4);
    for(size_t i = n_static_objs; i < objs.size(); ++i) delete objs[i].name;
    objs.resize(n_static_objs);
    free_stack_ids.clear();
    heap_top = HEAP_OFF;
    stack_top = STACK_OFF;
    for(auto &s : snapshots) {
        Obj &o = objs[s.first];
        if(o.dirty) {
            memcpy(arena + (o.base - BASE), s.second.data(), o.size);
            o.dirty = false;
            o.hasSym = false;
        }
    }
    vars.clear();
    varw.clear();
    pcs.clear();
    ivals.clear();
    marked.clear();
    known.clear();
    observed.clear();
    reach_path.clear();
    exc_caught.clear();
    excs.clear();
    steps = 0;
    live_heap = 0;
    allow_leaks = false;
    tolerate = false;
    path_incomplete = false;
    regtop = regstack;
    cur_inst = nullptr;
}
static void run_function(const Function *f) {
    FuncInfo *fi = get_func(f);
    size_t base = nframes;
    push_frame(fi, nullptr);
    run_loop(base);
}

// ---------------------------------------------------------------- exploration
struct Sample {
    vector<u64> input;
    vector<unsigned> widths;
    vector<string> names;
    vector<u64> obs;
    vector<u64> leaks;
};
static vector<Sample> samples;
static u64 sample_seen;
static Function *entryF;
static u64 rng_state = 88172645463325252ull;
static u64 rnd() {
    rng_state ^= rng_state << 13;
    rng_state ^= rng_state >> 7;
    rng_state ^= rng_state << 17;
    return rng_state;
}

static void maybe_sample() {
    sample_seen++;
    size_t idx;
    if(samples.size() < (size_t)opt_samples) {
        samples.emplace_back();
        idx = samples.size() - 1;
    } else {
        u64 r = rnd() % sample_seen;
        if(r >= samples.size()) return;
        idx = r;
    }
    if(!have_model) {
        try {
            ensure_model();
        } catch(PathEnd &) {
            if(idx + 1 == samples.size()) samples.pop_back();
            return;
        }
    }
    Sample s;
    for(size_t i = 0; i < vars.size(); ++i) {
        s.input.push_back(i < model.v.size() ? model.v[i] & mask_w(vars[i].w) : 0);
        s.widths.push_back(vars[i].w);
        s.names.push_back(vars[i].name);
    }
    for(auto &o : observed) s.obs.push_back(o.second.e ? eval_expr(o.second.e, model) : o.second.c);
    samples[idx] = std::move(s);
}

// returns the kind of path end
static int run_path(Alt &a) {
    reset_path();
    trail = std::move(a.d);
    prefix_len = trail.size();
    pos = 0;
    have_model = a.has_model;
    model = std::move(a.m);
    bump_epoch();
    int kind = 0;
    try {
        run_function(entryF);
        if(!allow_leaks && live_heap) violation("leak", std::to_string(live_heap) + " heap block(s) never freed");
    } catch(PathEnd &e) {
        kind = e.kind;
    } catch(EngineError &e) {
        kind = 3;
        error_count[e.msg + " @ " + where().substr(0, 300)]++;
    }
    st.steps += steps;
    if(pos < prefix_len && kind == 0) {
        error_count["replay divergence (unused decisions)"]++;
        kind = 3;
    }
    switch(kind) {
    case 0:
        st.paths_complete++;
        for(auto &r : reach_path) reach_count[r]++;
        maybe_sample();
        break;
    case 1:
        for(auto &r : reach_path) reach_count[r]++;
        st.paths_violation++;
        break;
    case 2: st.paths_assumed_away++; break;
    case 3: st.paths_error++; break;
    default: st.paths_limit++;
    }
    if(pool.count > 3000000) {
        // drop all expressions and the solver context; constants in the pool that are wide expressions stay rare
        solver.destroy();
        pool.clear();
        solver.init();
        for(size_t i = 0; i < constpool.size(); ++i)
            if(constpool[i].e) engine_error("wide constant across a pool reset");
        known.clear();
        marked.clear();
        pcs.clear();
    }
    return kind;
}

// ---- shared work


static void put(string &s, const void *p, size_t n) { s.append((const char *)p, n); }
static string ser_alt(const Alt &a) {
    string s;
    u32 n = a.d.size(), m = a.m.v.size(), h = a.has_model;
    put(s, &n, 4);
    put(s, &m, 4);
    put(s, &h, 4);
    put(s, a.d.data(), n * sizeof(Decision));
    put(s, a.m.v.data(), m * 8);
    return s;
}
static Alt des_alt(const string &s) {
    Alt a;
    u32 n, m, h;
    memcpy(&n, s.data(), 4);
    memcpy(&m, s.data() + 4, 4);
    memcpy(&h, s.data() + 8, 4);
    a.d.resize(n);
    a.m.v.resize(m);
    a.has_model = h;
    memcpy(a.d.data(), s.data() + 12, n * sizeof(Decision));
    memcpy(a.m.v.data(), s.data() + 12 + n * sizeof(Decision), m * 8);
    return a;
}
static bool write_all(int fd, const void *p, size_t n) {
    const char *c = (const char *)p;
    while(n) {
        ssize_t k = write(fd, c, n);
        if(k <= 0) {
            if(k < 0 && errno == EINTR) continue;
            return false;
        }
        c += k;
        n -= k;
    }
    return true;
}
static bool read_all(int fd, void *p, size_t n) {
    char *c = (char *)p;
    while(n) {
        ssize_t k = read(fd, c, n);
        if(k <= 0) {
            if(k < 0 && errno == EINTR) continue;
            return false;
        }
        c += k;
        n -= k;
    }
    return true;
}
static void send_msg(int fd, char type, const string &s) {
    u32 n = s.size();
    string b;
    b += type;
    put(b, &n, 4);
    b += s;
    write_all(fd, b.data(), b.size());
}
static bool recv_msg(int fd, char &type, string &s) {
    char h[5];
    if(!read_all(fd, h, 5)) return false;
    type = h[0];
    u32 n;
    memcpy(&n, h + 1, 4);
    s.resize(n);
    return n == 0 || read_all(fd, &s[0], n);
}
static string jstr(const string &s) {
    string r = "\"";
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') r += '\\', r += c;
        else if(c < 32 || c > 126) {
            char b[8];
            snprintf(b, 8, "\\u%04x", c);
            r += b;
        } else r += c;
    }
    return r + "\"";
}
template<class T> static string jarr(const vector<T> &v) {
    string r = "[";
    for(size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]);
    return r + "]";
}
static string jsarr(const vector<string> &v) {
    string r = "[";
    for(size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + jstr(v[i]);
    return r + "]";
}
static string jmap(const std::map<string, u64> &m) {
    string r = "{";
    bool f = true;
    for(auto &k : m) {
        r += (f ? "" : ",") + jstr(k.first) + ":" + std::to_string(k.second);
        f = false;
    }
    return r + "}";
}
static string full_name(StringRef dir, StringRef file) {
    return file.starts_with("/") || dir.empty() ? file.str() : dir.str() + "/" + file.str();
}
static string result_json(u64 pending) {
    string o = "{";
    auto num = [&](const char *k, u64 v) { o += string("\"") + k + "\":" + std::to_string(v) + ","; };
    num("paths_complete", st.paths_complete);
    num("paths_violation", st.paths_violation);
    num("paths_assumed_away", st.paths_assumed_away);
    num("paths_reference_undefined", st.tolerated);
    num("paths_error", st.paths_error);
    num("paths_limit", st.paths_limit);
    num("queries", st.queries);
    num("q_sat", st.q_sat);
    num("q_unsat", st.q_unsat);
    num("q_unknown", st.q_unknown);
    num("forks", st.forks);
    num("implied", st.implied);
    num("by_interval", st.by_interval);
    num("steps", st.steps);
    num("asserts", st.asserts);
    num("sym_asserts", st.sym_asserts);
    num("pending", pending);
    o += "\"solver_time\":" + std::to_string(st.solver_time) + ",";
    std::map<string, u64> fns;
    for(auto f : func_by_idx)
        if(f->calls && f->F && !f->F->isDeclaration()) {
            string file = "?";
            if(auto *sp = f->F->getSubprogram()) file = full_name(sp->getDirectory(), sp->getFilename());
            fns[file + "|" + demangle(f->name)] += f->calls;
        }
    o += "\"functions\":" + jmap(fns) + ",";
    // source lines with code: executed at least once on some path (1) or never (0), inlined code included
    std::map<string, u64> lines;
    for(auto f : func_by_idx) {
        if(!f->decoded || !f->calls || !f->F) continue;
        size_t bi = 0;
        for(auto &bb : *f->F) {
            bool hit = f->seen[bi++];
            for(auto &I : bb)
                if(auto loc = I.getDebugLoc())
                    if(loc.getLine()) {
                        for(const DILocation *l = loc.get(); l; l = l->getInlinedAt())
                            if(l->getLine()) {
                                u64 &x = lines[full_name(l->getDirectory(), l->getFilename()) + "|" + std::to_string(l->getLine())];
                                if(hit) x = 1;
                            }
                    }
        }
    }
    o += "\"lines\":" + jmap(lines) + ",";
    o += "\"reach\":" + jmap(reach_count) + ",";
    o += "\"errors\":" + jmap(error_count) + ",";
    o += "\"limits\":" + jmap(limit_count) + ",";
    o += "\"viol_count\":" + jmap(viol_count) + ",";
    o += "\"violations\":[";
    for(size_t i = 0; i < violations.size(); ++i) {
        auto &v = violations[i];
        o += string(i ? "," : "") + "{\"kind\":" + jstr(v.kind) + ",\"label\":" + jstr(v.label) + ",\"where\":" +
             jstr(v.where) + ",\"input\":" + jarr(v.input) + ",\"widths\":" + jarr(v.widths) + ",\"names\":" +
             jsarr(v.names) + ",\"obs\":" + jarr(v.obs) + "}";
    }
    o += "],\"samples\":[";
    for(size_t i = 0; i < samples.size(); ++i) {
        auto &v = samples[i];
        o += string(i ? "," : "") + "{\"input\":" + jarr(v.input) + ",\"widths\":" + jarr(v.widths) + ",\"names\":" +
             jsarr(v.names) + ",\"obs\":" + jarr(v.obs) + "}";
    }
    o += "]}";
    return o;
}

static double t_start;
static void worker(int fd) {

    solver.init();
    rng_state ^= (u64)opt_seed * 0x9E3779B97F4A7C15ull + getpid();
    for(;;) {
        send_msg(fd, 'R', "");
        char t;
        string s;
        if(!recv_msg(fd, t, s) || t == 'Q') break;
        worklist.clear();
        worklist.push_back(des_alt(s));
        while(!worklist.empty()) {
            if(shared->stop.load() || now() - t_start > opt_time) break;
            Alt a = std::move(worklist.back());
            worklist.pop_back();
            run_path(a);
            shared->paths++;
            if(shared->hungry.load() > 0 && worklist.size() > 1) {
                // donate the shallowest half
                size_t k = worklist.size() / 2;
                if(k > 16) k = 16;
                for(size_t i = 0; i < k; ++i) send_msg(fd, 'W', ser_alt(worklist[i]));
                worklist.erase(worklist.begin(), worklist.begin() + k);
            }
        }
        if(!worklist.empty()) {
            send_msg(fd, 'P', std::to_string(worklist.size()));
            worklist.clear();
        }
    }
    send_msg(fd, 'J', result_json(0));
    close(fd);
    _exit(0);
}

#include <sys/prctl.h>
#include <sys/socket.h>
static int real_main() {
    // arenas
    auto mm = [](size_t n) {
        void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(p == MAP_FAILED) {
            perror("mmap");
            exit(3);
        }
        return p;
    };
    arena = (uint8_t *)mm(ARENA);
    shadow = (Expr **)mm(ARENA * sizeof(Expr *));
    gran = (u32 *)mm((ARENA >> 4) * 4);
    regstack = (V *)mm(REGSTACK * sizeof(V) + 65536);
    frames.reserve(1024);

    Ctx = new LLVMContext;
    SMDiagnostic err;
    auto mod = parseIRFile(opt_bc, err, *Ctx);
    if(!mod) {
        err.print("symx", errs());
        return 3;
    }
    M = mod.release();
    DL = &M->getDataLayout();
    heap_top = HEAP_OFF;
    stack_top = STACK_OFF;
    regtop = regstack;
    try {
        setup_globals();
        entryF = M->getFunction(opt_entry);
        if(!entryF || entryF->isDeclaration()) {
            fprintf(stderr, "no entry %s\n", opt_entry.c_str());
            return 3;
        }
        solver.init();
        in_static_init = true;
        have_model = true;
        if(auto *gc = M->getNamedGlobal("llvm.global_ctors")) {
            if(auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
                for(auto &op : ca->operands())
                    if(auto *f = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts()))
                        run_function(f);
        }
        in_static_init = false;
        // objects allocated by static constructors become static
        n_static_objs = objs.size();
        if(heap_top != HEAP_OFF) engine_error("heap allocation in static constructors is not supported");
        for(u32 i = 1; i < objs.size(); ++i) {
            Obj &o = objs[i];
            if(o.kind == OK_GLOBAL) {
                vector<uint8_t> d(arena + (o.base - BASE), arena + (o.base - BASE) + o.size);
                snapshots.push_back({i, d});
                o.dirty = false;
            }
        }
        solver.destroy();
        // decode everything reachable lazily
    } catch(EngineError &e) {
        fprintf(stderr, "symx: %s\n", e.msg.c_str());
        return 3;
    } catch(PathEnd &) {
        fprintf(stderr, "symx: static initialisation failed\n");
        return 3;
    }

    shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new(shared) Shared;
    shared->hungry = 0;
    shared->paths = 0;
    shared->stop = 0;
    shared->first_viol = 0;
    t_start = now();
    int J = opt_jobs;
    vector<int> fds(J);
    vector<pid_t> pids(J);
    for(int i = 0; i < J; ++i) {
        int sv[2];
        if(socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return 3;
        pid_t p = fork();
        if(p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            for(int k = 0; k < i; ++k) close(fds[k]);
            close(sv[0]);
            try {
                worker(sv[1]);
            } catch(EngineError &e) {
                fprintf(stderr, "symx worker: %s\n", e.msg.c_str());
            }
            _exit(3);
        }
        close(sv[1]);
        fds[i] = sv[0];
        pids[i] = p;
    }
    std::deque<string> queue;
    {
        Alt a;
        a.has_model = true;
        queue.push_back(ser_alt(a));
    }
    vector<bool> idle(J, false), done(J, false);
    vector<string> results;
    u64 pending = 0;
    int crashed = 0;
    bool quitting = false;
    for(;;) {
        int nidle = 0, ndone = 0;
        for(int i = 0; i < J; ++i) nidle += idle[i] && !done[i], ndone += done[i];
        double fv = shared->first_viol.load();
        bool timeup = now() - t_start > opt_time || (fv > 0 && now() - fv > opt_afterviol);
        if(timeup || shared->paths.load() > opt_maxpaths) {
            if(!quitting) {
                pending += queue.size();
                queue.clear();
            }
            shared->stop = 1;
            quitting = true;
        }
        for(int i = 0; i < J && !queue.empty(); ++i)
            if(idle[i] && !done[i]) {
                send_msg(fds[i], 'T', queue.front());
                queue.pop_front();
                idle[i] = false;
                nidle--;
            }
        if(queue.empty() && nidle + ndone == J) {
            for(int i = 0; i < J; ++i)
                if(!done[i] && idle[i]) {
                    send_msg(fds[i], 'Q', "");
                    idle[i] = false;
                }
            if(ndone == J) break;
        }
        shared->hungry = queue.size() < 4 ? nidle : 0;
        vector<pollfd> pf;
        vector<int> ix;
        for(int i = 0; i < J; ++i)
            if(!done[i]) {
                pf.push_back({fds[i], POLLIN, 0});
                ix.push_back(i);
            }
        if(pf.empty()) break;
        int r = poll(pf.data(), pf.size(), 200);
        if(r <= 0) {
            if(now() - t_start > opt_time + 90) { // hard stop
                for(int i = 0; i < J; ++i)
                    if(!done[i]) kill(pids[i], SIGKILL);
            }
            continue;
        }
        for(size_t k = 0; k < pf.size(); ++k)
            if(pf[k].revents) {
                int i = ix[k];
                char t;
                string s;
                if(!recv_msg(fds[i], t, s)) {
                    if(!done[i]) crashed++;
                    done[i] = true;
                    continue;
                }
                if(t == 'R') idle[i] = true;
                else if(t == 'W') {
                    if(quitting) pending++;
                    else queue.push_back(s);
                } else if(t == 'P') pending += atoll(s.c_str());
                else if(t == 'J') {
                    results.push_back(s);
                    done[i] = true;
                }
            }
    }
    for(int i = 0; i < J; ++i) waitpid(pids[i], nullptr, 0);
    FILE *f = opt_out.empty() ? stdout : fopen(opt_out.c_str(), "w");
    fprintf(f, "{\"entry\":%s,\"wall\":%.3f,\"crashed\":%d,\"pending\":%llu,\"timeup\":%s,\"z3\":%s,\"workers\":[",
            jstr(opt_entry).c_str(), now() - t_start, crashed, (unsigned long long)pending,
            quitting ? "true" : "false", jstr(Z3_get_full_version()).c_str());
    for(size_t i = 0; i < results.size(); ++i) fprintf(f, "%s%s", i ? "," : "", results[i].c_str());
    fprintf(f, "]}\n");
    if(f != stdout) fclose(f);
    return crashed ? 4 : 0;
}

int main(int argc, char **argv) {
    for(int i = 1; i < argc; ++i) {
        string a = argv[i];
        auto nx = [&]() -> string { return i + 1 < argc ? argv[++i] : ""; };
        if(a == "--entry") opt_entry = nx();
        else if(a == "--out") opt_out = nx();
        else if(a == "--jobs") opt_jobs = stoi(nx());
        else if(a == "--time") opt_time = stod(nx());
        else if(a == "--steps") opt_maxsteps = stoull(nx());
        else if(a == "--qtimeout") opt_qtimeout = stoi(nx());
        else if(a == "--maxpaths") opt_maxpaths = stoull(nx());
        else if(a == "--samples") opt_samples = stoi(nx());
        else if(a == "--seed") opt_seed = stoi(nx());
        else if(a == "--logic") opt_tactic = nx();
        else if(a == "--no-ite-loads") opt_ite_loads = false;
        else if(a == "--known") opt_known.insert(nx());
        else if(a == "--afterviol") opt_afterviol = stod(nx());
        else if(a == "--intervals") opt_intervals = true;
        else if(a == "-v") opt_verbose = true;
        else opt_bc = a;
    }
    // deep expression recursion: run on a large stack
    static int rc;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1ull << 30);
    pthread_t th;
    pthread_create(&th, &at, [](void *) -> void * {
        rc = real_main();
        return nullptr;
    }, nullptr);
    pthread_join(th, nullptr);
    fflush(nullptr);
    _exit(rc);
}
