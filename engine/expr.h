// Expression DAG (hash-consed bit-vector terms), concrete evaluation and Z3 translation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;

enum EOp : uint8_t {
    E_CONST, E_VAR,
    E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
    E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
    E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_ITE,
    E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
    // floating point (operands are bit patterns of width 32/64)
    E_FLT, E_FLE, E_FEQ, E_FUNO, E_FADD, E_FSUB, E_FMUL, E_FDIV,
    E_SI2F, E_UI2F, E_F2SI, E_F2UI, E_FPEXT, E_FPTRUNC,
};

struct Expr {
    EOp op;
    uint16_t w;
    u32 id;
    u64 val; // constant value / variable index / extract low bit
    Expr *a, *b, *c;
    Expr *next; // hash chain
    Z3_ast z, zb;
    // evaluation cache
    u32 ev_epoch;
    u64 ev;
};

static inline u64 mask_w(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sext_w(u64 v, unsigned w) {
    if(w >= 64) return (i64)v;
    return (i64)(v << (64 - w)) >> (64 - w);
}

struct EngineError { std::string msg; };
[[noreturn]] void engine_error(const std::string &m);

struct ExprPool {
    std::vector<Expr *> table;
    size_t count = 0;
    std::vector<Expr *> slabs;
    size_t slab_used = 0;
    static const size_t SLAB = 1 << 14;
    u32 next_id = 1;

    ExprPool() { table.assign(1 << 16, nullptr); }

    Expr *alloc() {
        if(slabs.empty() || slab_used == SLAB) {
            slabs.push_back((Expr *)malloc(sizeof(Expr) * SLAB));
            slab_used = 0;
        }
        return &slabs.back()[slab_used++];
    }
    void clear() {
        for(auto s : slabs) free(s);
        slabs.clear();
        slab_used = 0;
        count = 0;
        table.assign(1 << 16, nullptr);
        next_id = 1;
    }
    static u64 hsh(EOp op, unsigned w, u64 val, Expr *a, Expr *b, Expr *c) {
        u64 h = op * 0x9E3779B97F4A7C15ull + w * 0xC2B2AE3D27D4EB4Full + val * 0x165667B19E3779F9ull;
        h ^= (u64)(a ? a->id : 0) * 0xff51afd7ed558ccdull;
        h = (h << 23) | (h >> 41);
        h ^= (u64)(b ? b->id : 0) * 0xc4ceb9fe1a85ec53ull;
        h = (h << 23) | (h >> 41);
        h ^= (u64)(c ? c->id : 0) * 0x2545F4914F6CDD1Dull;
        h ^= h >> 29;
        return h;
    }
    Expr *mk(EOp op, unsigned w, u64 val, Expr *a, Expr *b, Expr *c) {
        u64 h = hsh(op, w, val, a, b, c);
        size_t i = h & (table.size() - 1);
        for(Expr *e = table[i]; e; e = e->next)
            if(e->op == op && e->w == w && e->val == val && e->a == a && e->b == b && e->c == c)
                return e;
        Expr *e = alloc();
        e->op = op; e->w = w; e->val = val; e->a = a; e->b = b; e->c = c;
        e->id = next_id++; e->z = e->zb = nullptr; e->ev_epoch = 0; e->ev = 0;
        e->next = table[i];
        table[i] = e;
        if(++count > table.size() * 2) rehash();
        return e;
    }
    void rehash() {
        std::vector<Expr *> old;
        old.swap(table);
        table.assign(old.size() * 4, nullptr);
        for(Expr *e : old)
            while(e) {
                Expr *n = e->next;
                size_t i = hsh(e->op, e->w, e->val, e->a, e->b, e->c) & (table.size() - 1);
                e->next = table[i];
                table[i] = e;
                e = n;
            }
    }
};
extern ExprPool pool;

Expr *mkc(u64 v, unsigned w);
Expr *mkvar(u64 idx, unsigned w);
Expr *mkop(EOp op, unsigned w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, u64 val = 0);
Expr *mkextract(Expr *a, unsigned lo, unsigned w);
Expr *mkconcat(Expr *hi, Expr *lo);
Expr *mkzext(Expr *a, unsigned w);
Expr *mksext(Expr *a, unsigned w);
Expr *mkite(Expr *c, Expr *a, Expr *b);
Expr *mknot(Expr *a); // width 1
static inline bool isc(Expr *e) { return e->op == E_CONST; }
u64 fold_fp(EOp op, unsigned w, u64 a, u64 b, unsigned aw);

// model evaluation
struct Model { std::vector<u64> v; };
extern u32 eval_epoch;
u64 eval_expr(Expr *e, const Model &m);

std::string expr_str(Expr *e, int depth = 8);
