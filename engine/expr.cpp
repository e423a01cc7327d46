#include "expr.h"
ExprPool pool;
u32 eval_epoch = 1;

Expr *mkc(u64 v, unsigned w) {
    if(w > 64) {
        // wide constants are concatenations of 64-bit pieces
        return pool.mk(E_CONCAT, w, 0, mkc(0, w - 64), mkc(v, 64), nullptr);
    }
    return pool.mk(E_CONST, w, v & mask_w(w), nullptr, nullptr, nullptr);
}
Expr *mkvar(u64 idx, unsigned w) { return pool.mk(E_VAR, w, idx, nullptr, nullptr, nullptr); }

static u64 fp_to_bits(double d) { u64 r; memcpy(&r, &d, 8); return r; }
static double bits_to_fp(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static u64 fp_to_bits32(float d) { u32 r; memcpy(&r, &d, 4); return r; }
static float bits_to_fp32(u64 b) { u32 x = (u32)b; float d; memcpy(&d, &x, 4); return d; }

u64 fold_fp(EOp op, unsigned w, u64 a, u64 b, unsigned aw) {
    if(aw == 64 || op == E_SI2F || op == E_UI2F) {
        double x = bits_to_fp(a), y = bits_to_fp(b);
        switch(op) {
        case E_FLT: return x < y;
        case E_FLE: return x <= y;
        case E_FEQ: return x == y;
        case E_FUNO: return x != x || y != y;
        case E_FADD: return fp_to_bits(x + y);
        case E_FSUB: return fp_to_bits(x - y);
        case E_FMUL: return fp_to_bits(x * y);
        case E_FDIV: return fp_to_bits(x / y);
        case E_SI2F: return w == 64 ? fp_to_bits((double)sext_w(a, aw)) : fp_to_bits32((float)sext_w(a, aw));
        case E_UI2F: return w == 64 ? fp_to_bits((double)a) : fp_to_bits32((float)a);
        case E_F2SI: return (x > -9.3e18 && x < 9.2e18) ? ((u64)(i64)x & mask_w(w)) : 0;
        case E_F2UI: return (x > -1 && x < 1.8e19) ? ((u64)x & mask_w(w)) : 0;
        case E_FPTRUNC: return fp_to_bits32((float)x);
        default: break;
        }
    } else {
        float x = bits_to_fp32(a), y = bits_to_fp32(b);
        switch(op) {
        case E_FLT: return x < y;
        case E_FLE: return x <= y;
        case E_FEQ: return x == y;
        case E_FUNO: return x != x || y != y;
        case E_FADD: return fp_to_bits32(x + y);
        case E_FSUB: return fp_to_bits32(x - y);
        case E_FMUL: return fp_to_bits32(x * y);
        case E_FDIV: return fp_to_bits32(x / y);
        case E_F2SI: return (x > -9.3e18 && x < 9.2e18) ? ((u64)(i64)x & mask_w(w)) : 0;
        case E_F2UI: return (x > -1 && x < 1.8e19) ? ((u64)x & mask_w(w)) : 0;
        case E_FPEXT: return fp_to_bits((double)x);
        default: break;
        }
    }
    engine_error("fold_fp");
}

static u64 fold2(EOp op, unsigned w, unsigned aw, u64 a, u64 b) {
    // w: result width, aw: operand width
    u64 m = mask_w(w);
    switch(op) {
    case E_ADD: return (a + b) & m;
    case E_SUB: return (a - b) & m;
    case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? a / b : m;
    case E_UREM: return b ? a % b : a;
    case E_SDIV: {
        i64 x = sext_w(a, w), y = sext_w(b, w);
        if(y == 0) return x >= 0 ? m : 1;
        if(y == -1) return (0 - a) & m;
        return (u64)(x / y) & m;
    }
    case E_SREM: {
        i64 x = sext_w(a, w), y = sext_w(b, w);
        if(y == 0) return a;
        if(y == -1) return 0;
        return (u64)(x % y) & m;
    }
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << b) & m;
    case E_LSHR: return b >= w ? 0 : a >> b;
    case E_ASHR: return (u64)(sext_w(a, w) >> (b >= w ? (w - 1 > 63 ? 63 : w - 1) : b)) & m;
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_ULE: return a <= b;
    case E_SLT: return sext_w(a, aw) < sext_w(b, aw);
    case E_SLE: return sext_w(a, aw) <= sext_w(b, aw);
    default: return fold_fp(op, w, a, b, aw);
    }
}

Expr *mknot(Expr *a) {
    if(isc(a)) return mkc(!a->val, 1);
    if(a->op == E_XOR && isc(a->b)) return a->a;
    if(a->op == E_ULT) return mkop(E_ULE, 1, a->b, a->a);
    if(a->op == E_ULE) return mkop(E_ULT, 1, a->b, a->a);
    if(a->op == E_SLT) return mkop(E_SLE, 1, a->b, a->a);
    if(a->op == E_SLE) return mkop(E_SLT, 1, a->b, a->a);
    return pool.mk(E_XOR, 1, 0, a, mkc(1, 1), nullptr);
}

Expr *mkextract(Expr *a, unsigned lo, unsigned w) {
    if(lo == 0 && w == a->w) return a;
    switch(a->op) {
    case E_CONST: return mkc(a->val >> lo, w);
    case E_EXTRACT: return mkextract(a->a, lo + a->val, w);
    case E_CONCAT: {
        unsigned lw = a->b->w;
        if(lo + w <= lw) return mkextract(a->b, lo, w);
        if(lo >= lw) return mkextract(a->a, lo - lw, w);
        return mkconcat(mkextract(a->a, 0, lo + w - lw), mkextract(a->b, lo, lw - lo));
    }
    case E_ZEXT: {
        unsigned iw = a->a->w;
        if(lo >= iw) return mkc(0, w);
        if(lo + w <= iw) return mkextract(a->a, lo, w);
        return mkzext(mkextract(a->a, lo, iw - lo), w);
    }
    case E_SEXT: {
        unsigned iw = a->a->w;
        if(lo + w <= iw) return mkextract(a->a, lo, w);
        if(lo == 0) return mksext(a->a, w);
        break;
    }
    case E_ITE:
        if(isc(a->b) || isc(a->c)) return mkite(a->a, mkextract(a->b, lo, w), mkextract(a->c, lo, w));
        break;
    case E_AND: case E_OR: case E_XOR:
        return mkop(a->op, w, mkextract(a->a, lo, w), mkextract(a->b, lo, w));
    case E_ADD: case E_SUB: case E_MUL:
        if(lo == 0) return mkop(a->op, w, mkextract(a->a, 0, w), mkextract(a->b, 0, w));
        break;
    default: break;
    }
    return pool.mk(E_EXTRACT, w, lo, a, nullptr, nullptr);
}
Expr *mkconcat(Expr *hi, Expr *lo) {
    unsigned w = hi->w + lo->w;
    if(isc(hi) && isc(lo) && w <= 64) return mkc((hi->val << lo->w) | lo->val, w);
    if(isc(hi) && hi->val == 0) return mkzext(lo, w);
    if(hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && lo->val + lo->w == hi->val)
        return mkextract(hi->a, lo->val, w);
    if(hi->op == E_EXTRACT && hi->a == lo && hi->val == lo->w) { /* unlikely */ }
    return pool.mk(E_CONCAT, w, 0, hi, lo, nullptr);
}
Expr *mkzext(Expr *a, unsigned w) {
    if(w == a->w) return a;
    if(isc(a)) return w > 64 ? pool.mk(E_ZEXT, w, 0, a, nullptr, nullptr) : mkc(a->val, w);
    if(a->op == E_ZEXT) return mkzext(a->a, w);
    if(a->op == E_ITE && isc(a->b) && isc(a->c) && w <= 64)
        return mkite(a->a, mkc(a->b->val, w), mkc(a->c->val, w));
    return pool.mk(E_ZEXT, w, 0, a, nullptr, nullptr);
}
Expr *mksext(Expr *a, unsigned w) {
    if(w == a->w) return a;
    if(isc(a) && w <= 64) return mkc((u64)sext_w(a->val, a->w), w);
    if(a->op == E_SEXT) return mksext(a->a, w);
    if(a->op == E_ZEXT) return mkzext(a->a, w);
    if(a->op == E_ITE && isc(a->b) && isc(a->c) && w <= 64)
        return mkite(a->a, mksext(a->b, w), mksext(a->c, w));
    return pool.mk(E_SEXT, w, 0, a, nullptr, nullptr);
}
Expr *mkite(Expr *c, Expr *a, Expr *b) {
    if(isc(c)) return c->val ? a : b;
    if(a == b) return a;
    if(a->w == 1) {
        if(isc(a) && isc(b)) return a->val ? c : mknot(c);
        if(isc(a)) return a->val ? mkop(E_OR, 1, c, b) : mkop(E_AND, 1, mknot(c), b);
        if(isc(b)) return b->val ? mkop(E_OR, 1, mknot(c), a) : mkop(E_AND, 1, c, a);
    }
    if(c->op == E_XOR && c->w == 1 && isc(c->b)) return mkite(c->a, b, a);
    if(a->op == E_ITE && a->a == c) a = a->b;
    if(b->op == E_ITE && b->a == c) b = b->c;
    if(a == b) return a;
    return pool.mk(E_ITE, a->w, 0, c, a, b);
}

static bool commut(EOp op) {
    return op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ || op == E_FEQ ||
           op == E_FUNO;
}

Expr *mkop(EOp op, unsigned w, Expr *a, Expr *b, Expr *c, u64 val) {
    if(op == E_ITE) return mkite(a, b, c);
    if(op == E_ZEXT) return mkzext(a, w);
    if(op == E_SEXT) return mksext(a, w);
    if(op == E_EXTRACT) return mkextract(a, val, w);
    if(op == E_CONCAT) return mkconcat(a, b);
    bool wide = w > 64 || a->w > 64;
    if(wide) return pool.mk(op, w, val, a, b, c);
    if(isc(a) && (!b || isc(b))) return mkc(fold2(op, w, a->w, a->val, b ? b->val : 0), w);
    if(b && commut(op)) {
        // constants to the right; otherwise order by id
        if(isc(a) || (!isc(b) && a->id > b->id)) std::swap(a, b);
    }
    u64 m = mask_w(a->w);
    switch(op) {
    case E_ADD:
        if(isc(b)) {
            if(b->val == 0) return a;
            if(a->op == E_ADD && isc(a->b)) return mkop(E_ADD, w, a->a, mkc(a->b->val + b->val, w));
            if(a->op == E_ITE && isc(a->b) && isc(a->c))
                return mkite(a->a, mkop(E_ADD, w, a->b, b), mkop(E_ADD, w, a->c, b));
        } else {
            if(a->op == E_ADD && isc(a->b)) return mkop(E_ADD, w, mkop(E_ADD, w, a->a, b), a->b);
            if(b->op == E_ADD && isc(b->b)) return mkop(E_ADD, w, mkop(E_ADD, w, b->a, a), b->b);
        }
        break;
    case E_SUB:
        if(a == b) return mkc(0, w);
        if(isc(b)) return mkop(E_ADD, w, a, mkc(0 - b->val, w));
        if(a->op == E_ADD && isc(a->b)) {
            if(a->a == b) return a->b;
            return mkop(E_ADD, w, mkop(E_SUB, w, a->a, b), a->b);
        }
        break;
    case E_MUL:
        if(isc(b)) {
            if(b->val == 0) return b;
            if(b->val == 1) return a;
            if((b->val & (b->val - 1)) == 0) return mkop(E_SHL, w, a, mkc(__builtin_ctzll(b->val), w));
        }
        break;
    case E_UDIV:
        if(isc(b)) {
            if(b->val == 1) return a;
            if(b->val && (b->val & (b->val - 1)) == 0) return mkop(E_LSHR, w, a, mkc(__builtin_ctzll(b->val), w));
        }
        break;
    case E_UREM:
        if(isc(b) && b->val && (b->val & (b->val - 1)) == 0) return mkop(E_AND, w, a, mkc(b->val - 1, w));
        break;
    case E_AND:
        if(a == b) return a;
        if(isc(b)) {
            if(b->val == 0) return b;
            if(b->val == m) return a;
            if(a->op == E_ZEXT && a->a->w <= 64) {
                u64 im = mask_w(a->a->w);
                if((b->val & im) == im) return a;
                return mkzext(mkop(E_AND, a->a->w, a->a, mkc(b->val & im, a->a->w)), w);
            }
            if(a->op == E_AND && isc(a->b)) return mkop(E_AND, w, a->a, mkc(a->b->val & b->val, w));
            // low mask
            if(((b->val + 1) & b->val) == 0 && w > 1) {
                unsigned k = __builtin_popcountll(b->val);
                return mkzext(mkextract(a, 0, k), w);
            }
            if(a->op == E_ITE && isc(a->b) && isc(a->c))
                return mkite(a->a, mkop(E_AND, w, a->b, b), mkop(E_AND, w, a->c, b));
        }
        if(w == 1 && (a == mknot(b))) return mkc(0, 1);
        break;
    case E_OR:
        if(a == b) return a;
        if(isc(b)) {
            if(b->val == 0) return a;
            if(b->val == m) return b;
        }
        if(w == 1 && (a == mknot(b))) return mkc(1, 1);
        break;
    case E_XOR:
        if(a == b) return mkc(0, w);
        if(isc(b)) {
            if(b->val == 0) return a;
            if(w == 1) return mknot(a);
            if(a->op == E_XOR && isc(a->b)) return mkop(E_XOR, w, a->a, mkc(a->b->val ^ b->val, w));
        }
        break;
    case E_SHL:
        if(isc(b)) {
            if(b->val == 0) return a;
            if(b->val >= w) return mkc(0, w);
            return mkconcat(mkextract(a, 0, w - b->val), mkc(0, b->val));
        }
        break;
    case E_LSHR:
        if(isc(b)) {
            if(b->val == 0) return a;
            if(b->val >= w) return mkc(0, w);
            return mkzext(mkextract(a, b->val, w - b->val), w);
        }
        break;
    case E_ASHR:
        if(isc(b)) {
            if(b->val == 0) return a;
            u64 s = b->val >= w ? w - 1 : b->val;
            return mksext(mkextract(a, s, w - s), w);
        }
        break;
    case E_EQ:
        if(a == b) return mkc(1, 1);
        if(isc(b)) {
            if(a->w == 1) return b->val ? a : mknot(a);
            if(a->op == E_ZEXT && a->a->w <= 64) {
                if(b->val & ~mask_w(a->a->w)) return mkc(0, 1);
                return mkop(E_EQ, 1, a->a, mkc(b->val, a->a->w));
            }
            if(a->op == E_SEXT) {
                unsigned iw = a->a->w;
                u64 t = b->val & mask_w(iw);
                if(((u64)sext_w(t, iw) & m) != b->val) return mkc(0, 1);
                return mkop(E_EQ, 1, a->a, mkc(t, iw));
            }
            if(a->op == E_CONCAT && isc(a->b) && a->w <= 64) {
                if((b->val & mask_w(a->b->w)) != a->b->val) return mkc(0, 1);
                return mkop(E_EQ, 1, a->a, mkc(b->val >> a->b->w, a->a->w));
            }
            if(a->op == E_CONCAT && a->w <= 64)
                return mkop(E_AND, 1, mkop(E_EQ, 1, a->a, mkc(b->val >> a->b->w, a->a->w)),
                            mkop(E_EQ, 1, a->b, mkc(b->val, a->b->w)));
            if(a->op == E_ADD && isc(a->b)) return mkop(E_EQ, 1, a->a, mkc(b->val - a->b->val, a->w));
            if(a->op == E_XOR && isc(a->b)) return mkop(E_EQ, 1, a->a, mkc(b->val ^ a->b->val, a->w));
            if(a->op == E_ITE) {
                if(isc(a->b) && isc(a->c)) {
                    bool x = a->b->val == b->val, y = a->c->val == b->val;
                    if(x && y) return mkc(1, 1);
                    if(x) return a->a;
                    if(y) return mknot(a->a);
                    return mkc(0, 1);
                }
                if(isc(a->b) || isc(a->c))
                    return mkite(a->a, mkop(E_EQ, 1, a->b, b), mkop(E_EQ, 1, a->c, b));
            }
        } else {
            if(a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkop(E_EQ, 1, a->a, b->a);
            if(a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return mkop(E_EQ, 1, a->a, b->a);
        }
        break;
    case E_ULT:
        if(a == b) return mkc(0, 1);
        if(isc(b)) {
            if(b->val == 0) return mkc(0, 1);
            if(b->val == 1) return mkop(E_EQ, 1, a, mkc(0, a->w));
        }
        if(isc(a) && a->val == m) return mkc(0, 1);
        if(isc(a) && a->val == 0) return mknot(mkop(E_EQ, 1, b, mkc(0, b->w)));
        goto cmpz;
    case E_ULE:
        if(a == b) return mkc(1, 1);
        if(isc(a) && a->val == 0) return mkc(1, 1);
        if(isc(b) && b->val == m) return mkc(1, 1);
        if(isc(b) && b->val == 0) return mkop(E_EQ, 1, a, b);
    cmpz:
        if(a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkop(op, 1, a->a, b->a);
        if(a->op == E_ZEXT && isc(b) && a->a->w < 64) {
            u64 im = mask_w(a->a->w);
            if(b->val > im) return mkc(1, 1);
            return mkop(op, 1, a->a, mkc(b->val, a->a->w));
        }
        if(b->op == E_ZEXT && isc(a) && b->a->w < 64) {
            u64 im = mask_w(b->a->w);
            if(a->val > im) return mkc(0, 1);
            return mkop(op, 1, mkc(a->val, b->a->w), b->a);
        }
        if(isc(b) && a->op == E_ITE && isc(a->b) && isc(a->c))
            return mkite(a->a, mkop(op, 1, a->b, b), mkop(op, 1, a->c, b));
        if(isc(a) && b->op == E_ITE && isc(b->b) && isc(b->c))
            return mkite(b->a, mkop(op, 1, a, b->b), mkop(op, 1, a, b->c));
        break;
    case E_SLT:
    case E_SLE:
        if(a == b) return mkc(op == E_SLE, 1);
        // zero-extended operands have a clear sign bit
        {
            bool az = a->op == E_ZEXT || (isc(a) && sext_w(a->val, a->w) >= 0);
            bool bz = b->op == E_ZEXT || (isc(b) && sext_w(b->val, b->w) >= 0);
            if(az && bz) return mkop(op == E_SLT ? E_ULT : E_ULE, 1, a, b);
            if(az && isc(b)) return mkc(0, 1); // nonneg < negative
            if(bz && isc(a)) return mkc(1, 1);
            if(a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return mkop(op, 1, a->a, b->a);
            if(a->op == E_SEXT && isc(b)) {
                unsigned iw = a->a->w;
                i64 bv = sext_w(b->val, b->w), lo = -(1ll << (iw - 1)), hi = (1ll << (iw - 1)) - 1;
                if(bv > hi) return mkc(1, 1);
                if(bv < lo) return mkc(0, 1);
                return mkop(op, 1, a->a, mkc((u64)bv, iw));
            }
            if(b->op == E_SEXT && isc(a)) {
                unsigned iw = b->a->w;
                i64 av = sext_w(a->val, a->w), lo = -(1ll << (iw - 1)), hi = (1ll << (iw - 1)) - 1;
                if(av > hi) return mkc(0, 1);
                if(av < lo) return mkc(1, 1);
                return mkop(op, 1, mkc((u64)av, iw), b->a);
            }
        }
        if(isc(b) && a->op == E_ITE && isc(a->b) && isc(a->c))
            return mkite(a->a, mkop(op, 1, a->b, b), mkop(op, 1, a->c, b));
        if(isc(a) && b->op == E_ITE && isc(b->b) && isc(b->c))
            return mkite(b->a, mkop(op, 1, a, b->b), mkop(op, 1, a, b->c));
        break;
    default: break;
    }
    return pool.mk(op, w, val, a, b, c);
}

typedef unsigned __int128 u128;
static u128 eval_wide(Expr *e, const Model &m) {
    if(e->w <= 64) return eval_expr(e, m);
    u128 msk = e->w >= 128 ? ~(u128)0 : (((u128)1 << e->w) - 1);
    switch(e->op) {
    case E_CONCAT: return ((eval_wide(e->a, m) << e->b->w) | eval_wide(e->b, m)) & msk;
    case E_ZEXT: return eval_wide(e->a, m);
    case E_SEXT: {
        u128 v = eval_wide(e->a, m);
        unsigned iw = e->a->w;
        if((v >> (iw - 1)) & 1) v |= ~(((u128)1 << iw) - 1);
        return v & msk;
    }
    case E_EXTRACT: return (eval_wide(e->a, m) >> e->val) & msk;
    case E_ADD: return (eval_wide(e->a, m) + eval_wide(e->b, m)) & msk;
    case E_SUB: return (eval_wide(e->a, m) - eval_wide(e->b, m)) & msk;
    case E_MUL: return (eval_wide(e->a, m) * eval_wide(e->b, m)) & msk;
    case E_AND: return eval_wide(e->a, m) & eval_wide(e->b, m);
    case E_OR: return eval_wide(e->a, m) | eval_wide(e->b, m);
    case E_XOR: return eval_wide(e->a, m) ^ eval_wide(e->b, m);
    case E_ITE: return eval_wide(e->a, m) ? eval_wide(e->b, m) : eval_wide(e->c, m);
    case E_SHL: { u128 s = eval_wide(e->b, m); return s >= e->w ? 0 : (eval_wide(e->a, m) << s) & msk; }
    case E_LSHR: { u128 s = eval_wide(e->b, m); return s >= e->w ? 0 : (eval_wide(e->a, m) >> s) & msk; }
    default: engine_error("eval_wide op");
    }
}

u64 eval_expr(Expr *e, const Model &m) {
    if(e->op == E_CONST) return e->val;
    if(e->ev_epoch == eval_epoch) return e->ev;
    u64 r;
    switch(e->op) {
    case E_VAR: r = e->val < m.v.size() ? m.v[e->val] & mask_w(e->w) : 0; break;
    case E_CONCAT:
        r = (u64)((eval_wide(e->a, m) << e->b->w) | eval_wide(e->b, m));
        break;
    case E_EXTRACT: r = (u64)(eval_wide(e->a, m) >> e->val) & mask_w(e->w); break;
    case E_ZEXT: r = eval_expr(e->a, m); break;
    case E_SEXT: r = (u64)sext_w(eval_expr(e->a, m), e->a->w) & mask_w(e->w); break;
    case E_ITE: r = eval_expr(e->a, m) ? eval_expr(e->b, m) : eval_expr(e->c, m); break;
    case E_EQ:
        if(e->a->w > 64) { r = eval_wide(e->a, m) == eval_wide(e->b, m); break; }
        r = eval_expr(e->a, m) == eval_expr(e->b, m);
        break;
    case E_ULT:
        if(e->a->w > 64) { r = eval_wide(e->a, m) < eval_wide(e->b, m); break; }
        r = eval_expr(e->a, m) < eval_expr(e->b, m);
        break;
    default: {
        if(e->a->w > 64) engine_error("eval wide cmp");
        u64 x = eval_expr(e->a, m), y = e->b ? eval_expr(e->b, m) : 0;
        r = fold2(e->op, e->w, e->a->w, x, y);
    }
    }
    e->ev_epoch = eval_epoch;
    e->ev = r;
    return r;
}

static const char *opn[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor",
                            "shl", "lshr", "ashr", "concat", "extract", "zext", "sext", "ite", "eq", "ult", "ule",
                            "slt", "sle", "flt", "fle", "feq", "funo", "fadd", "fsub", "fmul", "fdiv", "si2f", "ui2f",
                            "f2si", "f2ui", "fpext", "fptrunc"};
std::string expr_str(Expr *e, int d) {
    if(!e) return "";
    char b[64];
    if(e->op == E_CONST) { snprintf(b, 64, "%llu:%u", (unsigned long long)e->val, e->w); return b; }
    if(e->op == E_VAR) { snprintf(b, 64, "v%llu:%u", (unsigned long long)e->val, e->w); return b; }
    if(d == 0) return "...";
    std::string s = std::string("(") + opn[e->op];
    if(e->op == E_EXTRACT) { snprintf(b, 64, "[%llu+%u]", (unsigned long long)e->val, e->w); s += b; }
    for(Expr *k : {e->a, e->b, e->c})
        if(k) s += " " + expr_str(k, d - 1);
    return s + ")";
}
