// Equivalence with the released epoch.  A scenario is compiled twice, against the reference copy of the epoch
// (/verif/reference) and against the current tree.  The run on the reference records every input it asks for and every
// answer it gets; the run on the current tree is given the same inputs and has to give the same answers.  Where the
// reference itself fails (memory error, abort, assertion), there is no released behaviour and the case ends.
#pragma once
#include <stdlib.h>
#include <string.h>
#include "vx.h"

struct Tape {
    bool second = false;
    size_t nin = 0, pin = 0, nout = 0, pout = 0;
    uint64_t ins[1024], outs[8192];
    const char *what = "";
    uint64_t marks = 0;

    uint64_t sym(const char *name, int bits) {
        if(second) {
            vx_assert(pin < nin, "the same inputs are asked for");
            return ins[pin++];
        }
        return ins[nin++] = vx_sym(name, bits);
    }
    uint64_t pick(const char *name, uint64_t lo, uint64_t hi) {
        if(second) {
            vx_assert(pin < nin, "the same inputs are asked for");
            return ins[pin++];
        }
        return ins[nin++] = vx_pick(name, lo, hi);
    }
    char chr(const char *name) { return (char)sym(name, 8); }
    void out(uint64_t v) {
        if(second) {
            vx_assert(pout < nout, what);
            vx_assert(outs[pout++] == v, what);
            return;
        }
        if(nout == sizeof(outs) / sizeof(*outs)) vx_fail("the tape is full"); // tolerated, and counted
        outs[nout++] = v;
    }
    void out(const char *p, size_t n) {
        out(n);
        for(size_t i = 0; i < n; ++i) out((unsigned char)p[i]);
    }
    void text(const char *p) { out(p, strlen(p)); }
    void mark(int bit) {
        if(second) marks |= 1ull << bit;
    }
};
static Tape t;

// An exact heap block, so that any access outside is seen.
struct Blk {
    char *p;
    size_t n;
    explicit Blk(size_t n_) : p{(char *)malloc(n_ ? n_ : 1)}, n{n_} {}
    Blk(const char *name, size_t n_, bool z = false) : Blk(n_ + z) {
        n = n_;
        for(size_t i = 0; i < n; ++i) {
            p[i] = t.chr(name);
            if(z) vx_assume(p[i] != 0);
        }
        if(z) p[n] = 0;
    }
    Blk(const Blk &) = delete;
    ~Blk() { free(p); }
};
// Some bytes above the largest useful value, so that limits are crossed, and "everything".
static inline size_t position(const char *name, size_t last) {
    size_t k = (size_t)t.pick(name, 0, last + 2);
    return k == last + 2 ? (size_t)-1 : k;
}

static inline void same_as_released(void (*reference)(), void (*current)()) {
    vx_allow_leaks();
    uint64_t a = vx_live_allocs();
    vx_tolerate(true);
    reference();
    vx_tolerate(false);
    uint64_t b = vx_live_allocs();
    t.second = true;
    current();
    uint64_t c = vx_live_allocs();
    t.what = "as many answers as released";
    vx_assert(t.pout == t.nout, t.what);
    vx_assert(t.pin == t.nin, "as many inputs as released");
    vx_assert(c - b <= b - a, "no more memory is lost than in the released epoch");
}
#define EPOCH(name) same_as_released(released::name, current::name)
