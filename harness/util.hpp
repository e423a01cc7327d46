// Shared helpers of the harnesses: symbolic buffers of exact size and small reference models.
#pragma once
#include <pystd2026.hpp>
#include "vx.h"
using namespace pystd2026;

// n arbitrary bytes in a heap block of exactly n bytes, so that any access outside is seen.
struct Raw {
    char *p;
    size_t n;
    explicit Raw(size_t n_) : n{n_} { p = (char *)malloc(n ? n : 1); }
    Raw(const char *name, size_t n_, int bits = 8, unsigned base = 0) : Raw(n_) {
        for(size_t i = 0; i < n; ++i) p[i] = (char)(base + vx_sym(name, bits));
    }
    Raw(const Raw &) = delete;
    ~Raw() { free(p); }
    void nonzero() const {
        for(size_t i = 0; i < n; ++i) vx_assume(p[i] != 0);
    }
    const char *end() const { return p + n; }
};

// The same plus a terminator.
struct RawZ {
    char *p;
    size_t n;
    RawZ(const char *name, size_t n_, int bits = 8, unsigned base = 0) : n{n_} {
        p = (char *)malloc(n + 1);
        for(size_t i = 0; i < n; ++i) {
            p[i] = (char)(base + vx_sym(name, bits));
            vx_assume(p[i] != 0);
        }
        p[n] = 0;
    }
    RawZ(const RawZ &) = delete;
    ~RawZ() { free(p); }
};

// Runs f; true when it was refused with a library exception.
template<typename F> bool refused(F &&f) {
    try {
        f();
    } catch(const PyException &) {
        return true;
    }
    return false;
}

// Reference byte sequence with a fixed capacity.
template<size_t CAP> struct Model {
    unsigned char d[CAP];
    size_t n = 0;
    void push(char c) { d[n++] = (unsigned char)c; }
    void insert(size_t at, const char *p, size_t k) {
        for(size_t i = n; i > at; --i) d[i - 1 + k] = d[i - 1];
        for(size_t i = 0; i < k; ++i) d[at + i] = (unsigned char)p[i];
        n += k;
    }
    void erase(size_t from, size_t to) {
        for(size_t i = to; i < n; ++i) d[from + i - to] = d[i];
        n -= to - from;
    }
    void set(const char *p, size_t k) {
        for(size_t i = 0; i < k; ++i) d[i] = (unsigned char)p[i];
        n = k;
    }
};

// Branch-free equality of two byte ranges (one solver query instead of one per byte).
static inline bool same_bytes(const void *a, const void *b, size_t n) {
    const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
    unsigned diff = 0;
    for(size_t i = 0; i < n; ++i) diff |= (unsigned)(x[i] ^ y[i]);
    return diff == 0;
}

static inline bool is_ws(unsigned char c) {
    return c == ' ' || c == '\n' || c == '\t' || c == '\r';
}

// Lengths around powers of two, for long contents that are letters except for a few arbitrary bytes.
static const uint16_t LENGTHS[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 700, 1023, 1024, 1025, 2049};
[[maybe_unused]] static size_t long_length(const char *name = "length") { return LENGTHS[vx_pick(name, 0, sizeof(LENGTHS) / sizeof(LENGTHS[0]) - 1)]; }
[[maybe_unused]] static void letters(char *p, size_t n) {
    for(size_t i = 0; i < n; ++i) p[i] = (char)('a' + i * 7 % 25 + i / 25 % 2);
}
// One of the first two, the middle, and the last two positions.
[[maybe_unused]] static size_t spot(size_t n, const char *name = "spot") {
    const size_t s[] = {0, 1, n / 2, n - 2, n - 1};
    return s[vx_pick(name, 0, 4)];
}
