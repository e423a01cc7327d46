// Harness interface.  In the symbolic executor these are builtins; for native replay they are
// implemented by native.cpp, which reads the solver's values from a file.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint64_t vx_sym(const char *name, int bits);                    // arbitrary value of that many bits
uint64_t vx_range(const char *name, uint64_t lo, uint64_t hi);  // arbitrary value in [lo, hi]
void vx_assume(bool c);
void vx_assert(bool c, const char *label);
[[noreturn]] void vx_end();                                      // the case ends here, as intended
[[noreturn]] void vx_fail(const char *label);
void vx_reach(const char *label);                               // reachability witness
void vx_observe(const char *label, uint64_t v);                 // compared between encoding and native run
uint64_t vx_live_allocs();
uint64_t vx_heap();                                              // bytes of allocated memory in use
uint64_t vx_work();                                              // instructions (native: basic blocks, with -fsanitize-coverage=trace-pc) so far
void vx_allow_leaks();
void vx_tolerate(bool on);                                       // a failure here ends the case silently (reference code)
uint64_t vx_concretize(uint64_t v);                             // fork over every feasible value
bool vx_fork(bool c);                                           // fork on a condition
uint64_t vx_ite(bool c, uint64_t a, uint64_t b);                // select without forking
int vx_is_engine();
}
#ifndef VX_TIER
#define VX_TIER 0
#endif
// bound in the quick and in the thorough tier
#define QT(q, t) (VX_TIER ? (t) : (q))
#define HARNESS(name) extern "C" __attribute__((noinline, used)) void name()
static inline uint64_t vx_pick(const char *name, uint64_t lo, uint64_t hi) {
    return vx_concretize(vx_range(name, lo, hi));
}
static inline uint8_t vx_u8(const char *n) { return (uint8_t)vx_sym(n, 8); }
static inline uint32_t vx_u32(const char *n) { return (uint32_t)vx_sym(n, 32); }
static inline uint64_t vx_u64(const char *n) { return vx_sym(n, 64); }
#define CHECK(c, label) vx_assert((c), label)
