// C17: sorting algorithms.  C18: stability.
#include "sortutil.hpp"
#include <pystd2026_introsort.hpp>
#include <pystd2026_heapsort.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_shellsort.hpp>
#include <pystd2026_radixsort.hpp>
#include <pystd2026_bucketsort.hpp>
#include <pystd2026_indirect_sort.hpp>

enum { INSERTION, INTRO, HEAP, MERGE, SHELL, INDIRECT, INDIRECT_STABLE, NALGO };
static void run_sort(int algo, Arr<0> &r, bool down) {
    ByKey cmp{down};
    const size_t n = r.n;
    switch(algo) {
    case INSERTION: insertion_sort(r.a, r.a + n, cmp); break;
    case INTRO: introsort(r.a, r.a + n, cmp); break;
    case HEAP: heapsort(r.a, r.a + n, cmp); break;
    case MERGE: mergesort(r.a, r.a + n, cmp); break;
    case SHELL: shell_sort(r.a, r.a + n, cmp); break;
    default: {
        auto v = algo == INDIRECT ? indirect_sort(r.a, r.a + n, cmp) : indirect_stable_sort(r.a, r.a + n, cmp);
        CHECK(v.size() == n, "one index per element");
        bool untouched = true;
        for(size_t i = 0; i < n; ++i) untouched &= r.a[i].id == (int)i && r.a[i].key == keys[i];
        CHECK(untouched, "indirect sorting leaves the elements alone");
        for(size_t i = 0; i < n; ++i) {
            CHECK(v[i] < n, "indices are in range");
            r.a[i].id = (int)v[i];
            r.a[i].key = keys[v[i]];
        }
    }
    }
    CHECK(permutation(r.a, n), "the result is a permutation of the input");
    CHECK(ordered(r.a, n, down), "the result is in order");
    if(algo == INSERTION || algo == MERGE || algo == INDIRECT_STABLE) CHECK(stable(r.a, n), "equal elements keep their order");
}

//@ C17,C18 insertion, intro, heap, merge, shell and both indirect sorts with an ascending or descending comparison: every range of 0 to 5
//@ (6) elements with arbitrary keys [time=100/900]
HARNESS(sort_small) {
    size_t n = vx_pick("n", 0, QT(5, 6));
    int algo = (int)vx_pick("algorithm", 0, NALGO - 1);
    bool down = n == 4 ? vx_pick("descending", 0, 1) : 0;
    arbitrary_keys(n);
    Arr<0> r(n);
    run_sort(algo, r, down);
    vx_reach("sorted");
}

static size_t big_sizes[] = {17, 18, 33, 40, 66, 100, 130, 260};
//@ C17,C18 the same algorithms on 17 to 66 (260) elements in 8 arrangements (ascending, descending, equal, two values, saw tooth, organ
//@ pipe, mixed, last smallest) with one (two) arbitrary key(s) at any of 4 positions [flags=--intervals] [time=100/1200]
HARNESS(sort_large) {
    size_t n = big_sizes[vx_pick("n", 0, QT(4, 7))];
    int algo = (int)vx_pick("algorithm", 0, NALGO - 1);
    int p = (int)vx_pick("arrangement", 0, ARRANGEMENTS - 1);
    for(size_t i = 0; i < n; ++i) keys[i] = arrangement(p, i, n);
    size_t pos[] = {0, n - 1, n / 2, 1};
    size_t at = pos[vx_pick("position", 0, QT(2, 3))];
    keys[at] = (int)vx_range("key", 0, 4 * n + 4);
    if(VX_TIER && n <= 40) keys[(at + 5) % n] = (int)vx_range("key", 0, 4 * n + 4);
    Arr<0> r(n);
    run_sort(algo, r, p == 6);
    vx_reach("sorted");
}

//@ C17,C18 the same algorithms on larger ranges: 100 and 260 elements in 8 arrangements, no arbitrary key but a comparison of
//@ arbitrary direction
HARNESS(sort_larger) {
    size_t n = vx_pick("size", 0, 1) ? 260 : 100;
    int algo = (int)vx_pick("algorithm", 0, NALGO - 1);
    int p = (int)vx_pick("arrangement", 0, ARRANGEMENTS - 1);
    for(size_t i = 0; i < n; ++i) keys[i] = arrangement(p, i, n);
    Arr<0> r(n);
    run_sort(algo, r, vx_fork(vx_sym("descending", 1)));
    vx_reach("sorted");
}

template<typename T> static void run_ints(int algo, T *a, size_t n) {
    switch(algo) {
    case 0: radix_sort(a, a + n); break;
    case 1: radix_sort(Span<T>(a, n)); break;
    case 2: bucketsort(a, a + n); break;
    case 3: introsort(a, a + n); break;
    case 4: introsort(Span<T>(a, n)); break;
    case 5: heapsort(a, a + n); break;
    case 6: heapsort(Span<T>(a, n)); break;
    case 7: mergesort(a, a + n); break;
    case 8: mergesort(Span<T>(a, n)); break;
    case 9: mergesort(Span<T>(a, n), DefaultComparator<T>{}); break;
    case 10: insertion_sort(a, a + n); break;
    case 11: insertion_sort(Span<T>(a, n)); break;
    default: shell_sort(a, a + n);
    }
}
// Each value of the input occurs in the output as often.
template<typename T> static bool same_multiset(const T *a, const T *b, size_t n) {
    bool ok = true;
    for(size_t i = 0; i < n; ++i) {
        unsigned ca = 0, cb = 0;
        for(size_t j = 0; j < n; ++j) {
            ca += a[j] == a[i];
            cb += b[j] == a[i];
        }
        ok &= ca == cb;
    }
    return ok;
}
template<typename T> static void ints_small(int algo, size_t n) {
    T *a = (T *)malloc(n ? n * sizeof(T) : 1);
    T orig[8];
    for(size_t i = 0; i < n; ++i) orig[i] = a[i] = (T)vx_sym("value", sizeof(T) * 8);
    run_ints(algo, a, n);
    bool ok = true;
    for(size_t i = 1; i < n; ++i) ok &= a[i - 1] <= a[i];
    CHECK(ok, "the result is in order");
    CHECK(same_multiset(orig, a, n), "the result is a permutation of the input");
    free(a);
}
//@ C17 radix, bucket, intro, heap, merge, insertion and shell sort (iterator and span forms, default comparison) of 0 to 4 (5) arbitrary
//@ unsigned integers of 8 to 64 bits [time=60/600]
HARNESS(sort_integers_small) {
    size_t n = vx_pick("n", 0, QT(4, 5));
    int algo = (int)vx_pick("algorithm", 0, 12);
    switch(vx_pick("type", 0, 3)) {
    case 0: ints_small<uint8_t>(algo, n); break;
    case 1: ints_small<uint16_t>(algo, n); break;
    case 2: ints_small<uint32_t>(algo, n); break;
    default: ints_small<uint64_t>(algo, n);
    }
    vx_reach("sorted");
}
template<typename T> static T spread(int p, size_t i, size_t n) {
    const unsigned b = sizeof(T) * 8;
    switch(p) {
    case 0: return (T)((T)1 << (i % b));                  // every bit
    case 1: return (T)~((T)1 << (i * 7 % b));
    case 2: return (T)5;                                  // all equal
    case 3: return (T)(((T)i << (b / 2)) + (n - i));      // upper and lower half
    case 4: return (T)((i % 3) << (b - 3));               // top bits only
    case 5: return (T)(i * 5 % 3);                        // bottom bits only
    case 6: return (T)((T)1 << (b - 1) | (i * 3 % 5));    // top bit and bottom bits
    case 7: return (T)((i & 1) << (b / 2) | (i >> 1 & 1)); // one bit in the middle, one at the bottom
    default: return (T)(n - i);
    }
}
template<typename T> static void ints_large(int algo, size_t n) {
    int p = (int)vx_pick("arrangement", 0, 8);
    T *a = (T *)malloc(n * sizeof(T)), *o = (T *)malloc(n * sizeof(T));
    for(size_t i = 0; i < n; ++i) o[i] = a[i] = spread<T>(p, i, n);
    bool any = n < 100;
    // six arbitrary bits at the top or the bottom
    if(any) {
        T bits = (T)vx_sym("value", 6);
        if(vx_pick("top", 0, 1)) bits = (T)((uint64_t)bits << (sizeof(T) * 8 - 6));
        o[n / 2] = a[n / 2] = (T)(a[n / 2] ^ bits);
    }
    run_ints(algo, a, n);
    bool ok = true;
    for(size_t i = 1; i < n; ++i) ok &= a[i - 1] <= a[i];
    CHECK(ok, "the result is in order");
    if(any) CHECK(same_multiset(o, a, n), "the result is a permutation of the input");
    else {
        insertion_sort(o, o + n);
        CHECK(same_bytes(o, a, n * sizeof(T)), "the result is a permutation of the input");
    }
    free(a);
    free(o);
}
//@ C17 the integer sorts on 33 and 300 (40, 1030) elements of 8 to 64 bits in 9 arrangements (single bits, all equal, top or bottom bits, ...)
//@ with six arbitrary bits in one value up to 40 elements [flags=--intervals] [time=60/900]
HARNESS(sort_integers_large) {
    static const size_t sizes[] = {33, 300, 40, 1030};
    size_t n = sizes[vx_pick("n", 0, QT(1, 3))];
    static const int algos[] = {0, 2, 3, 5, 7, 12};
    int algo = algos[vx_pick("algorithm", 0, 5)];
    switch(vx_pick("type", 0, 3)) {
    case 0: ints_large<uint8_t>(algo, n); break;
    case 1: ints_large<uint16_t>(algo, n); break;
    case 2: ints_large<uint32_t>(algo, n); break;
    default: ints_large<uint64_t>(algo, n);
    }
    vx_reach("sorted");
}

static uint32_t pattern(int p, uint32_t i, uint32_t n) {
    switch(p) {
    case 0: return i * 2654435761u >> 16;
    case 1: return n - i;
    case 2: return i % 7;
    case 3: return i;
    default: return i < n / 2 ? i * 3 : (n - i) * 3;
    }
}
struct Forking {
    int compare(uint32_t a, uint32_t b) const noexcept { return vx_fork(a < b) ? -1 : vx_fork(b < a) ? 1 : 0; }
};
//@ C17 intro, shell, merge and heap sort on 1100, 1700 and 4200 (and 11000) elements (the sizes at which the pivot sample, the gap
//@ sequence and the depth change) in 5 arrangements with a key in the middle or at an end that has two arbitrary bits; radix and bucket
//@ sort of the same with that key one of two values [flags=--intervals] [time=150/900]
HARNESS(sort_huge) {
    static const uint32_t sizes[] = {1100, 4200, 1700, 11000};
    uint32_t n = sizes[vx_pick("n", 0, QT(2, 3))];
    int which = (int)vx_pick("algorithm", 0, 5);
    int p = (int)vx_pick("arrangement", 0, 4);
    uint32_t *a = (uint32_t *)malloc(n * sizeof(uint32_t));
    uint32_t *o = (uint32_t *)malloc(n * sizeof(uint32_t));
    uint32_t at = vx_pick("at the end", 0, 1) ? n - 1 : n / 2;
    for(uint32_t i = 0; i < n; ++i) o[i] = a[i] = i == at ? 0 : pattern(p, i, n);
    a[at] = vx_pick("large", 0, 1) ? n / 3 * 2 : 0;
    if(which >= 2) a[at] += (uint32_t)vx_sym("key", 2);
    o[at] = a[at];
    switch(which) {
    case 0: radix_sort(a, a + n); break;
    case 1: bucketsort(a, a + n); break;
    case 2: introsort(a, a + n, Forking{}); break;
    case 3: heapsort(a, a + n, Forking{}); break;
    case 4: mergesort(a, a + n, Forking{}); break;
    default: shell_sort(a, a + n, Forking{});
    }
    bool ok = true;
    uint64_t sum = 0, sum2 = 0, x = 0, x2 = 0;
    for(uint32_t i = 1; i < n; ++i) ok &= a[i - 1] <= a[i];
    for(uint32_t i = 0; i < n; ++i) sum += o[i], sum2 += a[i], x ^= o[i] * 0x101u, x2 ^= a[i] * 0x101u;
    CHECK(ok, "the result is in order");
    CHECK(sum == sum2 && x == x2, "the result holds the same elements");
    free(a);
    free(o);
    vx_reach("sorted");
}
//@ C17 intro sort of 11000 and 101000 elements (the largest pivot samples) in three arrangements, the last element with one arbitrary bit
//@ [flags=--intervals --steps 200000000] [time=100/900]
HARNESS(introsort_huge) {
    uint32_t n = vx_pick("n", 0, 1) ? 101000 : 11000;
    static const uint8_t which[] = {0, 2, 4};
    int p = which[vx_pick("arrangement", 0, 2)];
    uint32_t *a = (uint32_t *)malloc(n * sizeof(uint32_t));
    uint64_t sum = 0, sum2 = 0, x = 0, x2 = 0;
    for(uint32_t i = 0; i < n; ++i) a[i] = pattern(p, i, n);
    a[n - 1] = n / 3 + (vx_fork(vx_sym("key", 1)) ? 1 : 0);
    for(uint32_t i = 0; i < n; ++i) sum += a[i], x ^= a[i] * 0x101u;
    introsort(a, a + n, Forking{});
    bool ok = true;
    for(uint32_t i = 1; i < n; ++i) ok &= a[i - 1] <= a[i];
    for(uint32_t i = 0; i < n; ++i) sum2 += a[i], x2 ^= a[i] * 0x101u;
    CHECK(ok, "the result is in order");
    CHECK(sum == sum2 && x == x2, "the result holds the same elements");
    free(a);
    vx_reach("sorted");
}
template<typename T> void narrow() {
    static const uint32_t sizes[] = {255, 256, 257, 300, 512, 700};
    uint32_t n = sizes[vx_pick("n", 0, 5)];
    int p = (int)vx_pick("arrangement", 0, 3);
    bool radix = vx_pick("radix", 0, 1);
    T *a = (T *)malloc(n * sizeof(T));
    uint64_t sum = 0, sum2 = 0, x = 0, x2 = 0;
    for(uint32_t i = 0; i < n; ++i)
        a[i] = (T)(p == 0 ? 7 : p == 1 ? (i & 1) * 200 : p == 2 ? i % 3 : (T)(i * 2654435761u >> 8));
    uint32_t key = (uint32_t)vx_sym("key", 2);
    T &last = a[vx_pick("at the end", 0, 1) ? n - 1 : n / 2];
    last = (T)((vx_fork(key & 1) ? 1 : 0) + (vx_fork(key & 2) ? (T)~(T)1 : 6));
    for(uint32_t i = 0; i < n; ++i) sum += a[i], x += (uint64_t)a[i] * a[i];
    if(radix) radix_sort(a, a + n);
    else bucketsort(a, a + n);
    bool ok = true;
    for(uint32_t i = 1; i < n; ++i) ok &= a[i - 1] <= a[i];
    for(uint32_t i = 0; i < n; ++i) sum2 += a[i], x2 += (uint64_t)a[i] * a[i];
    CHECK(ok, "the result is in order");
    CHECK(sum == sum2 && x == x2, "the result holds the same elements");
    free(a);
    vx_reach("sorted");
}
//@ C17 radix and bucket sort of 255 to 700 elements of 8 and 16 bits (more elements than an element can count) in four arrangements, one
//@ key with two arbitrary bits [flags=--intervals]
HARNESS(sort_narrow) {
    if(vx_pick("wide", 0, 1)) narrow<uint16_t>();
    else narrow<uint8_t>();
}
