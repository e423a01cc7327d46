// C18: stable partition.  C19: selection and partitioning.  C20: search and rearranging helpers.
#include "sortutil.hpp"
#include <pystd2026_nth_element.hpp>
#include <pystd2026_partial_sort.hpp>
#include <pystd2026_rotate.hpp>
#include <pystd2026_stablepartition.hpp>

static volatile int volatile_sink;
struct Match {
    template<int K> bool operator()(const ElT<K> &e) const { return e.key & 1; }
};
// 1 to N elements with an arbitrary side each
static size_t sides(size_t lo, size_t hi) {
    size_t n = vx_pick("n", lo, hi);
    for(size_t i = 0; i < n; ++i) keys[i] = (int)vx_sym("side", 1);
    return n;
}
template<int K> static void check_split(Arr<K> &r, size_t at, bool st) {
    size_t m = 0;
    for(size_t i = 0; i < r.n; ++i) m += keys[i] & 1;
    CHECK(permutation(r.a, r.n), "partitioning keeps the elements");
    CHECK(at == m, "the returned position is the boundary");
    bool ok = true, order = true;
    for(size_t i = 0; i < r.n; ++i) ok &= (i < m) == (bool)(r.a[i].key & 1);
    for(size_t i = 1; i < r.n; ++i)
        if(i != m) order &= r.a[i - 1].id < r.a[i].id;
    CHECK(ok, "matching elements come first");
    if(st) CHECK(order, "stable partition keeps the order within the groups");
}
//@ C19,C18 partition and stable partition (iterator and span forms): every assignment of sides to 0 to 9 (12) elements [time=60/600]
HARNESS(partition_all) {
    int what = (int)vx_pick("algorithm", 0, 2);
    size_t n = sides(0, QT(9, 12));
    Arr<0> r(n);
    size_t at;
    if(what == 0) at = partition(r.a, r.a + n, Match{}) - r.a;
    else if(what == 1) at = partition(Span<El>(r.a, n), Match{});
    else at = stable_partition(r.a, r.a + n, Match{}) - r.a;
    check_split(r, at, what == 2);
    vx_reach("split");
}
//@ C18 stable partition of a span: every assignment of sides to 0 to 6 elements
HARNESS(stable_partition_span) {
    size_t n = sides(0, 6);
    Arr<0> r(n);
    size_t at = stable_partition(Span<El>(r.a, n), Match{});
    check_split(r, at, true);
    vx_reach("split");
}
//@ C18,C19 partition and stable partition of 20 and 33 elements in 8 arrangements with two arbitrary sides [reach-=selected]
HARNESS(partition_large) {
    size_t n = vx_pick("n", 0, 1) ? 33 : 20;
    int p = (int)vx_pick("arrangement", 0, ARRANGEMENTS - 1);
    for(size_t i = 0; i < n; ++i) keys[i] = arrangement(p, i, n) / 4 % 2;
    size_t at = vx_pick("position", 0, n / 2);
    keys[at] = (int)vx_sym("side", 1);
    keys[n - 1 - at] = (int)vx_sym("side", 1);
    Arr<0> r(n);
    bool st = vx_pick("stable", 0, 1);
    check_split(r, (st ? stable_partition(r.a, r.a + n, Match{}) : partition(r.a, r.a + n, Match{})) - r.a, st);
    vx_reach("split");
}

// Is the element with rank nth at a[nth], with nothing greater before and nothing smaller after it?
template<int K> static void check_nth(const ElT<K> *a, size_t n, size_t nth, bool down) {
    CHECK(permutation(a, n), "selection keeps the elements");
    bool ok = true;
    const int k = a[nth].key;
    for(size_t i = 0; i < n; ++i) {
        if(i < nth) ok &= down ? a[i].key >= k : a[i].key <= k;
        if(i > nth) ok &= down ? a[i].key <= k : a[i].key >= k;
    }
    CHECK(ok, "nothing before the selected element is greater, nothing after it smaller");
}
static void select(int what, Arr<0> &r, size_t nth, bool down) {
    ByKey cmp{down};
    const size_t n = r.n;
    size_t at = n;
    bool no = refused([&] {
        switch(what) {
        case 0: at = nth_element(r.a, r.a + n, nth, cmp) - r.a; break;
        case 1: at = nth_element_heap(r.a, r.a + n, nth, cmp) - r.a; break;
        case 2: at = nth_element(Span<El>(r.a, n), nth, cmp); break;
        default: at = partial_sort(r.a, r.a + n, nth, cmp) - r.a;
        }
    });
    if(nth >= n) {
        CHECK(no, "positions outside the range are refused");
        CHECK(permutation(r.a, n), "selection keeps the elements");
        return;
    }
    CHECK(!no, "every position of the range can be selected");
    CHECK(at == nth, "the requested position is returned");
    check_nth(r.a, n, nth, down);
    if(what == 3) CHECK(ordered(r.a, nth + 1, down), "the prefix is sorted");
    vx_reach("selected");
}
//@ C19 nth_element (both algorithms, iterator and span) and partial_sort: 0 to 5 (6) elements with arbitrary keys, every position
//@ including past the end [time=100/900]
HARNESS(select_small) {
    size_t n = vx_pick("n", 0, QT(5, 6));
    int what = (int)vx_pick("algorithm", 0, 3);
    size_t nth = vx_pick("nth", 0, n + 1);
    arbitrary_keys(n);
    Arr<0> r(n);
    select(what, r, nth, n == 3);
}
//@ C19 the same on 17, 20, 33 (40, 70, 120) elements in 8 arrangements with one arbitrary key, positions first, second, middle, last
//@ but one, last and end [flags=--intervals] [time=60/900]
HARNESS(select_large) {
    static const size_t sizes[] = {17, 33, 20, 40, 70, 120};
    size_t n = sizes[vx_pick("n", 0, QT(2, 5))];
    int what = (int)vx_pick("algorithm", 0, 3);
    int p = (int)vx_pick("arrangement", 0, ARRANGEMENTS - 1);
    for(size_t i = 0; i < n; ++i) keys[i] = arrangement(p, i, n);
    keys[vx_pick("position", 0, 2) * (n / 2 - 1)] = (int)vx_range("key", 0, 4 * n + 4);
    size_t nths[] = {0, 1, n / 2, n - 2, n - 1, n};
    Arr<0> r(n);
    select(what, r, nths[vx_pick("nth", 0, 5)], p == 6);
}
static uint32_t mix(int p, uint32_t i, uint32_t n) {
    switch(p) {
    case 0: return i * 2654435761u >> 16;
    case 1: return n - i;
    case 2: return i % 7;
    case 3: return i;
    default: return i < n / 2 ? i * 3 : (n - i) * 3;
    }
}
struct Less {
    int compare(uint32_t a, uint32_t b) const noexcept { return vx_fork(a < b) ? -1 : vx_fork(b < a) ? 1 : 0; }
};
//@ C19 the same, and partition and stable partition, on 64, 150, 700, 3000 (and 20000) whole numbers in 5 arrangements with a key that has one arbitrary
//@ bit; 8 positions [flags=--intervals --steps 200000000] [time=60/900]
HARNESS(select_huge) {
    static const uint32_t sizes[] = {64, 150, 700, 3000, 20000};
    uint32_t n = sizes[vx_pick("n", 0, QT(3, 4))];
    int what = (int)vx_pick("algorithm", 0, 4);
    int p = (int)vx_pick("arrangement", 0, 4);
    uint32_t nths[] = {0, 1, n / 10, n / 3, n / 2, n * 2 / 3, n - 2, n - 1};
    uint32_t nth = nths[vx_pick("nth", 0, 7)];
    uint32_t *a = (uint32_t *)malloc(n * sizeof(uint32_t));
    uint64_t sum = 0, sum2 = 0, x = 0, x2 = 0;
    for(uint32_t i = 0; i < n; ++i) a[i] = mix(p, i, n);
    a[n * 4 / 5] = a[nth] + (vx_fork(vx_sym("key", 1)) ? 1 : 0);
    const uint32_t border = a[nth];
    uint32_t below = 0;
    for(uint32_t i = 0; i < n; ++i) sum += a[i], x ^= a[i] * 0x101u, below += a[i] < border;
    bool ok = true;
    size_t at;
    auto side = [border](uint32_t v) { return v < border; };
    switch(what) {
    case 0: at = nth_element(a, a + n, nth, Less{}) - a; break;
    case 1: at = nth_element_heap(a, a + n, nth, Less{}) - a; break;
    case 2: at = partial_sort(a, a + n, nth, Less{}) - a; break;
    case 3: at = partition(a, a + n, side) - a; break;
    default: at = stable_partition(a, a + n, side) - a;
    }
    for(uint32_t i = 0; i < n; ++i) sum2 += a[i], x2 ^= a[i] * 0x101u;
    CHECK(sum == sum2 && x == x2, "the elements are kept");
    if(what < 3) {
        CHECK(at == nth, "the requested position is returned");
        for(uint32_t i = 0; i < n; ++i) ok &= i < nth ? a[i] <= a[nth] : a[i] >= a[nth];
        if(what == 2)
            for(uint32_t i = 1; i <= nth; ++i) ok &= a[i - 1] <= a[i];
        CHECK(ok, "nothing before the selected element is greater, nothing after it smaller; a partial sort is sorted before it");
    } else {
        CHECK(at == below, "the returned position is the boundary");
        for(uint32_t i = 0; i < n; ++i) ok &= (a[i] < border) == (i < below);
        CHECK(ok, "matching elements come first");
    }
    free(a);
    vx_reach("selected");
}
struct Big {
    int key;
    char rest[76];
    Big() noexcept = default;
    bool operator==(const Big &) const = default;
    int operator<=>(const Big &o) const { return key < o.key ? -1 : key > o.key; }
};
template<typename T> static void nth_default(size_t n, bool span) {
    T *a = (T *)calloc(n, sizeof(T));
    for(size_t i = 0; i < n; ++i) {
        if constexpr(is_same_v<T, Big>) a[i].key = keys[i];
        else a[i] = (T)keys[i];
    }
    size_t nth = vx_pick("nth", 0, 2) * (n - 1) / 2;
    size_t at = span ? nth_element(Span<T>(a, n), nth) : nth_element(a, a + n, nth) - a;
    CHECK(at == nth, "the requested position is returned");
    bool ok = true;
    for(size_t i = 0; i < n; ++i) ok &= i < nth ? !(a[nth] < a[i]) : !(a[i] < a[nth]);
    CHECK(ok, "nothing before the selected element is greater, nothing after it smaller");
    free(a);
    vx_reach("selected");
}
//@ C19 nth_element with the default comparison (iterator and span) and with elements of 80 bytes: 1 to 4 and 33 elements, one to four
//@ arbitrary keys
HARNESS(select_types) {
    size_t n = vx_pick("n", 1, 5);
    if(n == 5) n = 33;
    for(size_t i = 0; i < n; ++i) keys[i] = i < 4 && (n < 5 || i == 2) ? (int)vx_sym("key", 7) : (int)(i * 37 % n);
    bool span = vx_pick("span", 0, 1);
    switch(vx_pick("type", 0, 2)) {
    case 0: nth_default<uint8_t>(n, span); break;
    case 1: nth_default<int64_t>(n, span); break;
    default: {
        nth_default<Big>(n, span);
        Big *b = (Big *)calloc(n, sizeof(Big));
        for(size_t i = 0; i < n; ++i) b[i].key = keys[i];
        Big *m = nth_element(b, b + n, n / 2, DefaultComparator<Big>{});
        CHECK(m == b + n / 2, "the requested position is returned");
        bool ok = true;
        for(size_t i = 0; i < n; ++i) ok &= i < n / 2 ? b[i].key <= m->key : b[i].key >= m->key;
        CHECK(ok, "nothing before the selected element is greater, nothing after it smaller");
        free(b);
    }
    }
}

//@ C20 find, find_if, find_if_not, minimum and maximum: 0 to 6 (8) elements with arbitrary keys, any needle
HARNESS(search_linear) {
    size_t n = vx_pick("n", 0, QT(6, 8));
    arbitrary_keys(n);
    Arr<0> r(n);
    int needle = (int)vx_sym("needle", 8);
    El *a = r.a, *end = a + n;
    switch(vx_pick("what", 0, 6)) {
    case 0: {
        int *ints = (int *)malloc(n * sizeof(int) + 1);
        for(size_t i = 0; i < n; ++i) ints[i] = keys[i];
        size_t at = find(ints, ints + n, needle) - ints;
        CHECK(at <= n && (at == n || keys[at] == needle), "find returns a match or the end");
        for(size_t i = 0; i < at; ++i) CHECK(keys[i] != needle, "find returns the first match");
        free(ints);
        break;
    }
    case 1: {
        size_t at = find_if(a, end, [needle](const El &e) { return e.key > needle; }) - a;
        CHECK(at <= n && (at == n || keys[at] > needle), "find_if returns a match or the end");
        for(size_t i = 0; i < at; ++i) CHECK(keys[i] <= needle, "find_if returns the first match");
        break;
    }
    case 2: {
        size_t at = find_if_not(a, end, [needle](const El &e) { return e.key > needle; }) - a;
        CHECK(at <= n && (at == n || keys[at] <= needle), "find_if_not returns a non-match or the end");
        for(size_t i = 0; i < at; ++i) CHECK(keys[i] > needle, "find_if_not returns the first non-match");
        break;
    }
    case 3: {
        size_t at = min_element(a, end, ByKey{}) - a;
        CHECK(n ? at < n : at == 0, "the minimum is an element, the end for an empty range");
        for(size_t i = 0; i < n; ++i) {
            CHECK(keys[i] >= keys[at], "no element is smaller than the minimum");
            if(i < at) CHECK(keys[i] != keys[at], "the first of equal minima is returned");
        }
        break;
    }
    case 4: {
        size_t at = max_element(a, end, ByKey{}) - a;
        CHECK(n ? at < n : at == 0, "the maximum is an element, the end for an empty range");
        for(size_t i = 0; i < n; ++i) CHECK(keys[i] <= keys[at], "no element is greater than the maximum");
        break;
    }
    case 5: {
        int *ints = (int *)malloc(n * sizeof(int) + 1);
        for(size_t i = 0; i < n; ++i) ints[i] = keys[i];
        size_t at = min_element(ints, ints + n) - ints;
        for(size_t i = 0; i < n; ++i) CHECK(keys[i] >= keys[at], "no element is smaller than the minimum");
        free(ints);
        break;
    }
    default: {
        bool sorted = true;
        for(size_t i = 1; i < n; ++i) sorted &= keys[i - 1] <= keys[i];
        CHECK(is_sorted(a, end, ByKey{}) == sorted, "is_sorted is true exactly for sorted ranges");
    }
    }
    CHECK(permutation(a, n), "searching leaves the elements alone");
    bool same = true;
    for(size_t i = 0; i < n; ++i) same &= a[i].id == (int)i;
    CHECK(same, "searching leaves the elements alone");
    vx_reach("searched");
}
//@ C20 lower_bound: every sorted range of 0 to 6 (10) elements, any needle, ascending or descending, a sub-range of a larger array
HARNESS(search_binary) {
    size_t n = vx_pick("n", 0, QT(6, 10));
    bool down = vx_pick("descending", 0, 1);
    for(size_t i = 0; i < n; ++i) {
        keys[i] = (int)vx_sym("key", 8);
        if(i) vx_assume(down ? keys[i] <= keys[i - 1] : keys[i] >= keys[i - 1]);
    }
    Arr<0> r(n);
    El needle((int)vx_sym("needle", 8), 0);
    size_t lo = n >= 2 && vx_pick("inner", 0, 1) ? 1 : 0, hi = lo ? n - 1 : n;
    El *p = lower_bound(r.a + lo, r.a + hi, needle, ByKey{down});
    CHECK(p >= r.a + lo && p <= r.a + hi, "lower_bound returns a position of the range or its end");
    size_t want = lo;
    while(want < hi && (down ? keys[want] > needle.key : keys[want] < needle.key)) ++want;
    CHECK((size_t)(p - r.a) == want, "lower_bound returns the first element that is not smaller");
    vx_reach("searched");
}
//@ C20 lower_bound with the default comparison: every sorted range of 0 to 5 integers, any needle
HARNESS(search_binary_default) {
    size_t n = vx_pick("n", 0, 5);
    int64_t a[6] = {};
    for(size_t i = 0; i < n; ++i) {
        a[i] = (int64_t)vx_sym("key", 64);
        if(i) vx_assume(a[i] >= a[i - 1]);
    }
    int64_t needle = (int64_t)vx_sym("needle", 64);
    const int64_t *p = lower_bound((const int64_t *)a, (const int64_t *)a + n, needle);
    size_t want = 0;
    while(want < n && a[want] < needle) ++want;
    CHECK(p == a + want, "lower_bound returns the first element that is not smaller");
    vx_reach("searched");
}
//@ C20 rotation (iterator and span forms, by any amount) and the one step rotations in both directions: 0 to 12 (24) elements
HARNESS(rotate_all) {
    size_t n = vx_pick("n", 0, QT(12, 24));
    for(size_t i = 0; i < n; ++i) keys[i] = 100 + (int)i;
    Arr<0> r(n);
    int what = (int)vx_pick("what", 0, 3);
    size_t by = what < 2 ? vx_pick("by", 0, n) : what == 2 ? (n ? n - 1 : 0) : (n > 1 ? 1 : 0);
    size_t ret = n - by;
    switch(what) {
    case 0: ret = rotate(r.a, r.a + by, r.a + n) - r.a; break;
    case 1: ret = rotate(Span<El>(r.a, n), by) - r.a; break;
    case 2: rotate_last_to_front(r.a, r.a + n); break;
    default: rotate_first_to_back(r.a, r.a + n);
    }
    bool ok = true;
    for(size_t i = 0; i < n; ++i) ok &= r.a[i].id == (int)((i + by) % n) && r.a[i].key == 100 + r.a[i].id;
    CHECK(ok, "rotation keeps every element and moves the chosen one to the front");
    CHECK(ret == n - by, "rotate returns the new place of the first element");
    vx_reach("rotated");
}
//@ C20 rotation of 150000 objects by 1, by 2 and by all but one: as deep as the stack allows
//@ [flags=--steps 60000000]
HARNESS(rotate_many) {
    // An object with a destructor, so that the compiler cannot turn recursion into a loop.
    struct Small {
        int v;
        Small(int x = 0) noexcept : v(x) {}
        Small(const Small &o) noexcept : v(o.v) {}
        Small(Small &&o) noexcept : v(o.v) { o.v = -1; }
        Small &operator=(const Small &o) noexcept {
            v = o.v;
            return *this;
        }
        Small &operator=(Small &&o) noexcept {
            int t = o.v;
            o.v = -1;
            v = t;
            return *this;
        }
        ~Small() { volatile_sink = v; }
    };
    const size_t n = 150000;
    static const size_t shift[] = {1, 2, n - 1};
    size_t by = shift[vx_pick("by", 0, 2)];
    Small *a = new Small[n];
    for(size_t i = 0; i < n; ++i) a[i].v = (int)i;
    CHECK(rotate(a, a + by, a + n) == a + (n - by), "rotate returns the new place of the first element");
    bool ok = true;
    for(size_t i = 0, want = by; i < n; ++i, want = want + 1 == n ? 0 : want + 1) ok &= a[i].v == (int)want;
    CHECK(ok, "rotation keeps every element and moves the chosen one to the front");
    delete[] a;
    vx_reach("rotated");
}
//@ C20 clamp of any 64-bit integers, of any doubles (NaN and infinities included), maxval and minval of any 64-bit integers [reach-=compared]
HARNESS(clamp_all) {
    uint64_t v = vx_sym("value", 64), l = vx_sym("lower", 64), u = vx_sym("upper", 64);
    switch(vx_pick("what", 0, 2)) {
    case 0: {
        int64_t V = (int64_t)v, L = (int64_t)l, U = (int64_t)u;
        vx_assume(L <= U);
        CHECK(clamp(V, L, U) == (V < L ? L : V > U ? U : V), "clamp returns the nearest value within the bounds");
        break;
    }
    case 1: {
        double V, L, U;
        memcpy(&V, &v, 8);
        memcpy(&L, &l, 8);
        memcpy(&U, &u, 8);
        vx_assume(!(L > U));
        double c = clamp(V, L, U);
        if(V != V || L != L || U != U) CHECK(c != c, "clamp of NaN is NaN");
        else CHECK(c == (V < L ? L : V > U ? U : V), "clamp returns the nearest value within the bounds");
        break;
    }
    default: {
        CHECK((uint64_t)maxval(v, l) == (v > l ? v : l), "the larger value");
        CHECK((uint64_t)minval(v, l) == (v < l ? v : l), "the smaller value");
        CHECK((int64_t)maxval((int64_t)v, (int64_t)l) == ((int64_t)v > (int64_t)l ? (int64_t)v : (int64_t)l), "the larger value");
        CHECK((int64_t)minval((int64_t)v, (int64_t)l) == ((int64_t)v < (int64_t)l ? (int64_t)v : (int64_t)l), "the smaller value");
    }
    }
    vx_reach("clamped");
}
static int sign(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
template<typename T, typename U, typename C> static void float_order(bool nan) {
    U bits[3];
    T x[3];
    for(int i = 0; i < 3; ++i) {
        bits[i] = (U)vx_sym("bits", sizeof(U) * 8);
        memcpy(&x[i], &bits[i], sizeof(T));
        if(!nan) vx_assume(x[i] == x[i]);
    }
    C c;
    const bool n0 = x[0] != x[0], n1 = x[1] != x[1];
    int want = n0 ? (n1 ? 0 : 1) : n1 ? -1 : x[0] < x[1] ? -1 : x[1] < x[0] ? 1 : 0;
    CHECK(sign(c.compare(x[0], x[1])) == want, "numbers compare by value and before NaN");
    CHECK(c.equal(x[0], x[1]) == (want == 0), "equal means neither is smaller");
    CHECK(sign(c.compare(x[1], x[0])) == -want, "the order is antisymmetric");
    if(c.compare(x[0], x[1]) <= 0 && c.compare(x[1], x[2]) <= 0) CHECK(c.compare(x[0], x[2]) <= 0, "the order is transitive");
    CHECK(is_sorted(x, x + 2, c) == (want <= 0), "is_sorted is true exactly for sorted ranges");
    vx_reach("compared");
}
//@ C20 comparators for floating point: any two or three floats or doubles, with and without NaN
HARNESS(compare_floats) {
    switch(vx_pick("what", 0, 3)) {
    case 0: float_order<float, uint32_t, FloatTotalOrderComparator<float>>(true); break;
    case 1: float_order<double, uint64_t, FloatTotalOrderComparator<double>>(true); break;
    case 2: float_order<float, uint32_t, FloatIgnoreNanComparator<float>>(false); break;
    default: float_order<double, uint64_t, FloatIgnoreNanComparator<double>>(false);
    }
}

template<typename T> static void integer_order() {
    T a = (T)vx_sym("a", is_same_v<T, bool> ? 1 : sizeof(T) * 8), b = (T)vx_sym("b", is_same_v<T, bool> ? 1 : sizeof(T) * 8);
    int want = a < b ? -1 : b < a ? 1 : 0;
    DefaultComparator<T> d;
    OnlyLessComparator<T> o;
    CHECK(sign(d.compare(a, b)) == want && sign(o.compare(a, b)) == want, "numbers compare by value");
    CHECK(d.equal(a, b) == (want == 0) && o.equal(a, b) == (want == 0), "equal means neither is smaller");
    vx_reach("compared");
}
struct Lesser {
    uint32_t v;
    bool operator<(const Lesser &o) const { return v < o.v; }
    bool operator==(const Lesser &o) const { return v == o.v; }
};
//@ C20,C17 the default comparator and the one for types with only a less-than: every pair of values of every integer width, signed and unsigned, of a type
//@ with only a less-than, of strings of 0 to 2 characters
HARNESS(compare_values) {
    switch(vx_pick("type", 0, 10)) {
    case 0: return integer_order<bool>();
    case 1: return integer_order<uint8_t>();
    case 2: return integer_order<int16_t>();
    case 3: return integer_order<uint16_t>();
    case 4: return integer_order<int32_t>();
    case 5: return integer_order<uint32_t>();
    case 6: return integer_order<int64_t>();
    case 7: return integer_order<uint64_t>();
    case 8: return integer_order<char>();
    case 9: {
        Lesser a{vx_u32("a")}, b{vx_u32("b")};
        OnlyLessComparator<Lesser> o;
        CHECK(sign(o.compare(a, b)) == (a.v < b.v ? -1 : a.v > b.v ? 1 : 0), "compares by less-than alone");
        CHECK(o.equal(a, b) == (a.v == b.v), "equal means neither is smaller");
        break;
    }
    default: {
        RawZ x("x", vx_pick("n", 0, 2)), y("y", vx_pick("k", 0, 2));
        CString a(x.p), b(y.p);
        int want = strcmp(x.p, y.p);
        DefaultComparator<CString> d;
        OnlyLessComparator<CString> o;
        CHECK(sign(d.compare(a, b)) == sign(want) && sign(o.compare(a, b)) == sign(want), "strings compare by their characters");
        CHECK(d.equal(a, b) == (want == 0) && o.equal(a, b) == (want == 0), "equal means neither is smaller");
    }
    }
    vx_reach("compared");
}
