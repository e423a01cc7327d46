// C35: the work an operation does, counted in comparisons, moves and new buffers.
//@unit repo=core
//@stub work is counted by the element type and the comparison the harness gives to the library; the bounds leave a factor of three or more
#include "util.hpp"
#include <pystd2026_introsort.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_heapsort.hpp>
#include <pystd2026_shellsort.hpp>
#include <pystd2026_indirect_sort.hpp>
#include <pystd2026_nth_element.hpp>
#include <pystd2026_partial_sort.hpp>
#include <pystd2026_rotate.hpp>
#include <pystd2026_btree.hpp>
#include <pystd2026_hashtable.hpp>

static size_t compared, moved;
struct Num {
    int v = 0;
    Num() noexcept = default;
    explicit Num(int v_) noexcept : v{v_} {}
    Num(const Num &o) noexcept : v{o.v} { ++moved; }
    Num(Num &&o) noexcept : v{o.v} { ++moved; }
    Num &operator=(const Num &o) noexcept { v = o.v; ++moved; return *this; }
    Num &operator=(Num &&o) noexcept { v = o.v; ++moved; return *this; }
    bool operator<(const Num &o) const noexcept { ++compared; return v < o.v; }
    bool operator>(const Num &o) const noexcept { ++compared; return v > o.v; }
    bool operator==(const Num &o) const noexcept { ++compared; return v == o.v; }
    int operator<=>(const Num &o) const noexcept { ++compared; return v < o.v ? -1 : v > o.v ? 1 : 0; }
};
static size_t log2_up(size_t n) {
    size_t r = 0;
    while(((size_t)1 << r) < n) ++r;
    return r;
}
// The order is decided while the algorithm asks (M. D. McIlroy, "A Killer Adversary for Quicksort"): an element
// gets the next smallest value when it is compared with another undecided one and must not become the pivot.
#ifndef FACTOR
#define FACTOR 6
#endif
enum { MAXN = 2050 };
static int decided[MAXN];
static int next_value, candidate, undecided;
static uint64_t whims;
static void adversary_reset(size_t n, uint64_t w) {
    undecided = (int)n;
    for(size_t i = 0; i < n; ++i) decided[i] = undecided;
    next_value = 0;
    candidate = 0;
    whims = w;
}
static int adversary(int x, int y) {
    if(decided[x] == undecided && decided[y] == undecided) {
        bool first = x == candidate;
        if(whims & 1) first = !first;
        whims = whims >> 1 | (whims & 1) << 7;
        if(first) decided[x] = next_value++;
        else decided[y] = next_value++;
    }
    if(decided[x] == undecided) candidate = x;
    else if(decided[y] == undecided) candidate = y;
    return decided[x] < decided[y] ? -1 : decided[x] > decided[y] ? 1 : 0;
}
struct Counting {
    bool hostile = false;
    int compare(const Num &a, const Num &b) const noexcept {
        ++compared;
        if(hostile) return adversary(a.v, b.v);
        return a.v < b.v ? -1 : a.v > b.v ? 1 : 0;
    }
    bool equal(const Num &a, const Num &b) const noexcept { return compare(a, b) == 0; }
};
static int shape(int p, size_t i, size_t n) {
    switch(p) {
    case 0: return (int)i;
    case 1: return (int)(n - i);
    case 2: return 8;
    case 3: return (int)(i % 2);
    case 4: return (int)(i * 7 % 16);
    case 5: return (int)(i < n / 2 ? i : n - i);
    case 6: return (int)(i * 37 % n);
    case 7: return (int)(i < n / 2 ? 2 * i : 2 * (n - i) + 1);
    case 8: return (int)(i % 2 ? i : n - i);
    default: return (int)(i * i % 251);
    }
}
enum { SHAPES = 10 };
struct Nums {
    Num *p;
    size_t n;
    explicit Nums(size_t n_) : p{(Num *)malloc(n_ * sizeof(Num))}, n{n_} {
        for(size_t i = 0; i < n; ++i) new(p + i) Num((int)i);
    }
    ~Nums() { free(p); }
};
static void within(size_t limit) {
    CHECK(compared <= limit, "comparisons");
    CHECK(moved <= 2 * limit, "moves");
    vx_reach("measured");
}
static void run(int algorithm, Nums &a, const Counting &c, size_t at) {
    compared = moved = 0;
    switch(algorithm) {
    case 0: introsort(a.p, a.p + a.n, c); break;
    case 1: mergesort(a.p, a.p + a.n, c); break;
    case 2: heapsort(a.p, a.p + a.n, c); break;
    case 3: (void)indirect_sort(a.p, a.p + a.n, c); break;
    case 4: (void)indirect_stable_sort(a.p, a.p + a.n, c); break;
    case 5: (void)nth_element(a.p, a.p + a.n, at, c); break;
    case 6: (void)partial_sort(a.p, a.p + a.n, at, c); break;
    case 7: (void)nth_element_heap(a.p, a.p + a.n, at, c); break;
    default: shell_sort(a.p, a.p + a.n, c); break;
    }
}
static size_t allowed(int algorithm, size_t n) {
    if(algorithm == 8) { // the known bound of gap sequences that are not chosen for their worst case
        size_t root = 1;
        while(root * root < n) ++root;
        return 6 * n * root + 400;
    }
    return FACTOR * n * log2_up(n) + 400;
}
//@ C35 sorting and selecting 20 to 1500 elements (ten arrangements, one of them with an arbitrary element) with nine algorithms
//@ [flags=--steps 60000000] [time=100/600]
HARNESS(cost_sort_shapes) {
    static const size_t sizes[] = {20, 100, 300, 1000, 1500};
    const size_t n = sizes[vx_pick("n", 0, QT(3, 4))];
    const int algorithm = (int)vx_pick("algorithm", 0, 8);
    const int p = (int)vx_pick("arrangement", 0, SHAPES - 1);
    const size_t at = vx_pick("position", 0, algorithm >= 5 && algorithm <= 7 ? 2 : 0) * (n - 1) / 2;
    Nums a(n);
    for(size_t i = 0; i < n; ++i) a.p[i].v = shape(p, i, n);
    run(algorithm, a, Counting{}, at);
    within(allowed(algorithm, n));
}
//@ C35 sorting and selecting 20 to 1500 elements whose order is decided by an adversary during the sort; its choices follow an arbitrary
//@ pattern of 5 (8) bits [flags=--steps 60000000] [time=100/600]
HARNESS(cost_sort_hostile) {
    static const size_t sizes[] = {20, 100, 300, 1000, 1500};
    const size_t n = sizes[vx_pick("n", 0, QT(3, 4))];
    const int algorithm = (int)vx_pick("algorithm", 0, 7);
    const size_t at = vx_pick("position", 0, algorithm >= 5 && algorithm <= 7 ? 2 : 0) * (n - 1) / 2;
    Nums a(n);
    adversary_reset(n, vx_pick("choices", 0, QT(7, 255)));
    run(algorithm, a, Counting{true}, at);
    within(allowed(algorithm, n));
}
//@ C35 searching 1 to 300 (2000) sorted elements for an arbitrary value [flags=--intervals] [time=60/600]
HARNESS(cost_search) {
    static const size_t sizes[] = {1, 2, 7, 8, 100, 300, 1000, 2000};
    const size_t n = sizes[vx_pick("n", 0, QT(5, 7))];
    Nums a(n);
    for(size_t i = 0; i < n; ++i) a.p[i].v = 2 * (int)i;
    const Num wanted((int)vx_range("value", 0, 2 * n));
    compared = moved = 0;
    auto *r = lower_bound(a.p, a.p + n, wanted, Counting{});
    vx_observe("place", (size_t)(r - a.p));
    within(2 * log2_up(n + 1) + 4);
}
//@ C35 passes over 1 to 1000 elements: minimum, maximum, order test, searches, partition, rotation by every tenth distance, rotation by one
//@ [flags=--steps 60000000] [time=60/300]
HARNESS(cost_passes) {
    static const size_t sizes[] = {1, 2, 3, 10, 101, 1000};
    const size_t n = sizes[vx_pick("n", 0, 5)];
    const int p = (int)vx_pick("arrangement", 0, SHAPES - 1);
    Nums a(n);
    for(size_t i = 0; i < n; ++i) a.p[i].v = shape(p, i, n);
    size_t asked = 0;
    compared = moved = 0;
    switch(vx_pick("pass", 0, 8)) {
    case 0: (void)min_element(a.p, a.p + n, Counting{}); break;
    case 1: (void)max_element(a.p, a.p + n, Counting{}); break;
    case 2: (void)is_sorted(a.p, a.p + n, Counting{}); break;
    case 3: (void)find(a.p, a.p + n, a.p[n - 1]); break;
    case 4: (void)find_if(a.p, a.p + n, [&](const Num &x) { ++asked; return x.v < 0; }); break;
    case 5: (void)partition(a.p, a.p + n, [&](const Num &x) { ++asked; return x.v < (int)n / 2; }); break;
    case 6: (void)rotate(a.p, a.p + vx_pick("distance", 0, 10) * n / 10, a.p + n); break;
    case 7: rotate_last_to_front(a.p, a.p + n); break;
    default: rotate_first_to_back(a.p, a.p + n); break;
    }
    CHECK(asked <= 3 * n + 10, "predicate calls");
    within(4 * n + 10);
}
static Num *made(size_t n) {
    Num *p = (Num *)malloc(n * sizeof(Num));
    for(size_t i = 0; i < n; ++i) new(p + i) Num((int)i);
    return p;
}
//@ C35 a vector or a stack that grows to 1000 (5000) elements one by one, in one go, from a range, a copy of it; taken apart again; moves and new buffers
//@ [flags=--steps 60000000] [time=60/300]
HARNESS(cost_vector) {
    const size_t n = QT(1000, 5000);
    const int how = (int)vx_pick("how", 0, 6);
    const Num x(3);
    size_t buffers = 0;
    compared = moved = 0;
    if(how == 6) {
        Stack<Num> s;
        for(size_t i = 0; i < n; ++i) s.push(x);
        while(!s.is_empty()) s.pop();
        return within(6 * n + 200);
    }
    Vector<Num> v;
    Num *last = v.data();
    auto look = [&] {
        if(v.data() != last) ++buffers;
        last = v.data();
    };
    Num *src = made(n);
    switch(how) {
    case 0: for(size_t i = 0; i < n; ++i) { v.push_back(x); look(); } break;
    case 1: for(size_t i = 0; i < n; ++i) { v.push_back(Num((int)i)); look(); } break;
    case 2: for(size_t i = 0; i < n; ++i) { v.emplace_back((int)i); look(); } break;
    case 3: for(size_t i = 0; i < n; ++i) { v.append_with_default(1); look(); } break;
    case 4: for(size_t i = 0; i + 2 <= n; i += 2) { v.append(src + i, src + i + 2); look(); } break;
    default: { Vector<Num> w(src, src + n); Vector<Num> u(w); v = move(u); look(); break; }
    }
    CHECK(v.size() == n, "size");
    CHECK(buffers <= 3 * log2_up(n) + 8, "new buffers");
    Vector<Num> u(move(v));
    v = move(u);
    if(vx_fork(vx_sym("clear", 1))) v.clear();
    else while(!v.is_empty()) v.pop_back();
    free(src);
    within(8 * n + 200);
}
//@ C35 a byte buffer, a C string and a UTF-8 string that grow to 4000 characters one by one or by short pieces: new buffers [flags=--steps 60000000] [time=60/300]
HARNESS(cost_text) {
    const size_t n = 4000;
    size_t buffers = 0;
    const char *last = nullptr;
    auto look = [&](const char *now) {
        if(now != last) ++buffers;
        last = now;
    };
    switch(vx_pick("how", 0, 7)) {
    case 0: { Bytes b; for(size_t i = 0; i < n; ++i) { b.append('x'); look(b.data()); } break; }
    case 1: { Bytes b; const Bytes c("abc", 3); while(b.size() < n) { b += c; look(b.data()); } break; }
    case 2: { Bytes b; const char *t = "abc"; while(b.size() < n) { b.append(t, t + 3); look(b.data()); } break; }
    case 3: { Bytes b; while(b.size() < n) { b.insert(0, "abc", 3); look(b.data()); } break; }
    case 4: { CString s; for(size_t i = 0; i < n; ++i) { s.append('x'); look(s.c_str()); } break; }
    case 5: { CString s; while(s.size() < n) { s += "abc"; look(s.c_str()); } break; }
    case 6: { CString s; const CString t("abc"); while(s.size() < n) { s += t; look(s.c_str()); } break; }
    default: { U8String s; const U8String t("abc"); while(s.size_bytes() < n) { s += t; look(s.c_str()); } break; }
    }
    CHECK(buffers <= 3 * log2_up(n) + 8, "new buffers");
    vx_reach("measured");
}
//@ C35 a fixed vector of 200 elements: pushing, inserting and removing at the front, the middle and the end [time=60/300]
HARNESS(cost_fixed_vector) {
    FixedVector<Num, 200> v;
    compared = moved = 0;
    for(int i = 0; i < 199; ++i) v.emplace_back(i);
    CHECK(moved <= 3 * 199, "moves of pushing");
    const size_t at = vx_pick("at", 0, 2) * v.size() / 2;
    moved = 0;
    v.insert(at, Num(7));
    CHECK(moved <= 3 * (200 - at) + 10, "moves of an insertion");
    moved = 0;
    v.delete_at(at == 199 ? 198 : at);
    CHECK(moved <= 3 * (200 - at) + 10, "moves of a removal");
    moved = 0;
    v.pop_back();
    CHECK(moved <= 4, "moves of taking the last one");
    vx_reach("measured");
}
template<size_t E> static void tree_cost(size_t n, int p) {
    BTree<Num, E> t;
    const size_t per_op = 8 * log2_up(n) + 40, shift = 8 * E + 80;
    compared = moved = 0;
    for(size_t i = 0; i < n; ++i) t.insert(Num(shape(p, i, n)));
    CHECK(compared <= n * per_op, "comparisons of insertions");
    CHECK(moved <= n * shift, "moves of insertions");
    for(size_t i = 0; i < n; i += 7) {
        compared = moved = 0;
        (void)t.lookup(Num(shape(p, i, n)));
        CHECK(compared <= per_op, "comparisons of a lookup");
        CHECK(moved <= 4, "moves of a lookup");
    }
    compared = moved = 0;
    for(size_t i = 0; i < n; ++i) t.remove(Num(shape(p, i, n)));
    CHECK(compared <= 2 * n * per_op, "comparisons of removals");
    CHECK(moved <= 2 * n * shift, "moves of removals");
    vx_reach("measured");
}
//@ C35 trees with 5, 11 and 51 entries per node that grow to 100 or 500 (3000) elements in ten orders and are emptied again [flags=--steps 90000000] [time=100/600]
HARNESS(cost_tree) {
    const size_t n = vx_pick("large", 0, 1) ? QT(500, 3000) : 100;
    const int p = (int)vx_pick("arrangement", 0, SHAPES - 1);
    switch(vx_pick("entries", 0, 2)) {
    case 0: tree_cost<5>(n, p); break;
    case 1: tree_cost<11>(n, p); break;
    default: tree_cost<51>(n, p); break;
    }
}
struct Key {
    int64_t v = 0;
    Key() noexcept = default;
    explicit Key(int64_t v_) noexcept : v{v_} {}
    Key(const Key &) = default;
    Key &operator=(const Key &) = default;
    bool operator==(const Key &o) const noexcept { ++compared; return v == o.v; }
    template<typename H> void feed_hash(H &h) const noexcept { h.feed_hash(v); }
};
//@ C35 a hash map that grows to 200 or 2000 (8000) keys in four families with values of its own hash algorithm, lookups of present and absent keys,
//@ removal of everything; comparisons of keys and moves of values [flags=--steps 90000000] [time=100/600]
HARNESS(cost_hash_map) {
    const size_t n = vx_pick("large", 0, 1) ? QT(2000, 8000) : 200;
    const int family = (int)vx_pick("family", 0, 3);
    auto key = [&](size_t i) {
        switch(family) {
        case 0: return Key((int64_t)i);
        case 1: return Key(-(int64_t)(i * 1000));
        case 2: return Key((int64_t)(i << 20));
        default: return Key((int64_t)(i * 2654435761u));
        }
    };
    HashMap<Key, Num> m;
    compared = moved = 0;
    for(size_t i = 0; i < n; ++i) m.insert(key(i), Num((int)i));
    CHECK(compared <= 2 * n + 100 && moved <= 10 * n + 300, "insertions");
    compared = moved = 0;
    for(size_t i = 0; i < n; ++i) CHECK(m.lookup(key(i)) != nullptr, "present");
    CHECK(compared <= 3 * n + 100 && moved == 0, "lookups of present keys");
    compared = moved = 0;
    for(size_t i = n; i < 2 * n; ++i) CHECK(m.lookup(key(i)) == nullptr, "absent");
    CHECK(compared <= 2 * n + 100 && moved == 0, "lookups of absent keys");
    compared = moved = 0;
    for(size_t i = 0; i < n; ++i) m.remove(key(i));
    CHECK(compared <= 3 * n + 100 && moved <= n + 100, "removals");
    // Many removals and insertions leave it as fast as before.
    compared = moved = 0;
    for(size_t i = 0; i < n; ++i) {
        m.insert(key(i), Num((int)i));
        m.remove(key(i));
    }
    CHECK(compared <= 3 * n + 100 && moved <= 10 * n + 300, "one in, one out");
    vx_reach("measured");
}
// What is in use after many rounds of adding and removing must not grow with the number of rounds.
template<typename F> static void steady(const F &round) {
    size_t i = 0;
    uint64_t most[2] = {0, 0};
    const uint64_t before = vx_heap();
    for(int k = 0; k < 2; ++k) {
        for(size_t last = i + (k ? QT(1500, 8000) : 150); i < last; ++i) {
            round(i);
            if(i % 16 == 5) {
                const uint64_t now = vx_heap() - before;
                if(most[k] < now) most[k] = now;
            }
        }
    }
    CHECK(most[1] <= 3 * most[0] + 500, "memory grows although the contents do not");
    vx_reach("measured");
}
//@ C35 memory in use while 1650 (8150) elements pass through containers and texts that hold at most 20, arrivals and departures in four orders
//@ [flags=--steps 90000000] [time=100/600]
HARNESS(cost_memory) {
    const size_t live = vx_pick("few", 0, 1) ? 3 : 20;
    const int order = (int)vx_pick("order", 0, 3);
    auto arrives = [&](size_t i) -> int64_t {
        switch(order) {
        case 0: return (int64_t)i;
        case 1: return -(int64_t)i;
        case 2: return (int64_t)((i * 2654435761u) & 0xffffffff);
        default: return (int64_t)(i % 64);
        }
    };
    switch(vx_pick("kind", 0, 8)) {
    case 0: {
        HashMap<int64_t, int> m;
        steady([&](size_t i) { m.insert(arrives(i), 1); if(i >= live) m.remove(arrives(i - live)); });
        break;
    }
    case 1: {
        HashSet<int64_t> m;
        steady([&](size_t i) { m.insert(arrives(i)); if(i % live == live - 1) m.clear(); });
        break;
    }
    case 2: {
        BTree<int64_t, 5> t;
        steady([&](size_t i) { t.insert(arrives(i)); if(i >= live) t.remove(arrives(i - live)); });
        break;
    }
    case 3: {
        BTree<int64_t, 5> t;
        steady([&](size_t i) {
            if(i / live % 2 == 0) t.insert(arrives(i));
            else t.remove(arrives(order == 3 ? i - live : i / live * live - 1 - i % live));
        });
        break;
    }
    case 4: {
        Vector<int64_t> v;
        steady([&](size_t i) { v.push_back(arrives(i)); if(v.size() >= live) v.pop_back(); });
        break;
    }
    case 5: {
        Vector<int64_t> v;
        steady([&](size_t i) {
            Vector<int64_t> w(v);
            w.push_back(arrives(i));
            if(w.size() > live) w.clear();
            v = order & 1 ? w : move(w);
        });
        break;
    }
    case 6: {
        Bytes b;
        steady([&](size_t i) {
            b.insert(order & 1 ? 0 : b.size(), "abc", 3);
            if(b.size() > live) { if(order & 2) b.pop_front(3); else b.pop_back(3); }
            (void)i;
        });
        break;
    }
    case 7: {
        U8String s;
        steady([&](size_t i) {
            s.append_codepoint(0x40 + (uint32_t)(i % 1000));
            if(i >= live) { if(order & 1) s.pop_front(); else s.pop_back(); }
            if(order & 2) s = U8String(s);
        });
        break;
    }
    default: {
        Stack<int64_t> s;
        size_t k = 0;
        steady([&](size_t i) { s.push(arrives(i)); if(++k > live) for(; k > 0; --k) s.pop(); });
        break;
    }
    }
}
