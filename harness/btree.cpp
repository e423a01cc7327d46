// C16: BTree, BTreeSet and BTreeMap as the sorted mathematical set and map.  C11: lifetimes of their elements.
#include "tracked.hpp"
#include <pystd2026_btree.hpp>

typedef Tracked<3> E;
enum { CAP = 40 };
// The reference: a sorted array.
struct Ref {
    int d[CAP];
    int n = 0;
    bool has(int x) const {
        bool r = false;
        for(int i = 0; i < n; ++i) r |= d[i] == x;
        return r;
    }
    void put(int x) { // x is concrete or already compared with everything on the path
        int i = 0;
        while(i < n && d[i] < x) ++i;
        if(i < n && d[i] == x) return;
        for(int j = n; j > i; --j) d[j] = d[j - 1];
        d[i] = x;
        ++n;
    }
    void del(int x) {
        int i = 0;
        while(i < n && d[i] < x) ++i;
        if(i == n || d[i] != x) return;
        for(; i + 1 < n; ++i) d[i] = d[i + 1];
        --n;
    }
};
template<typename T> static void check_tree(T &t, const Ref &r, bool lookups = true) {
    CHECK(t.size() == (size_t)r.n && (bool)t.is_empty() == (r.n == 0), "size");
    int i = 0;
    for(auto &e : t) {
        e.ok();
        CHECK(i < r.n, "iteration visits nothing else");
        CHECK(e.v == r.d[i], "iteration in ascending order");
        ++i;
    }
    CHECK(i == r.n, "iteration visits every key");
    CHECK(E::alive == r.n, "exactly the contained objects are alive");
    if(!lookups) return;
    for(int k = 0; k < r.n; ++k) {
        auto *p = t.lookup(E(r.d[k]));
        CHECK(p && p->v == r.d[k] && t.contains(E(r.d[k])), "present key");
    }
}
// Insertion orders.
static int order(int pattern, int i, int n) {
    switch(pattern) {
    case 0: return i;
    case 1: return n - 1 - i;
    case 2: return i % 2 ? n - 1 - i / 2 : i / 2;
    case 3: return (i * 7 + 3) % n;  // n must not be a multiple of 7
    default: return (i * 5 + 1) % n; // n must not be a multiple of 5
    }
}
enum { STRIDE = 4 };

template<size_t N> static void removals(const int *sizes, int nsizes, int steps, int patterns) {
    {
        BTree<E, N> t;
        Ref r;
        int n = sizes[vx_pick("n", 0, nsizes - 1)], p = (int)vx_pick("insertion order", 0, patterns - 1);
        for(int i = 0; i < n; ++i) {
            int k = order(p, i, n) * STRIDE;
            t.insert(E(k));
            r.put(k);
        }
        check_tree(t, r);
        for(int s = 0; s < steps; ++s) {
            int x = (int)vx_range("x", 0, n * STRIDE);
            {
                E e(x);
                bool had = r.has(x);
                CHECK(t.contains(e) == had, "exactly the keys inserted and not removed");
                t.remove(e);
            }
            r.del(x);
            check_tree(t, r, s + 1 == steps);
            CHECK(!t.contains(E(x)), "a removed key is absent");
        }
        // what is left can be emptied and the tree filled again
        bool up = vx_pick("empty upwards", 0, 1);
        while(r.n) {
            int k = up ? r.d[0] : r.d[r.n - 1];
            t.remove(E(k));
            r.del(k);
            CHECK(t.size() == (size_t)r.n && !t.contains(E(k)), "removed");
            if(r.n % 4 == 0) check_tree(t, r, false);
        }
        for(int i = 0; i < 5; ++i) {
            t.insert(E(i * 3 % 5));
            r.put(i * 3 % 5);
            check_tree(t, r);
        }
    }
    CHECK(E::alive == 0, "everything is destroyed");
    vx_reach("refilled");
}

//@ C16,C11 node size 3: trees of 1 to 13 (22) keys inserted in 3 (5) orders; every sequence of 2 removals of an arbitrary (present or
//@ absent) key, then emptied from either end and filled again [flags=--intervals] [time=100/900]
HARNESS(btree3_removals) {
    static const int sizes[] = {1, 2, 3, 4, 6, 8, 9, 11, 13, 16, 18, 22};
    removals<3>(sizes, QT(9, 12), 2, QT(3, 5));
}

//@ C16,C11 node size 5: trees of 4 to 22 (36) keys inserted in 3 (5) orders; every sequence of 2 removals of an arbitrary (present or
//@ absent) key, then emptied from either end and filled again [flags=--intervals] [time=100/900]
HARNESS(btree5_removals) {
    static const int sizes[] = {4, 6, 11, 16, 22, 36};
    removals<5>(sizes, QT(5, 6), 2, QT(3, 5));
}

//@ C16,C11 node size 3: every insertion order (with repetitions) of 6 (7) arbitrary keys, decided by the comparisons alone; then the
//@ removal of the first, a middle or the last one [time=100/900]
HARNESS(btree3_insertions) {
    {
        BTree<E, 3> t;
        Ref r;
        const int n = QT(6, 7);
        for(int i = 0; i < n; ++i) {
            int x = (int)vx_sym("key", 16);
            if(vx_pick("moved", 0, i == 0)) {
                E e(x);
                t.insert(e);
                e.ok();
            } else t.insert(E(x));
            r.put(x);
        }
        check_tree(t, r);
        int k = r.d[(uint64_t)(r.n - 1) * vx_pick("removed", 0, QT(2, 4)) / QT(2, 4)];
        // the argument lies in the tree
        auto *own = t.lookup(E(k));
        CHECK(own, "an inserted key is found");
        t.remove(*own);
        r.del(k);
        check_tree(t, r, false);
    }
    CHECK(E::alive == 0, "everything is destroyed");
    vx_reach("done");
}

//@ C16,C11 node size 3: from a tree of 0, 3 or 10 (or 12) keys, every sequence of 3 (4) insertions or removals of arbitrary keys [flags=--intervals]
//@ [time=100/900]
HARNESS(btree3_history) {
    {
        BTree<E, 3> t;
        Ref r;
        static const int sizes[] = {0, 3, 10, 12};
        int n = sizes[vx_pick("n", 0, QT(2, 3))];
        if(n == 0) t.reserve(20);
        for(int i = 0; i < n; ++i) {
            int k = order(3, i, n) * STRIDE;
            t.insert(E(k));
            r.put(k);
        }
        for(int s = 0; s < QT(3, 4); ++s) {
            int x = (int)vx_range("x", 0, n * STRIDE + 2);
            if(vx_pick("insert", 0, 1)) {
                t.insert(E(x));
                r.put(x);
            } else {
                t.remove(E(x));
                r.del(x);
            }
            CHECK(t.size() == (size_t)r.n, "size");
        }
        check_tree(t, r, false);
    }
    CHECK(E::alive == 0, "everything is destroyed");
    vx_reach("done");
}

//@ C16 sets and maps over the tree (node sizes 3 and 7), number and string keys: 0 to 12 insertions with arbitrary values, overwriting,
//@ removing every one in any rotation
HARNESS(btree_set_and_map) {
    {
        size_t n = vx_pick("n", 0, 12), rot = vx_pick("rotation", 0, 3);
        bool back = vx_pick("backwards", 0, 1);
        BTreeSet<int, 3> s;
        BTreeMap<int, int, 3> m;
        BTreeMap<CString, CString, 7> cm;
        BTreeSet<CString, 3> cs;
        int val[12];
        auto text = [](size_t i) {
            CString c;
            c.append((char)('a' + i));
            return c;
        };
        for(size_t i = 0; i < n; ++i) {
            size_t k = back ? n - 1 - i : i;
            val[k] = (int)vx_sym("value", 8);
            s.insert((int)k);
            m.insert((int)k, 1000);
            m.insert((int)k, val[k]);
            cm.insert(text(k), text(k + 1));
            cs.insert(text(k));
        }
        CHECK(s.size() == n && s.is_empty() == (n == 0) && cs.size() == n, "size");
        for(size_t gone = 0; gone <= n; ++gone) {
            for(size_t k = 0; k <= n; ++k) {
                bool in = k < n && (k + n - rot % (n ? n : 1)) % n >= gone;
                CHECK(s.contains((int)k) == in && cs.contains(text(k)) == in, "exactly the keys inserted and not removed");
                int *v = m.lookup((int)k);
                CString *c = cm.lookup(text(k));
                CHECK((v != nullptr) == in && (c != nullptr) == in, "exactly the keys inserted and not removed");
                if(in) CHECK(*v == val[k] && *c == text(k + 1), "latest values");
            }
            if(gone == n) break;
            size_t k = (gone + rot) % n;
            s.remove((int)k);
            m.remove((int)k);
            cm.remove(text(k));
            cs.remove(text(k));
            cs.remove(text(k));
            CHECK(s.size() == n - gone - 1 && cs.size() == n - gone - 1, "size");
        }
        s.insert(7);
        CHECK(s.contains(7) && s.size() == 1, "usable again");
    }
    vx_reach("done");
}

static int large_order(int p, int i, int n) { return p == 0 ? i : p == 1 ? n - 1 - i : p == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : (int)((uint64_t)i * 7919 % (uint64_t)n); }
// n keys inserted in one order and removed in another; lookups and iteration along the way.
template<typename T> static void large_tree(T &t, int n, int in, int out) {
    for(int i = 0; i < n; ++i) {
        t.insert(large_order(in, i, n) * 2);
        if(i % 10 == 3) t.insert(large_order(in, i, n) * 2);
    }
    auto check = [&](int gone) {
        CHECK(t.size() == (size_t)(n - gone) && t.is_empty() == (n == gone), "size");
        static bool in[4096];
        for(int i = 0; i < n; ++i) in[large_order(out, i, n)] = i >= gone;
        int last = -1, cnt = 0;
        for(auto &e : t) {
            CHECK(e > last && e % 2 == 0 && e < 2 * n && in[e / 2], "iteration in ascending order");
            last = e;
            ++cnt;
        }
        CHECK(cnt == n - gone, "iteration visits every key");
        for(int k = 0; k < n; ++k) {
            auto *p = t.lookup(k * 2);
            CHECK((p != nullptr) == in[k] && t.contains(k * 2) == in[k] && !t.contains(k * 2 + 1), "exactly the keys inserted and not removed");
            if(p) CHECK(*p == k * 2, "the key itself is found");
        }
    };
    check(0);
    if(n == 50) {
        int x = (int)vx_range("x", 0, 101);
        bool there = vx_fork(x % 2 == 0 && x < 100);
        CHECK(t.contains(x) == there, "exactly the keys inserted and not removed");
    }
    for(int i = 0; i < n; ++i) {
        int k = large_order(out, i, n) * 2;
        if(i % 3 == 1) t.remove(*t.lookup(k)); // the argument lies in the tree
        else t.remove(k);
        if(i % 16 == 1) t.remove(k);
        CHECK(t.size() == (size_t)(n - i - 1) && !t.contains(k), "removed");
        if(i == n / 3 || i == n / 2 || i == n - 5) check(i + 1);
    }
    t.insert(5);
    CHECK(t.size() == 1 && t.contains(5), "usable again");
    vx_reach("done");
}
//@ C16 trees of 50 to 1009 keys, node sizes 3, 5, 7 and the two set sizes used by default, inserted in four orders (with repetitions) and removed
//@ in four orders: contents and iteration on the way, empty at the end; an arbitrary key is looked up in those of 50 [flags=--intervals --steps 60000000]
HARNESS(btree_large) {
    static const uint16_t sizes[] = {50, 131, 400, 1009};
    int n = sizes[vx_pick("n", 0, 3)], in = (int)vx_pick("inserted", 0, 3), out = (int)vx_pick("removed", 0, 3);
    switch(vx_pick("node", 0, 4)) {
    case 0: {
        BTree<int, 3> t;
        return large_tree(t, n, in, out);
    }
    case 1: {
        BTree<int, 5> t;
        return large_tree(t, n, in, out);
    }
    case 2: {
        BTree<int, 7> t;
        return large_tree(t, n, in, out);
    }
    case 3: {
        BTree<int, 31> t;
        return large_tree(t, n, in, out);
    }
    default: {
        BTree<int, 63> t;
        t.reserve((size_t)n);
        return large_tree(t, n, in, out);
    }
    }
}
