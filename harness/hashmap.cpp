// C15: HashMap and HashSet as the mathematical map and set.  C11: lifetimes of keys and values.
//@stub the hash algorithm of hashmap_history and hashmap_hashes is a stand-in that returns values chosen by the solver (any value is allowed)
#include "tracked.hpp"
#include <pystd2026_hashtable.hpp>

enum { NK = 48 };
static uint64_t hash_of[NK];
// Keys are small numbers; the hash of each is whatever hash_of says.
struct Key : Tracked<2> {
    using Tracked<2>::Tracked;
    template<typename Hasher> void feed_hash(Hasher &h) const {
        ok();
        h.feed_bytes((const char *)&v, sizeof(v));
    }
};
struct Chosen {
    int last = 0;
    void feed_bytes(const char *b, size_t n) noexcept {
        if(n == sizeof(int)) memcpy(&last, b, n);
    }
    size_t get_hash_value() const noexcept { return hash_of[last]; }
    void reset() noexcept {}
};
typedef HashMap<Key, TB, Chosen> Map;
typedef HashSet<Key, Chosen> Set;

struct Model2 {
    bool in[NK] = {};
    int val[NK];
    size_t n = 0;
    void put(int k, int v) {
        if(!in[k]) ++n;
        in[k] = true;
        val[k] = v;
    }
    void del(int k) {
        if(in[k]) --n;
        in[k] = false;
    }
    void clear() {
        for(auto &x : in) x = false;
        n = 0;
    }
};
static int arbitrary() { return (int)vx_sym("value", 8); }
static void check_map(Map &m, const Model2 &r, int nk) {
    CHECK(m.size() == r.n && m.is_empty() == (r.n == 0), "size");
    bool ok = true, present = true;
    for(int k = 0; k < nk; ++k) {
        Key key(k);
        TB *p = m.lookup(key);
        present &= (p != nullptr) == r.in[k] && m.contains(key) == r.in[k];
        if(p && r.in[k]) ok &= p->v == r.val[k];
    }
    CHECK(present, "exactly the keys inserted and not removed");
    CHECK(ok, "latest values");
    bool seen[NK] = {};
    size_t cnt = 0;
    for(auto kv : m) {
        kv.key->ok();
        kv.value->ok();
        int k = kv.key->v;
        CHECK(k >= 0 && k < nk && r.in[k] && !seen[k], "iteration visits each key once");
        seen[k] = true;
        CHECK(kv.value->v == r.val[k], "iteration shows the values");
        ++cnt;
    }
    CHECK(cnt == r.n, "iteration visits every key");
    CHECK(Tracked<2>::alive == (long)r.n && TB::alive == (long)r.n, "exactly the contained objects are alive");
}
static void op(Map &m, Model2 &r, int k) {
    switch(vx_pick("op", 0, 4)) {
    case 0: {
        int v = arbitrary();
        Key key(k);
        TB &x = m.insert(key, TB(v));
        r.put(k, v);
        CHECK(x.v == v, "insert returns the value");
        break;
    }
    case 1: {
        Key key(k);
        m.remove(key);
        r.del(k);
        break;
    }
    case 2: {
        int v = arbitrary();
        Key key(k);
        TB &x = m[key];
        if(r.in[k]) CHECK(x.v == r.val[k], "indexing returns the value");
        else CHECK(x.v == -2, "indexing creates a default value");
        x = TB(v);
        r.put(k, v);
        break;
    }
    case 3: {
        Key key(k);
        TB *p = nullptr;
        bool ref = refused([&] { p = &m.at(key); });
        CHECK(ref == !r.in[k], "checked lookup refuses absent keys");
        if(!ref) CHECK(p->v == r.val[k], "checked lookup returns the value");
        break;
    }
    default:
        m.clear();
        r.clear();
    }
}

//@ C15,C11 three keys with hash values from {0, 15, 2^64-1} ({0, 1, 15, 16, 2^64-1}: colliding, neighbouring, wrapping), one (none) of them
//@ always present: every sequence of 4 insertions,
//@ overwrites, lookups, removals, indexings and clears, arbitrary values [time=90/900]
HARNESS(hashmap_history) {
    {
        static const uint64_t hv[] = {0, 15, (uint64_t)-1, 1, 16};
        for(int k = 0; k < 3; ++k) hash_of[k] = hv[vx_pick("hash", 0, QT(2, 4))];
        Map m;
        Model2 r;
        if(!VX_TIER) {
            m.insert(Key(2), TB(77));
            r.put(2, 77);
        }
        for(int s = 0; s < 4; ++s) op(m, r, (int)vx_pick("key", 0, QT(1, 2)));
        check_map(m, r, 3);
    }
    CHECK(Tracked<2>::alive == 0 && TB::alive == 0, "everything is destroyed");
    vx_reach("history");
}

//@ C15 two (three) keys with arbitrary 64-bit hash values: insert all, remove or overwrite each, insert again [time=60/900]
HARNESS(hashmap_hashes) {
    {
        const int nk = QT(2, 3);
        for(int k = 0; k < nk; ++k) hash_of[k] = vx_u64("hash");
        Map m;
        Model2 r;
        for(int k = 0; k < nk; ++k) {
            int v = arbitrary();
            m.insert(Key(k), TB(v));
            r.put(k, v);
        }
        check_map(m, r, nk);
        int d = (int)vx_pick("removed", 0, nk - 1);
        m.remove(Key(d));
        r.del(d);
        check_map(m, r, nk);
        int i = (int)vx_pick("inserted", 0, nk - 1);
        int v = arbitrary();
        m.insert(Key(i), TB(v));
        r.put(i, v);
        check_map(m, r, nk);
        m.remove(Key(i));
        r.del(i);
        check_map(m, r, nk);
    }
    CHECK(Tracked<2>::alive == 0 && TB::alive == 0, "everything is destroyed");
    vx_reach("history");
}

static uint64_t pattern(int p, int k) {
    switch(p) {
    case 0: return (uint64_t)k;
    case 1: return 7;
    case 2: return (uint64_t)k * 16;
    case 3: return ~(uint64_t)k;
    case 4: return (uint64_t)k << 58;
    default: return (uint64_t)k * 0x9E3779B97F4A7C15ull;
    }
}
//@ C15,C11 six families of hash values (distinct, all equal, equal low bits, negative, high bits only, mixed), 0 to 40 keys so that the
//@ table grows; remove any contiguous part, insert some again, copies of own keys and values as arguments, empty it and use it again
//@ [time=60/900]
HARNESS(hashmap_growth) {
    {
        int p = (int)vx_pick("pattern", 0, 5);
        for(int k = 0; k < NK; ++k) hash_of[k] = pattern(p, k);
        Map m;
        Model2 r;
        static const int sizes[] = {0, 1, 12, 13, 14, 26, 40};
        int n = sizes[vx_pick("n", 0, 6)];
        for(int k = 0; k < n; ++k) {
            int v = arbitrary();
            m.insert(Key(k), TB(v));
            r.put(k, v);
        }
        check_map(m, r, n + 2);
        int from = n / 3 * (int)vx_pick("from", 0, 2), len = n / 3 * (int)vx_pick("len", 0, 3);
        for(int k = from; k < n && k < from + len; ++k) {
            m.remove(Key(k));
            r.del(k);
        }
        check_map(m, r, n + 2);
        switch(vx_pick("then", 0, 4)) {
        case 0:
            for(int k = from; k < n && k < from + len; ++k) {
                int v = arbitrary();
                m[Key(k)] = TB(v);
                r.put(k, v);
            }
            break;
        case 1:
            for(int k = 0; k < n; ++k) {
                m.remove(Key(k));
                r.del(k);
            }
            check_map(m, r, n + 2);
            m.insert(Key(0), TB(3));
            r.put(0, 3);
            break;
        case 2: // a key of the map itself as the argument
            if(r.n) {
                auto it = m.begin();
                int k = (*it).key->v;
                int v = arbitrary();
                m.insert(*(*it).key, TB(v));
                r.put(k, v);
                if(vx_pick("remove", 0, 1)) {
                    auto jt = m.begin();
                    int q = (*jt).key->v;
                    m.remove(*(*jt).key);
                    r.del(q);
                }
            }
            break;
        case 3: {
            m.clear();
            r.clear();
            check_map(m, r, n + 2);
            m.insert(Key(1), TB(4));
            r.put(1, 4);
            break;
        }
        default: {
            Map o(move(m));
            check_map(o, r, n + 2);
            {
                Map q;
                q.insert(Key(n), TB(5));
                q = move(o);
                check_map(q, r, n + 2);
            }
            CHECK(Tracked<2>::alive == 0 && TB::alive == 0, "everything is destroyed");
            return;
        }
        }
        check_map(m, r, n + 2);
    }
    CHECK(Tracked<2>::alive == 0 && TB::alive == 0, "everything is destroyed");
    vx_reach("history");
}

//@ C15,C11 rounds of inserting and removing 1 to 40 keys one after another with 0 to 3 keys staying in, six families of hash values
HARNESS(hashmap_churn) {
    {
        int p = (int)vx_pick("pattern", 0, 5);
        for(int k = 0; k < NK; ++k) hash_of[k] = pattern(p, k);
        Map m;
        Model2 r;
        int stay = (int)vx_pick("staying", 0, 3), width = (int)vx_pick("width", 1, 3);
        for(int k = 0; k < stay; ++k) {
            int v = arbitrary();
            m.insert(Key(NK - 1 - k), TB(v));
            r.put(NK - 1 - k, v);
        }
        for(int k = 0; k < 40; ++k) {
            int v = arbitrary();
            m.insert(Key(k), TB(v));
            r.put(k, v);
            if(k >= width) {
                m.remove(Key(k - width));
                r.del(k - width);
            }
            Key absent(k - width < 0 ? k + 1 : k - width);
            CHECK(!m.contains(absent), "absent key");
            CHECK(m.lookup(Key(k)) && m.lookup(Key(k))->v == v, "latest value");
        }
        check_map(m, r, NK);
    }
    CHECK(Tracked<2>::alive == 0 && TB::alive == 0, "everything is destroyed");
    vx_reach("history");
}

//@ C15,C11 hash sets: three keys with hash values from {0, 15, 2^64-1}, every sequence of 4 (5) insertions, removals and clears; iteration
HARNESS(hashset_history) {
    {
        static const uint64_t hv[] = {0, 15, (uint64_t)-1};
        for(int k = 0; k < 3; ++k) hash_of[k] = hv[vx_pick("hash", 0, 2)];
        Set s;
        bool in[3] = {};
        for(int i = 0; i < QT(4, 5); ++i) {
            int k = (int)vx_pick("key", 0, 2);
            switch(vx_pick("op", 0, 2)) {
            case 0: {
                auto res = s.insert(Key(k));
                CHECK(res.second == !in[k], "insert says whether the key is new");
                in[k] = true;
                break;
            }
            case 1:
                s.remove(Key(k));
                in[k] = false;
                break;
            default:
                s.clear();
                for(auto &x : in) x = false;
            }
            size_t n = in[0] + in[1] + in[2];
            CHECK(s.size() == n && s.is_empty() == (n == 0), "size");
            for(int q = 0; q < 3; ++q) CHECK(s.contains(Key(q)) == in[q], "exactly the keys inserted and not removed");
            bool seen[3] = {};
            size_t cnt = 0;
            for(auto &k2 : s) {
                k2.ok();
                CHECK(k2.v >= 0 && k2.v < 3 && in[k2.v] && !seen[k2.v], "iteration visits each key once");
                seen[k2.v] = true;
                ++cnt;
            }
            CHECK(cnt == n, "iteration visits every key");
            CHECK(Tracked<2>::alive == (long)n, "exactly the contained objects are alive");
        }
    }
    CHECK(Tracked<2>::alive == 0, "everything is destroyed");
    vx_reach("history");
}

//@ C15 the library's own hash: 0 to 30 integer and string keys, arbitrary values, every second one removed, lookups of present and absent keys
HARNESS(hashmap_own_hash) {
    size_t n = vx_pick("n", 0, QT(20, 30));
    HashMap<int64_t, int> a;
    HashMap<CString, int> b;
    HashSet<uint16_t> c;
    int val[32];
    auto text = [](size_t i) {
        CString s;
        for(size_t k = 0; k <= i; ++k) s.append((char)('a' + k));
        return s;
    };
    for(size_t i = 0; i < n; ++i) {
        val[i] = arbitrary();
        a.insert((int64_t)(i * 1000003) - 7, val[i]);
        b.insert(text(i), val[i]);
        c.insert((uint16_t)(i * 5));
    }
    for(size_t i = 0; i < n; i += 2) {
        a.remove((int64_t)(i * 1000003) - 7);
        b.remove(text(i));
        c.remove((uint16_t)(i * 5));
    }
    CHECK(a.size() == n / 2 && b.size() == n / 2 && c.size() == n / 2, "size");
    bool same = true;
    for(size_t i = 0; i < n; ++i) {
        auto *x = a.lookup((int64_t)(i * 1000003) - 7);
        auto *y = b.lookup(text(i));
        CHECK((x != nullptr) == (i % 2 == 1) && (y != nullptr) == (i % 2 == 1) && c.contains((uint16_t)(i * 5)) == (i % 2 == 1),
              "exactly the keys inserted and not removed");
        if(x && y) same &= *x == val[i] && *y == val[i];
    }
    CHECK(same, "latest values");
    CHECK(!a.contains(5) && !b.contains(CString("zz")) && !c.contains(3), "absent key");
    int cnt = 0;
    for(auto kv : b) {
        CHECK(*b.lookup(*kv.key) == *kv.value, "iteration shows the values");
        ++cnt;
    }
    CHECK(cnt == (int)(n / 2), "iteration visits every key");
    vx_reach("done");
}

//@ C15 the library's own hash, 100 to 3000 integer keys in four families with a few arbitrary values: grown, thinned out (every second, the
//@ first or last half, all but few), overwritten, refilled, iterated; the map and a set [flags=--steps 60000000]
HARNESS(hashmap_large) {
    static const uint16_t sizes[] = {100, 200, 207, 208, 500, 1000, 1700, 3000};
    int n = sizes[vx_pick("n", 0, 7)], fam = (int)vx_pick("family", 0, 3), how = (int)vx_pick("thin", 0, 3);
    HashMap<int64_t, int> m;
    HashSet<int64_t> s;
    auto key = [&](int i) { return fam == 0 ? (int64_t)i : fam == 1 ? (int64_t)i * 65536 - 99 : fam == 2 ? -(int64_t)i << 32 : (int64_t)((uint64_t)i * 0x9E3779B97F4A7C15ull); };
    auto keep = [&](int i) { return how == 0 ? i % 2 == 0 : how == 1 ? i < n / 2 : how == 2 ? i >= n / 2 : i % 97 == 5; };
    int x = (int)vx_sym("value", 32), y = (int)vx_sym("value", 32);
    auto value = [&](int i) { return i == n / 2 ? x : i == n - 2 ? y : i * 3; };
    for(int i = 0; i < n; ++i) {
        m.insert(key(i), i == 7 ? 12345 : value(i));
        CHECK(s.insert(key(i)).second, "insert says whether the key is new");
    }
    m.insert(key(7), value(7));
    CHECK(!s.insert(key(7)).second, "insert says whether the key is new");
    auto check = [&](bool thinned) {
        size_t cnt = 0;
        for(int i = 0; i < n; ++i) {
            bool in = !thinned || keep(i);
            cnt += in;
            int *p = m.lookup(key(i));
            CHECK((p != nullptr) == in && s.contains(key(i)) == in, "exactly the keys inserted and not removed");
            if(p) CHECK(*p == value(i), "latest values");
        }
        CHECK(m.size() == cnt && s.size() == cnt, "size");
        CHECK(!m.contains(key(n)) && !m.contains(-5) && !s.contains(key(n + 1)), "absent key");
        size_t k = 0;
        for(auto kv : m) {
            (void)kv;
            ++k;
        }
        for(auto &q : s) {
            (void)q;
            --k;
        }
        CHECK(k == 0, "iteration visits every key");
    };
    check(false);
    for(int i = 0; i < n; ++i) {
        if(keep(i)) continue;
        m.remove(key(i));
        s.remove(key(i));
        m.remove(key(i));
    }
    check(true);
    for(int i = 0; i < n; ++i)
        if(!keep(i)) m[key(i)] = value(i), s.insert(key(i));
    check(false);
    m.clear();
    s.clear();
    CHECK(m.is_empty() && s.is_empty() && !m.contains(key(0)) && !s.contains(key(0)) && !(m.begin() != m.end()), "cleared");
    m.insert(key(0), 1);
    CHECK(m.size() == 1 && m.at(key(0)) == 1, "usable again");
    vx_reach("done");
}
