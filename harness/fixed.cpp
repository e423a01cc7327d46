// C08: fixed-capacity string and vector.  C11: element lifetimes of the fixed vector.
#include "tracked.hpp"

typedef FixedCString<4> F4;
template<size_t N> static void check_fixed(const FixedCString<N> &f, const char *p, size_t n) {
    CHECK(f.size() == n && f.is_empty() == (n == 0), "size");
    CHECK(same_bytes(f.c_str(), p, n) && f.c_str()[f.size()] == 0, "contents, zero terminated");
    CHECK(f.view().data() == f.c_str() && f.view().size() == n, "the view covers the contents");
}

//@ C08 a string of capacity 4 built from every C string of at most 6 (7) bytes and every unterminated buffer of at most 6 (7) bytes with its length
HARNESS(fixed_construct) {
    size_t n = vx_pick("n", 0, QT(6, 7));
    bool term = vx_pick("terminated", 0, 1);
    if(term) {
        RawZ t("t", n);
        bool r = refused([&] {
            F4 f(t.p);
            check_fixed(f, t.p, n);
        });
        CHECK(r == (n > 4), "exactly what does not fit is refused");
        vx_reach(r ? "refused" : "built");
    } else {
        Raw t("t", n);
        bool r = refused([&] {
            F4 f(t.p, (uint32_t)n);
            check_fixed(f, t.p, n);
        });
        CHECK(r == (n > 4), "exactly what does not fit is refused");
    }
}

//@ C08 a string of capacity 4 and one of capacity 2, every sequence of 3 (4) assignments (views, the other size, itself, parts of itself), copies, moves and pops
//@ [time=100/900]
HARNESS(fixed_history) {
    F4 a, b;
    FixedCString<2> c;
    struct M {
        char d[8];
        size_t n = 0;
        void set(const char *p, size_t k) {
            char t[8];
            for(size_t i = 0; i < k; ++i) t[i] = p[i];
            for(size_t i = 0; i < k; ++i) d[i] = t[i];
            n = k;
        }
    } ma, mb, mc;
    size_t steps = vx_pick("steps", 0, QT(3, 4));
    for(size_t s = 0; s < steps; ++s) {
        switch(vx_pick("op", 0, 9)) {
        case 0: {
            size_t n = vx_pick("n", 0, 5);
            Raw t("t", n);
            bool r = refused([&] { a = CStringView(t.p, n); });
            CHECK(r == (n > 4), "exactly what does not fit is refused");
            if(!r) ma.set(t.p, n);
            break;
        }
        case 1: {
            size_t n = vx_pick("n", 0, 3);
            Raw t("t", n);
            bool r = refused([&] { c = CStringView(t.p, n); });
            CHECK(r == (n > 2), "exactly what does not fit is refused");
            if(!r) mc.set(t.p, n);
            break;
        }
        case 2: {
            const F4 &x = b;
            a = x;
            ma = mb;
            break;
        }
        case 3:
            b = move(a);
            mb = ma;
            ma.n = 0;
            break;
        case 4:
            a = c;
            ma = mc;
            break;
        case 5: {
            bool r = refused([&] { c = a; });
            CHECK(r == (ma.n > 2), "exactly what does not fit is refused");
            if(!r) mc = ma;
            break;
        }
        case 6: {
            size_t from = vx_pick("from", 0, ma.n), to = vx_pick("to", from, ma.n);
            bool r = refused([&] { a = CStringView(a.c_str() + from, to - from); });
            CHECK(!r || from != 0, "a prefix of the string itself can be assigned");
            if(!r) ma.set(ma.d + from, to - from);
            break;
        }
        case 7: {
            F4 t(a), u(move(t));
            check_fixed(t, ma.d, 0);
            check_fixed(u, ma.d, ma.n);
            b = u;
            mb = ma;
            break;
        }
        case 8:
            a.pop_back();
            if(ma.n) --ma.n;
            break;
        default: {
            F4 &x = a;
            if(vx_pick("self", 0, 1)) a = move(x);
            else a = (const F4 &)x;
        }
        }
        check_fixed(a, ma.d, ma.n);
        check_fixed(b, mb.d, mb.n);
        check_fixed(c, mc.d, mc.n);
    }
    vx_reach("done");
}

//@ C08 every index over 32 bits of strings of at most 4 characters (the terminator may be read)
HARNESS(fixed_index) {
    size_t n = vx_pick("n", 0, 4);
    Raw t("t", n);
    F4 f(t.p, (uint32_t)n);
    const F4 &c = f;
    uint32_t i = vx_u32("i");
    bool r = refused([&] { vx_assert(f[i] == (i < n ? t.p[i] : 0), "the character at the index"); });
    bool rc = refused([&] { vx_assert(c[i] == (i < n ? t.p[i] : 0), "the character at the index"); });
    CHECK(r == (i > n) && rc == r, "access is refused exactly outside the string");
    vx_reach(r ? "refused" : "read");
}

//@ C08 comparison of strings of at most 4 arbitrary bytes with every view of at most 5 bytes and C string of at most 5 bytes
HARNESS(fixed_compare) {
    size_t n = vx_pick("n", 0, 4), k = vx_pick("k", 0, 5);
    Raw t("t", n);
    F4 f(t.p, (uint32_t)n);
    if(vx_pick("view", 0, 1)) {
        Raw u("u", k);
        bool eq = f == CStringView(u.p, k);
        CHECK(eq == (n == k && same_bytes(t.p, u.p, n)), "equal exactly when the contents are");
        vx_reach(eq ? "equal" : "different");
    } else {
        RawZ u("u", k);
        bool eq = f == (const char *)u.p;
        CHECK(eq == (n == k && same_bytes(t.p, u.p, n)), "equal exactly when the contents are");
    }
}

struct Seq {
    int d[8];
    size_t n = 0;
};
typedef FixedVector<TA, 3> FV;
//@ C08,C11 two fixed vectors of capacity 3, one of them prefilled with 0 to 3 elements, every sequence of 3 (4) operations: push, emplace, try variants, insert anywhere (also own elements), delete, pops, moving append, moves
//@ [time=120/1500]
HARNESS(fixed_vector_history) {
    {
        FV v[2];
        Seq m[2];
        for(size_t i = vx_pick("fill", 0, 3); i > 0; --i) {
            int val = (int)vx_sym("value", 8);
            v[0].emplace_back(val);
            m[0].d[m[0].n++] = val;
        }
        size_t steps = vx_pick("steps", 0, QT(3, 4));
        for(size_t s = 0; s < steps; ++s) {
            size_t i = vx_pick("which", 0, 1);
            FV &a = v[i];
            Seq &x = m[i];
            bool full = x.n == 3;
            switch(vx_pick("op", 0, 8)) {
            case 0: {
                int val = (int)vx_sym("value", 8);
                unsigned how = vx_pick("how", 0, 5);
                bool r = false;
                {
                    TA t(val);
                    const TA &c = t;
                    switch(how) {
                    case 0: r = refused([&] { a.push_back(c); }); break;
                    case 1: r = refused([&] { a.push_back(move(t)); }); break;
                    case 2: r = !a.try_push_back(c); break;
                    case 3: r = !a.try_push_back(move(t)); break;
                    case 4: r = refused([&] { a.emplace_back(val); }); break;
                    default: r = !a.try_emplace_back(val); break;
                    }
                    if(r) CHECK(t.v == val, "a refused push leaves its argument alone");
                }
                CHECK(r == full, "exactly a full vector refuses");
                if(!r) x.d[x.n++] = val;
                break;
            }
            case 1: {
                int val = (int)vx_sym("value", 8);
                size_t at = vx_pick("at", 0, 4);
                bool r = refused([&] { a.insert(at, TA(val)); });
                CHECK(r == (full || at > x.n), "insertion is refused exactly when full or outside");
                if(!r) {
                    for(size_t q = x.n; q > at; --q) x.d[q] = x.d[q - 1];
                    x.d[at] = val;
                    ++x.n;
                }
                break;
            }
            case 2:
                if(x.n && !full) {
                    size_t at = vx_pick("at", 0, x.n), own = vx_pick("own", 0, x.n - 1);
                    a.insert(at, move(a[own]));
                    int val = x.d[own];
                    x.d[own] = -1;
                    for(size_t q = x.n; q > at; --q) x.d[q] = x.d[q - 1];
                    x.d[at] = val;
                    ++x.n;
                }
                break;
            case 3: {
                size_t at = vx_pick("at", 0, 3);
                bool r = refused([&] { a.delete_at(at); });
                CHECK(r == (at >= x.n), "deletion is refused exactly outside");
                if(!r) {
                    for(size_t q = at + 1; q < x.n; ++q) x.d[q - 1] = x.d[q];
                    --x.n;
                }
                break;
            }
            case 4:
                a.pop_back();
                if(x.n) --x.n;
                break;
            case 5:
                a.pop_front();
                if(x.n) {
                    for(size_t q = 1; q < x.n; ++q) x.d[q - 1] = x.d[q];
                    --x.n;
                }
                break;
            case 6: {
                size_t j = vx_pick("from", 0, 1);
                bool r = refused([&] { a.move_append(v[j]); });
                CHECK(r == (i == j || x.n + m[j].n > 3), "appending is refused exactly when it does not fit");
                if(!r) {
                    for(size_t q = 0; q < m[j].n; ++q) {
                        x.d[x.n++] = m[j].d[q];
                        m[j].d[q] = -1;
                    }
                    if(v[j].size() == 0) m[j].n = 0; // the source keeps moved-from elements or none
                }
                break;
            }
            case 7: {
                size_t j = vx_pick("from", 0, 1);
                a = move(v[j]);
                if(i != j) x = m[j], m[j].n = 0;
                break;
            }
            default: {
                FV t(move(a));
                CHECK(a.size() == 0 && a.is_empty(), "a moved-from vector is empty");
                v[1 - i] = move(t);
                m[1 - i] = x;
                x.n = 0;
            }
            }
            for(size_t k = 0; k < 2; ++k) {
                CHECK(v[k].size() == m[k].n && v[k].is_full() == (m[k].n == 3) && v[k].is_empty() == (m[k].n == 0) && v[k].capacity() == 3, "size");
                bool same = true;
                size_t q = 0;
                for(auto &e : v[k]) {
                    e.ok();
                    same &= e.v == m[k].d[q++];
                }
                CHECK(same && q == m[k].n, "elements in order");
            }
            CHECK(TA::alive == (long)(m[0].n + m[1].n), "exactly the contained elements are alive");
        }
    }
    CHECK(TA::alive == 0, "everything is destroyed with the vectors");
    vx_reach("done");
}

//@ C08 every index over 64 bits, first and last, in fixed vectors of 0 to 3 arbitrary elements
HARNESS(fixed_vector_index) {
    size_t n = vx_pick("n", 0, 3);
    FixedVector<int, 3> v;
    int a[3];
    for(size_t i = 0; i < n; ++i) v.push_back(a[i] = (int)vx_sym("value", 32));
    const FixedVector<int, 3> &c = v;
    uint64_t idx = vx_u64("index");
    bool r[4];
    r[0] = refused([&] { vx_assert(v[idx] == a[idx], "the element at the index"); });
    r[1] = refused([&] { vx_assert(c[idx] == a[idx], "the element at the index"); });
    r[2] = refused([&] {
        v.delete_at(idx);
        vx_assert(v.size() == n - 1, "one element is gone");
    });
    CHECK(r[0] == (idx >= n) && r[1] == r[0] && r[2] == r[0], "access is refused exactly outside");
    if(r[0]) {
        r[0] = refused([&] { vx_assert(v.front() == a[0], "first element"); });
        r[1] = refused([&] { vx_assert(c.front() == a[0], "first element"); });
        r[2] = refused([&] { vx_assert(v.back() == a[n - 1], "last element"); });
        r[3] = refused([&] { vx_assert(c.back() == a[n - 1], "last element"); });
        for(bool x : r) CHECK(x == (n == 0), "first and last are refused exactly when empty");
        for(size_t i = 0; i < n; ++i) CHECK(v.unsafe_at(i) == a[i] && c.unsafe_at(i) == a[i] && v.data()[i] == a[i] && v.span()[i] == a[i] && c.span()[i] == a[i], "all accessors agree");
        CHECK(v.span().size() == n && c.span().size() == n, "spans cover the vector");
        vx_reach("outside");
    }
}

template<size_t N> static void fixed_long_one() {
    static const int near[] = {-2, -1, 0, 1, 2};
    size_t n = N + near[vx_pick("n", 0, 4)];
    RawZ t("t", 0);
    char *p = (char *)malloc(n + 1);
    letters(p, n);
    p[n] = 0;
    const size_t at[] = {0, n / 2, n - 1};
    for(size_t i : at) {
        p[i] = (char)vx_u8("c");
        vx_assume(p[i] != 0);
    }
    bool fits = n <= N;
    FixedCString<N> f, g;
    bool r = true;
    switch(vx_pick("how", 0, 3)) {
    case 0: r = refused([&] { f = FixedCString<N>(p); }); break;
    case 1: r = refused([&] { f = FixedCString<N>(p, (uint32_t)n); }); break;
    case 2: r = refused([&] { f = CStringView(p, n); }); break;
    default: {
        FixedCString<N + 5> big(p);
        r = refused([&] { f = big; });
    }
    }
    CHECK(r == !fits, "exactly what does not fit is refused");
    if(r) check_fixed(f, p, 0);
    else {
        check_fixed(f, p, n);
        CHECK(f == (const char *)p && f == CStringView(p, n) && !(f == CStringView(p, n - 1)), "equal exactly when the contents are");
        g = f;
        check_fixed(g, p, n);
        FixedCString<N> h(move(g));
        check_fixed(h, p, n);
        check_fixed(g, p, 0);
        g = move(h);
        check_fixed(g, p, n);
        CHECK(g[(uint32_t)n - 1] == p[n - 1] && refused([&] { (void)g[(uint32_t)n + 1]; }), "access is refused exactly outside the string");
        for(size_t i = n; i > 0; --i) {
            g.pop_back();
            if(i < 4 || i > n - 3) check_fixed(g, p, i - 1);
        }
        CHECK(g.is_empty(), "popped to nothing");
        vx_reach("fits");
    }
    free(p);
}
//@ C08 strings of capacity 15, 63, 64, 127, 128, 254, 255, 256, 257, 300, 1000 with contents 2 shorter to 2 longer than that, three arbitrary characters
HARNESS(fixed_long) {
    switch(vx_pick("capacity", 0, 10)) {
    case 0: return fixed_long_one<15>();
    case 1: return fixed_long_one<63>();
    case 2: return fixed_long_one<64>();
    case 3: return fixed_long_one<127>();
    case 4: return fixed_long_one<128>();
    case 5: return fixed_long_one<254>();
    case 6: return fixed_long_one<255>();
    case 7: return fixed_long_one<256>();
    case 8: return fixed_long_one<257>();
    case 9: return fixed_long_one<300>();
    default: return fixed_long_one<1000>();
    }
}

template<size_t N> static void fixed_vector_long_one() {
    {
        FixedVector<TA, N> v, w;
        static int d[N + 1];
        size_t n = 0;
        size_t fill = vx_pick("fill", 0, 3);
        fill = fill == 0 ? N : fill == 1 ? N - 1 : fill == 2 ? N / 2 : N / 2 + 1;
        int x = (int)vx_sym("value", 8);
        for(; n < fill; ++n) v.emplace_back(d[n] = n == fill / 2 ? x : (int)n);
        auto check = [&](FixedVector<TA, N> &a, const int *e, size_t k) {
            CHECK(a.size() == k && a.is_full() == (k == N) && a.is_empty() == (k == 0) && a.capacity() == N, "size");
            bool same = true;
            size_t q = 0;
            for(auto &o : a) {
                o.ok();
                same &= o.v == e[q++];
            }
            CHECK(same && q == k, "elements in order");
        };
        check(v, d, n);
        const size_t spots[] = {0, 1, n / 2, n - 1, n};
        switch(vx_pick("op", 0, 5)) {
        case 0: {
            size_t at = spots[vx_pick("at", 0, 4)];
            bool r = refused([&] { v.insert(at, TA(x)); });
            CHECK(r == (n == N), "exactly a full vector refuses");
            if(!r) {
                for(size_t q = n; q > at; --q) d[q] = d[q - 1];
                d[at] = x;
                ++n;
            }
            break;
        }
        case 1: {
            size_t at = spots[vx_pick("at", 0, 4)];
            bool r = refused([&] { v.delete_at(at); });
            CHECK(r == (at >= n), "deletion is refused exactly outside");
            if(!r) {
                for(size_t q = at + 1; q < n; ++q) d[q - 1] = d[q];
                --n;
            }
            break;
        }
        case 2: {
            w = move(v);
            check(w, d, n);
            FixedVector<TA, N> u(move(w));
            v = move(u);
            CHECK(w.is_empty() && u.is_empty(), "a moved-from vector is empty");
            break;
        }
        case 3: {
            size_t k = N - n + vx_pick("extra", 0, 1);
            for(size_t q = 0; q < k && q < N; ++q) w.emplace_back((int)q + 50);
            bool r = refused([&] { v.move_append(w); });
            CHECK(r == (n + w.size() > N || (r && n + k > N)), "appending is refused exactly when it does not fit");
            if(!r) {
                for(size_t q = 0; q < k; ++q) d[n++] = (int)q + 50;
            }
            break;
        }
        case 4:
            while(n) {
                v.pop_front();
                for(size_t q = 1; q < n; ++q) d[q - 1] = d[q];
                --n;
                if(n < 3 || n > fill - 3) check(v, d, n);
            }
            break;
        default:
            for(; n < N; ++n) {
                CHECK(v.try_push_back(TA(7)), "room");
                d[n] = 7;
            }
            CHECK(!v.try_push_back(TA(8)) && !v.try_emplace_back(9), "full");
        }
        check(v, d, n);
        CHECK(TA::alive == (long)(v.size() + w.size()), "exactly the contained elements are alive");
    }
    CHECK(TA::alive == 0, "everything is destroyed with the vectors");
    vx_reach("done");
}
//@ C08,C11 vectors of capacity 16, 64, 100 and 256: full, nearly full and half full, insertion and deletion at five places, moves, moving append,
//@ popping all from the front, filling up
HARNESS(fixed_vector_long) {
    switch(vx_pick("capacity", 0, 3)) {
    case 0: return fixed_vector_long_one<16>();
    case 1: return fixed_vector_long_one<64>();
    case 2: return fixed_vector_long_one<100>();
    default: return fixed_vector_long_one<256>();
    }
}
