// C13: Variant.  C11: lifetimes of the held objects.
#include "tracked.hpp"
#include <pystd2026_variant.hpp>

typedef Variant<TA, int, CString, TB> VV; // alternatives 0..3
static const int LONG_LEN = 40;
// The model: which alternative and which value (a number; CString holds one letter repeated).
struct M {
    int idx = 0;
    int v = -2;
};
static CString text(int v) {
    CString s;
    for(int i = 0; i < (v & 1 ? LONG_LEN : 3); ++i) s.append((char)('a' + (v & 15)));
    return s;
}
static int arbitrary() { return (int)vx_sym("value", 4); }
static bool text_is(const CString &s, int v) {
    if(v < 0) return true;
    size_t n = v & 1 ? LONG_LEN : 3;
    if(s.size() != n) return false;
    unsigned bad = 0;
    for(size_t i = 0; i < n; ++i) bad |= (unsigned)(unsigned char)s[i] ^ (unsigned)('a' + (v & 15));
    return bad == 0;
}
static void check_one(VV &v, const M &m) {
    const VV &c = v;
    CHECK(v.index() == m.idx, "index");
    CHECK(v.contains<TA>() == (m.idx == 0) && v.contains<int>() == (m.idx == 1) && v.contains<CString>() == (m.idx == 2) &&
              v.contains<TB>() == (m.idx == 3),
          "type tests");
    CHECK((v.get_if<TA>() != nullptr) == (m.idx == 0) && (v.get_if<int>() != nullptr) == (m.idx == 1) &&
              (v.get_if<CString>() != nullptr) == (m.idx == 2) && (v.get_if<TB>() != nullptr) == (m.idx == 3),
          "conditional access");
    CHECK((c.get_if<TA>() != nullptr) == (m.idx == 0) && (c.get_if<int>() != nullptr) == (m.idx == 1) &&
              (c.get_if<CString>() != nullptr) == (m.idx == 2) && (c.get_if<TB>() != nullptr) == (m.idx == 3),
          "conditional access to a constant variant");
    CHECK(refused([&] { (void)v.get<TA>(); }) == (m.idx != 0) && refused([&] { (void)v.get<int>(); }) == (m.idx != 1) &&
              refused([&] { (void)v.get<CString>(); }) == (m.idx != 2) && refused([&] { (void)v.get<TB>(); }) == (m.idx != 3),
          "access as another alternative is refused");
    CHECK(refused([&] { (void)c.get<TA>(); }) == (m.idx != 0) && refused([&] { (void)c.get<int>(); }) == (m.idx != 1) &&
              refused([&] { (void)c.get<CString>(); }) == (m.idx != 2) && refused([&] { (void)c.get<TB>(); }) == (m.idx != 3),
          "access to a constant variant as another alternative is refused");
    switch(m.idx) {
    case 0: CHECK(v.get<TA>().v == m.v && c.get_if<TA>()->v == m.v, "value"); break;
    case 1: CHECK(v.get<int>() == m.v && *c.get_if<int>() == m.v, "value"); break;
    case 2: CHECK(text_is(v.get<CString>(), m.v) && v.get_if<CString>() == &c.get<CString>(), "value"); break;
    default: CHECK(v.get<TB>().v == m.v && c.get_if<TB>()->v == m.v, "value");
    }
}
static void put(VV &v, M &m) {
    m.idx = (int)vx_pick("alternative", 0, 3);
    if(m.idx != 2) m.v = arbitrary();
    switch(m.idx) {
    case 0: v.insert(TA(m.v)); break;
    case 1: v.insert<int>(m.v); break;
    case 2: m.v = (int)vx_pick("text", 2, 3); v.insert(text(m.v)); break;
    default: v.insert(TB(m.v));
    }
}
static void moved(M &m) {
    if(m.idx != 1) m.v = -1;
}

//@ C13,C11 two variants of four alternatives (tracked, int, string, tracked): any content, then every sequence of 2 (3) insertions,
//@ copies and moves between them, also onto themselves and from their own content, arbitrary values [time=90/900]
HARNESS(variant_history) {
    {
        VV a, b;
        M ma, mb;
        check_one(a, ma);
        put(a, ma);
        if(vx_pick("second", 0, 1)) put(b, mb);
        for(size_t s = 0; s < QT(2, 3); ++s) {
            switch(vx_pick("op", 0, 7)) {
            case 0: put(a, ma); break;
            case 1: put(b, mb); break;
            case 2:
                vx_assume(mb.idx != 2 || mb.v >= 0);
                a = b;
                ma = mb;
                break;
            case 3:
                if(mb.idx == 2 && mb.v < 0) vx_end();
                a = move(b);
                ma = mb;
                moved(mb);
                break;
            case 4:
                if(mb.idx == 2 && mb.v < 0) vx_end();
                a = a;
                a = move(a);
                break;
            case 5: { // from its own content
                if(ma.idx == 0) a.insert(a.get<TA>());
                else if(ma.idx == 1) a.insert(a.get<int>());
                else if(ma.idx == 3) a.insert(move(a.get<TB>()));
                else if(ma.v >= 0) a.insert(a.get<CString>());
                break;
            }
            case 6: {
                if(mb.idx == 2 && mb.v < 0) vx_end();
                const VV &cb = b;
                VV c(cb);
                M mc = mb;
                check_one(c, mc);
                CHECK(c == b && b == c, "a copy equals its original");
                put(c, mc);
                check_one(b, mb);
                break;
            }
            default: {
                if(mb.idx == 2 && mb.v < 0) vx_end();
                VV c(move(b));
                check_one(c, mb);
                moved(mb);
                b = c;
                mb = M();
                mb.idx = c.index();
                mb.v = c.contains<TA>() ? c.get<TA>().v : c.contains<int>() ? c.get<int>() : c.contains<TB>() ? c.get<TB>().v : -1;
                if(mb.idx == 2) {
                    // the text came back with the copy
                    CHECK(b.get<CString>() == c.get<CString>(), "value");
                    b.insert(text(2));
                    mb.v = 2;
                }
            }
            }
            if(!(ma.idx == 2 && ma.v < 0)) check_one(a, ma);
            if(!(mb.idx == 2 && mb.v < 0)) check_one(b, mb);
            CHECK(TA::alive == (ma.idx == 0) + (mb.idx == 0) && TB::alive == (ma.idx == 3) + (mb.idx == 3),
                  "exactly the held objects are alive");
        }
    }
    CHECK(TA::alive == 0 && TB::alive == 0, "everything is destroyed");
    vx_reach("history");
}

//@ C13 direct construction from every alternative: as a temporary, a variable and a constant; copies of variables; comparison of any
//@ two variants
HARNESS(variant_construct) {
    {
        int x = arbitrary();
        int how = (int)vx_pick("how", 0, 2);
        const int idx = (int)vx_pick("alternative", 0, 3);
        M m;
        m.idx = idx;
        m.v = x;
        TA ta(x);
        TB tb(x);
        const TA cta(x);
        const TB ctb(x);
        int i = x;
        const int ci = x;
        if(idx == 2) x = m.v = (int)vx_pick("text", 2, 3);
        CString t = text(x);
        const CString ct = text(x);
        auto one = [&](VV v) {
            check_one(v, m);
            VV w(v);
            check_one(w, m);
            CHECK(w == v, "a copy equals its original");
            VV o;
            M mo;
            put(o, mo);
            bool eq = mo.idx == m.idx && mo.v == m.v;
            CHECK((o == v) == eq && (v == o) == eq && (v != o) == !eq, "equality");
        };
        switch(idx * 3 + how) {
        case 0: one(VV(TA(x))); break;
        case 1: one(VV(ta)); break;
        case 2: one(VV(cta)); break;
        case 3: one(VV((int)x)); break;
        case 4: one(VV(i)); break;
        case 5: one(VV(ci)); break;
        case 6: one(VV(text(x))); break;
        case 7: one(VV(t)); break;
        case 8: one(VV(ct)); break;
        case 9: one(VV(TB(x))); break;
        case 10: one(VV(tb)); break;
        default: one(VV(ctb));
        }
        CHECK(ta.v == ci && tb.v == ci && cta.v == ci && ctb.v == ci && i == ci, "the source is left alone");
    }
    CHECK(TA::alive == 0 && TB::alive == 0, "everything is destroyed");
    vx_reach("constructed");
}

// thirty different alternatives
template<int... I> struct Ints {};
template<typename Q, Q... I> struct Seqq {
    typedef Ints<(int)I...> type;
};
typedef __make_integer_seq<Seqq, int, 30>::type I30;
template<int TAG> struct Big : Tracked<TAG + 100> {
    using Tracked<TAG + 100>::Tracked;
    long pad[TAG % 4 + 1]{};
};
template<int... I> Variant<Big<I>...> make30(Ints<I...>);
typedef decltype(make30(I30())) V30;
template<int... I> static long alive30(Ints<I...>) { return (Tracked<I + 100>::alive + ...); }
template<int... I> static bool none30(Ints<I...>) { return ((Tracked<I + 100>::alive == 0) && ...); }
template<int I> static bool at30(V30 &v, int want, int x) {
    const V30 &c = v;
    bool in = I == want;
    bool r = v.contains<Big<I>>() == in && (v.get_if<Big<I>>() != nullptr) == in && (c.get_if<Big<I>>() != nullptr) == in;
    if(in && r) {
        r = v.get<Big<I>>().v == x;
        v.get<Big<I>>().ok();
    }
    return r;
}
template<int... I> static bool check30(V30 &v, int want, int x, Ints<I...>) {
    return v.index() == want && (at30<I>(v, want, x) && ...);
}
template<int I> static void put_one(V30 &v, int which, int x, bool construct) {
    if(which != I) return;
    if(construct) {
        Big<I> t(x);
        const Big<I> &ct = t;
        V30 w(ct);
        V30 w2(t);
        V30 w3{Big<I>(x)};
        CHECK(w.index() == I && w2.index() == I && w3.index() == I && w.get<Big<I>>().v == x && w2.get<Big<I>>().v == x &&
                  w3.get<Big<I>>().v == x,
              "constructed alternative");
        v = move(w);
    } else v.insert(Big<I>(x));
}
template<int... I> static void put30(V30 &v, int which, int x, bool construct, Ints<I...>) {
    (put_one<I>(v, which, x, construct), ...);
}
//@ C13,C11 a variant with the maximum of 30 alternatives of different sizes: every pair of alternatives, every way of construction,
//@ copy and move construction and assignment, arbitrary values
HARNESS(variant_thirty) {
    {
        int i = (int)vx_pick("first", 0, 29), j = (int)vx_pick("second", 0, 29);
        bool construct = vx_pick("construct", 0, 1);
        int x = arbitrary(), y = arbitrary();
        V30 a, b;
        put30(a, i, x, construct, I30());
        put30(b, j, y, construct, I30());
        CHECK(check30(a, i, x, I30()) && check30(b, j, y, I30()), "value put in");
        const V30 &cb = b;
        switch(vx_pick("op", 0, 3)) {
        case 0:
            a = cb;
            CHECK(check30(a, j, y, I30()) && check30(b, j, y, I30()), "copy assignment");
            CHECK(a == b, "a copy equals its original");
            break;
        case 1:
            a = move(b);
            CHECK(check30(a, j, y, I30()), "move assignment");
            break;
        case 2: {
            V30 c(cb);
            CHECK(check30(c, j, y, I30()) && check30(b, j, y, I30()), "copy construction");
            CHECK((c == a) == (i == j && x == y), "equality");
            CHECK(alive30(I30()) == 3, "exactly the held objects are alive");
            break;
        }
        default: {
            V30 c(move(b));
            CHECK(check30(c, j, y, I30()), "move construction");
            b = cb;
        }
        }
        CHECK(alive30(I30()) == 2, "exactly the held objects are alive");
    }
    CHECK(none30(I30()), "every object is destroyed, as what it is");
    vx_reach("thirty");
}

//@ C13,C11 a copy that throws leaves the variant with the value it had, every pair of alternatives
HARNESS(variant_throwing_copy) {
    {
        VV a, b;
        M ma, mb;
        put(a, ma);
        put(b, mb);
        bool threw = false;
        boom_at = mb.idx == 0 || mb.idx == 3 ? 1 : 0;
        bool assign = vx_pick("assign", 0, 1);
        const VV &cb = b;
        try {
            if(assign) a = cb;
            else VV c(cb);
        } catch(const Boom &) {
            threw = true;
        }
        CHECK(threw == (mb.idx == 0 || mb.idx == 3), "the exception arrives");
        boom_at = 0;
        if(!threw && assign) ma = mb;
        check_one(a, ma);
        check_one(b, mb);
        CHECK(TA::alive == (ma.idx == 0) + (mb.idx == 0) && TB::alive == (ma.idx == 3) + (mb.idx == 3), "exactly the held objects are alive");
        if(threw) vx_reach("threw");
    }
    CHECK(TA::alive == 0 && TB::alive == 0, "everything is destroyed");
    vx_reach("done");
}
