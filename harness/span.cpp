// C14: spans as bounds checked windows.
#include "util.hpp"

struct Wide {
    int a, b;
    long c;
};

template<typename T> static void window(T *base, size_t n, Span<T> s) {
    CHECK(s.size() == n && s.is_empty() == (n == 0) && s.size_bytes() == n * sizeof(T), "size");
    CHECK(s.data() == base && s.begin() == base && s.cbegin() == base && s.end() == base + n && s.cend() == base + n, "extent");
    const Span<T> &c = s;
    uint64_t i = vx_u64("index");
    bool in = i < n;
    T *p = nullptr;
    const T *q = nullptr, *r = nullptr;
    bool r1 = refused([&] { p = &s[i]; });
    bool r2 = refused([&] { q = &c[i]; });
    bool r3 = refused([&] { r = &s.at(i); });
    CHECK(r1 == !in && r2 == !in && r3 == !in, "element access is checked");
    if(in) CHECK(p == base + i && q == p && r == p, "element access");
}

//@ C14 spans over 0 to 12 (40) elements of 1 and 16 bytes; every 64-bit offset, size and index; a sub-span of a sub-span
HARNESS(span_windows) {
    size_t n = vx_pick("n", 0, QT(12, 40));
    bool wide = vx_pick("wide", 0, 1);
    auto run = [&](auto *base) {
        typedef remove_reference_t<decltype(*base)> T;
        Span<T> s(base, n);
        window(base, n, s);
        uint64_t off = vx_u64("offset"), len = vx_u64("length");
        bool dflt = vx_pick("rest", 0, 1);
        Span<T> t;
        CHECK(t.is_empty() && t.size() == 0 && t.begin() == t.end(), "a default span is empty");
        bool rest = dflt || len == (uint64_t)-1; // the documented meaning of the default size
        bool ok = off <= n && (rest || len <= n - off);
        bool r = refused([&] { t = dflt ? s.subspan(off) : s.subspan(off, len); });
        CHECK(r == !ok, "a request is granted exactly when it lies inside");
        if(!ok) {
            vx_reach("refused");
            return;
        }
        uint64_t want = rest ? n - off : len;
        CHECK(t.size() == want && t.begin() == base + off && t.end() == base + off + want, "exactly the requested elements");
        window(base + off, want, t);
        uint64_t off2 = vx_u64("offset"), len2 = vx_u64("length");
        vx_assume(len2 != (uint64_t)-1);
        Span<T> u(t);
        bool r2 = refused([&] { u = t.subspan(off2, len2); });
        CHECK(r2 == !(off2 <= want && len2 <= want - off2), "a request is granted exactly when it lies inside");
        if(!r2) {
            CHECK(u.size() == len2 && u.begin() == base + off + off2, "exactly the requested elements");
            vx_reach("nested");
        }
        Span<T> m(move(u)), m2;
        m2 = m;
        CHECK(m2.begin() == m.begin() && m2.size() == m.size(), "copies are the same window");
    };
    if(wide) {
        Wide *b = (Wide *)malloc(n ? n * sizeof(Wide) : 1);
        run(b);
        free(b);
    } else {
        Raw b("b", n);
        run(b.p);
    }
}

//@ C14 spans of byte buffers, vectors and fixed vectors of 0 to 6 (20) arbitrary elements: every element, writes through the span
HARNESS(span_of_containers) {
    size_t n = vx_pick("n", 0, QT(6, 20));
    Raw b("b", n);
    Bytes bytes(b.p, n);
    Vector<char> v;
    FixedVector<char, 24> f;
    for(size_t i = 0; i < n; ++i) {
        v.push_back(b.p[i]);
        f.push_back(b.p[i]);
    }
    auto check = [&](auto &c) {
        auto s = c.span();
        const auto &cc = c;
        auto k = cc.span();
        CHECK(s.size() == n && k.size() == n, "size");
        bool same = true;
        for(size_t i = 0; i < n; ++i) same &= s[i] == b.p[i] && k[i] == b.p[i];
        CHECK(same, "exactly the elements of the container");
        CHECK(refused([&] { (void)s[n]; }) && refused([&] { (void)k[n]; }), "element access is checked");
        if(n) {
            size_t i = vx_pick("i", 0, n - 1);
            char x = (char)vx_u8("x");
            s[i] = x;
            CHECK(c[i] == x && k[i] == x, "a span refers to the container");
            s[i] = b.p[i];
            CHECK(s.subspan(i).size() == n - i && s.subspan(n).is_empty(), "sub-span");
        }
    };
    check(bytes);
    check(v);
    check(f);
    vx_reach("done");
}
