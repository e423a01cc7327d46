// C07: equality and orderings of strings, views and byte buffers.
#include "util.hpp"

// -1, 0, 1: lexicographic by unsigned bytes
static int ref_cmp(const char *a, size_t n, const char *b, size_t m) {
    for(size_t i = 0; i < n && i < m; ++i) {
        unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
        if(x < y) return -1;
        if(x > y) return 1;
    }
    return n < m ? -1 : n > m ? 1 : 0;
}
static int sgn(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }

//@ C07 pairs of strings of at most 3 (5) arbitrary non-zero bytes
HARNESS(order_strings) {
    size_t n = vx_pick("n", 0, QT(3, 5)), m = vx_pick("m", 0, QT(3, 5));
    RawZ a("a", n), b("b", m);
    int want = ref_cmp(a.p, n, b.p, m);
    CStringView va(a.p, n), vb(b.p, m);
    CHECK((va < vb) == (want < 0), "view: less-than is lexicographic");
    CHECK((vb < va) == (want > 0), "view: greater-than is lexicographic");
    CHECK((va == vb) == (want == 0), "view: equality is equality of contents");
    CHECK((va == (const char *)b.p) == (want == 0), "view: equality with a C string is equality of contents");
    CString sa(a.p, n), sb(b.p, m);
    vx_observe("cmp", (unsigned)(sgn(sa <=> sb) + 1));
    CHECK(sgn(sa <=> sb) == want, "string: three-way comparison is lexicographic");
    CHECK((sa < sb) == (want < 0) && (sa > sb) == (want > 0) && (sa <= sb) == (want <= 0) && (sa >= sb) == (want >= 0),
          "string: relational operators are lexicographic");
    CHECK((sa == sb) == (want == 0) && (sa != sb) == (want != 0), "string: equality is equality of contents");
    CHECK((sa == (const char *)b.p) == (want == 0) && (sa == vb) == (want == 0),
          "string: equality with other string types is equality of contents");
    ZStringView za(a.p), zb(b.p);
    CHECK((za == zb) == (want == 0) && (za == (const char *)b.p) == (want == 0), "terminated view: equality of contents");
    vx_reach(want < 0 ? "less" : want > 0 ? "greater" : "equal");
}

//@ C07 pairs of UTF-8 strings of at most 2 characters, ASCII or two-byte, plus comparison with raw C strings
HARNESS(order_utf8) {
    char a[8], b[8];
    size_t n = 0, m = 0;
    size_t ka = vx_pick("ka", 0, 2), kb = vx_pick("kb", 0, 2);
    auto put = [](char *d, size_t &l) {
        if(vx_pick("wide", 0, 1)) {
            d[l++] = (char)(0xc2 + vx_sym("hi", 4));
            d[l++] = (char)(0x80 + vx_sym("lo", 6));
        } else {
            d[l] = (char)vx_sym("ascii", 7);
            vx_assume(d[l] != 0);
            ++l;
        }
    };
    for(size_t i = 0; i < ka; ++i) put(a, n);
    for(size_t i = 0; i < kb; ++i) put(b, m);
    a[n] = b[m] = 0;
    int want = ref_cmp(a, n, b, m);
    U8String sa(a, n), sb(b, m);
    vx_observe("cmp", (unsigned)(sgn(sa <=> sb) + 1));
    CHECK(sgn(sa <=> sb) == want, "three-way comparison is lexicographic");
    CHECK((sa == sb) == (want == 0) && (sa == (const char *)b) == (want == 0), "equality is equality of contents");
    U8StringView va = sa.view(), vb = sb.view();
    CHECK((va == vb) == (want == 0), "view equality is equality of contents");
    CHECK((va == (const char *)b) == (want == 0), "view equality with a C string is equality of contents");
    vx_reach(want < 0 ? "less" : want > 0 ? "greater" : "equal");
}

//@ C07 pairs of byte buffers of at most 3 (5) arbitrary bytes including zero, with different capacities
HARNESS(order_bytes) {
    size_t n = vx_pick("n", 0, QT(3, 5)), m = vx_pick("m", 0, QT(3, 5));
    Raw a("a", n), b("b", m);
    Bytes x(a.p, n), y;
    y.reserve(40);
    for(size_t i = 0; i < m; ++i) y.append(b.p[i]);
    int want = ref_cmp(a.p, n, b.p, m);
    CHECK((x < y) == (want < 0) && (y < x) == (want > 0), "less-than is lexicographic");
    vx_observe("cmp", (unsigned)(sgn(x <=> y) + 1));
    CHECK(sgn(x <=> y) == want && sgn(y <=> x) == -want, "three-way comparison is lexicographic");
    CHECK((x == y) == (want == 0), "equality is equality of contents");
    vx_reach(want < 0 ? "less" : want > 0 ? "greater" : "equal");
}

static bool dig(char c) { return c >= '0' && c <= '9'; }
// Tokens: a maximal digit run (by value) sorts before any other character.
static int ref_natural(const char *a, size_t n, const char *b, size_t m) {
    size_t i = 0, j = 0;
    while(true) {
        if(i == n || j == m) return i == n ? (j == m ? 0 : -1) : 1;
        bool x = dig(a[i]), y = dig(b[j]);
        if(x != y) return x ? -1 : 1;
        if(!x) {
            if(a[i] != b[j]) return 2; // order of other characters is not prescribed
            ++i;
            ++j;
            continue;
        }
        uint64_t u = 0, v = 0;
        while(i < n && dig(a[i])) u = u * 10 + (uint64_t)(a[i++] - '0');
        while(j < m && dig(b[j])) v = v * 10 + (uint64_t)(b[j++] - '0');
        if(u != v) return u < v ? -1 : 1;
    }
}

//@ C07 pairs of views of at most 3 (4) arbitrary non-zero bytes in buffers of exactly that size
HARNESS(natural_pairs) {
    size_t n = vx_pick("n", 0, QT(3, 4)), m = vx_pick("m", 0, QT(3, 4));
    Raw a("a", n), b("b", m);
    a.nonzero();
    b.nonzero();
    CStringView x(a.p, n), y(b.p, m);
    int got = x.natural_order(y), rev = y.natural_order(x);
    int want = ref_natural(a.p, n, b.p, m);
    vx_observe("got", (unsigned)(sgn(got) + 1));
    if(want == 2) CHECK(got != 0, "different characters do not compare equal");
    else CHECK(sgn(got) == want, "numbers are compared by value and sort before other characters");
    CHECK(sgn(got) == -sgn(rev), "natural order is antisymmetric");
    vx_reach(got < 0 ? "less" : got > 0 ? "greater" : "equal");
}

//@ C07 triples of views of at most 2 (3) bytes: transitivity of natural order, less-than and equivalence
HARNESS(natural_triples) {
    size_t n = vx_pick("n", 0, QT(2, 3)), m = vx_pick("m", 0, 2), k = vx_pick("k", 0, 2);
    Raw a("a", n), b("b", m), c("c", k);
    a.nonzero();
    b.nonzero();
    c.nonzero();
    CStringView x(a.p, n), y(b.p, m), z(c.p, k);
    int xy = sgn(x.natural_order(y)), yz = sgn(y.natural_order(z));
    vx_assume(xy <= 0 && yz <= 0);
    int xz = sgn(x.natural_order(z));
    CHECK(xz <= 0, "natural order is transitive");
    if(xy < 0 || yz < 0) CHECK(xz < 0, "equivalence is compatible with the order");
    else CHECK(xz == 0, "equivalence is transitive");
    vx_reach("done");
}

//@ C07 numbers of up to 22 digits (beyond 64 bits), leading zeros, with one arbitrary digit at any position
HARNESS(natural_long_numbers) {
    size_t n = vx_pick("n", 18, 22), m = vx_pick("m", 18, 22);
    Raw a(n), b(m);
    for(size_t i = 0; i < n; ++i) a.p[i] = '9';
    for(size_t i = 0; i < m; ++i) b.p[i] = '9';
    size_t at = vx_pick("at", 0, 2) * 8;
    a.p[at] = (char)('0' + vx_range("da", 0, 9));
    b.p[at] = (char)('0' + vx_range("db", 0, 9));
    int got = sgn(CStringView(a.p, n).natural_order(CStringView(b.p, m)));
    // compare by value without overflow
    size_t i = 0, j = 0;
    while(i < n && a.p[i] == '0') ++i;
    while(j < m && b.p[j] == '0') ++j;
    int want = n - i != m - j ? (n - i < m - j ? -1 : 1) : ref_cmp(a.p + i, n - i, b.p + j, m - j);
    CHECK(got == want, "long numbers are compared by value");
    vx_reach("done");
}

//@ C07 triples of strings of at most 2 arbitrary bytes: less-than is transitive and total
HARNESS(order_triples) {
    size_t n = vx_pick("n", 0, 2), m = vx_pick("m", 0, 2), k = vx_pick("k", 0, 2);
    Raw a("a", n), b("b", m), c("c", k);
    Bytes x(a.p, n), y(b.p, m), z(c.p, k);
    if(x < y && y < z) CHECK(x < z, "bytes: less-than is transitive");
    CHECK((x < y) + (y < x) + (x == y) == 1, "bytes: exactly one of less, equal, greater");
    a.nonzero();
    b.nonzero();
    c.nonzero();
    CStringView p(a.p, n), q(b.p, m), r(c.p, k);
    if(p < q && q < r) CHECK(p < r, "views: less-than is transitive");
    CHECK((p < q) + (q < p) + (p == q) == 1, "views: exactly one of less, equal, greater");
    vx_reach("done");
}

//@ C07 pairs of strings, views and byte buffers of 15 to 2049 bytes around powers of two that share all but an arbitrary byte near the
//@ ends or in the middle, of equal length or one longer, with different capacities [time=60/300]
HARNESS(order_long) {
    static char a[2100], b[2100];
    size_t n = long_length(), m = n + vx_pick("longer", 0, 1), at = spot(n);
    letters(a, m);
    letters(b, m);
    a[n] = b[m] = 0;
    a[at] = (char)vx_u8("a");
    b[at] = (char)vx_u8("b");
    vx_assume(a[at] != 0 && b[at] != 0);
    int want = ref_cmp(a, n, b, m);
    CStringView va(a, n), vb(b, m);
    CString sa(a, n), sb;
    sb.reserve(3000);
    sb.append(b, m);
    CHECK((va < vb) == (want < 0) && (vb < va) == (want > 0) && (va == vb) == (want == 0), "views are ordered lexicographically");
    CHECK(sgn(sa <=> sb) == want && sgn(sb <=> sa) == -want && (sa == sb) == (want == 0), "strings are ordered lexicographically");
    CHECK((sa == (const char *)b) == (want == 0) && (sb == va) == (want == 0), "equality with other string types");
    Bytes x(a, n), y;
    y.reserve(3000);
    y.append((const char *)b, (const char *)b + m);
    CHECK((x < y) == (want < 0) && (y < x) == (want > 0) && sgn(x <=> y) == want && (x == y) == (want == 0), "buffers are ordered lexicographically");
    if((unsigned char)a[at] < 128 && (unsigned char)b[at] < 128) {
        U8String u(a, n), w(b, m);
        CHECK(sgn(u <=> w) == want && (u == w) == (want == 0) && (u.view() == w.view()) == (want == 0), "UTF-8 strings are ordered lexicographically");
    }
    int nat = sgn(va.natural_order(vb)), rev = sgn(vb.natural_order(va));
    CHECK(nat == -rev && (nat == 0) == (want == 0), "natural order is antisymmetric and tells different texts apart");
    vx_reach(want < 0 ? "less" : want > 0 ? "greater" : "equal");
}
