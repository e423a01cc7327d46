// C03: case conversion against mappings generated from an independent source.
//@unit bcflags=-mllvm bcflags=-phi-node-folding-threshold=0 bcflags=-mllvm bcflags=-two-entry-phi-node-folding-threshold=0
#include "util.hpp"
#include "case_ref.hpp"

template<size_t N> static void ref_map(const CaseRef (&t)[N], uint32_t c, uint32_t *o) {
    size_t lo = 0, hi = N;
    while(lo < hi) {
        size_t mid = (lo + hi) / 2;
        if(vx_fork(t[mid].cp < c)) lo = mid + 1;
        else hi = mid;
    }
    o[0] = c;
    o[1] = o[2] = 0;
    if(lo < N && t[lo].cp == c)
        for(int i = 0; i < 3; ++i) o[i] = t[lo].to[i];
}
static uint32_t scalar() {
    uint32_t c = (uint32_t)vx_sym("cp", 21);
    if(vx_pick("above surrogates", 0, 1)) {
        vx_assume(c >= 0xe000);
        vx_assume(c < 0x110000);
    } else
        vx_assume(c < 0xd800);
    return c;
}

//@ C03 every Unicode scalar value [time=200/600] [flags=--intervals]
HARNESS(upper_codepoint) {
    uint32_t c = scalar(), w[3];
    auto r = uppercase_unicode(c);
    ref_map(ref_upper, c, w);
    CHECK(r.codepoints[0] == w[0] && r.codepoints[1] == w[1] && r.codepoints[2] == w[2], "upper case is the Unicode mapping");
    vx_observe("first", r.codepoints[0]);
    vx_reach(w[1] ? "multi" : "single");
}

//@ C03 every Unicode scalar value [time=200/600] [flags=--intervals]
HARNESS(lower_codepoint) {
    uint32_t c = scalar(), w[3];
    auto r = lowercase_unicode(c);
    ref_map(ref_lower, c, w);
    CHECK(r.codepoints[0] == w[0] && r.codepoints[1] == w[1] && r.codepoints[2] == w[2], "lower case is the Unicode mapping");
    vx_observe("first", r.codepoints[0]);
    vx_reach(w[1] ? "multi" : "single");
}

static const uint32_t chosen[] = {'a', 'Z', '1', 0xdf, 0xe4, 0x130, 0x149, 0x3a3, 0x1f80, 0x1e9e, 0x20ac, 0xfb03, 0x10400, 0x10428,
                                  0x1f600, 0x10ffff};

//@ C03 strings of at most 3 (4) characters out of 16 chosen ones with single, multiple and no mappings (1 to 4 bytes)
//@ [time=60/600]
HARNESS(case_strings) {
    size_t k = vx_pick("k", 0, QT(3, 4));
    U8String s, up, lo;
    for(size_t i = 0; i < k; ++i) {
        uint32_t c = chosen[vx_pick("c", 0, 15)], w[3];
        s.append_codepoint(c);
        ref_map(ref_upper, c, w);
        for(int j = 0; j < 3 && w[j]; ++j) up.append_codepoint(w[j]);
        ref_map(ref_lower, c, w);
        for(int j = 0; j < 3 && w[j]; ++j) lo.append_codepoint(w[j]);
    }
    vx_observe("size", s.upper().size_bytes());
    CHECK(s.upper() == up && s.view().upper() == up, "upper replaces every character in order");
    CHECK(s.lower() == lo && s.view().lower() == lo, "lower replaces every character in order");
    vx_reach("done");
}

//@ C03 every Unicode scalar value but U+0000 before or behind each of 6 (16) characters with single, multiple and no mappings
//@ [time=100/600] [flags=--intervals]
HARNESS(case_pairs) {
    uint32_t c[2];
    const size_t at = vx_pick("at", 0, 1);
    c[1 - at] = chosen[vx_pick("c", 0, QT(5, 15)) * QT(3, 1)];
    c[at] = scalar();
    vx_assume(c[at] != 0);
    U8String s, up, lo;
    for(uint32_t x : c) {
        uint32_t w[3];
        s.append_codepoint(x);
        ref_map(ref_upper, x, w);
        for(int j = 0; j < 3 && w[j]; ++j) up.append_codepoint(w[j]);
        ref_map(ref_lower, x, w);
        for(int j = 0; j < 3 && w[j]; ++j) lo.append_codepoint(w[j]);
    }
    CHECK(s.upper() == up && s.view().upper() == up, "upper replaces every character in order");
    CHECK(s.lower() == lo && s.view().lower() == lo, "lower replaces every character in order");
    vx_reach("done");
}

//@ C03 C strings and views of at most 5 (9) arbitrary non-zero bytes
HARNESS(case_ascii) {
    size_t n = vx_pick("n", 0, QT(5, 9));
    Raw t("t", n);
    t.nonzero();
    CString s(t.p, n);
    CStringView v(t.p, n);
    bool use_view = vx_pick("view", 0, 1);
    CString u = use_view ? v.upper() : s.upper(), l = use_view ? v.lower() : s.lower();
    CHECK(u.size() == n && l.size() == n, "case conversion keeps the length");
    for(size_t i = 0; i < n; ++i) {
        char c = t.p[i];
        bool low = c >= 'a' && c <= 'z', upp = c >= 'A' && c <= 'Z';
        CHECK(u.c_str()[i] == (low ? c - 32 : c), "upper changes ASCII letters only");
        CHECK(l.c_str()[i] == (upp ? c + 32 : c), "lower changes ASCII letters only");
    }
    CHECK(same_bytes(s.c_str(), t.p, n), "the source is unchanged");
    vx_reach("done");
}

//@ C03 UTF-8 strings of 20, 100 and 300 characters with single, multiple and no mappings and an arbitrary Unicode scalar value (in the
//@ longer ones from U+00C0 to U+024F) near the ends or in the middle; C strings of 15 to 2049 characters with an arbitrary byte [time=60/300] [flags=--intervals]
HARNESS(case_long) {
    if(vx_pick("ascii", 0, 1)) {
        size_t n = long_length(), at = spot(n);
        Raw t(n);
        letters(t.p, n);
        for(size_t i = 1; i < n; i += 3) t.p[i] = (char)(t.p[i] - 32);
        t.p[at] = (char)vx_u8("byte");
        vx_assume(t.p[at] != 0);
        CString s(t.p, n);
        CString u = s.upper(), l = CStringView(t.p, n).lower();
        CHECK(u.size() == n && l.size() == n, "case conversion keeps the length");
        bool ok = true;
        for(size_t i = 0; i < n; ++i) {
            char c = t.p[i];
            ok &= u.c_str()[i] == (char)(((c >= 'a') & (c <= 'z')) ? c - 32 : c);
            ok &= l.c_str()[i] == (char)(((c >= 'A') & (c <= 'Z')) ? c + 32 : c);
        }
        CHECK(ok, "exactly the ASCII letters change");
        vx_reach("ascii");
        return;
    }
    static const size_t counts[] = {20, 100, 300};
    size_t k = counts[vx_pick("k", 0, 2)], at = spot(k);
    U8String s, up, lo;
    for(size_t i = 0; i < k; ++i) {
        uint32_t c = chosen[i * 5 % 16], w[3];
        if(i == at) {
            c = k == 20 ? scalar() : (uint32_t)vx_range("cp", 0xc0, 0x24f);
            vx_assume(c != 0);
        }
        s.append_codepoint(c);
        ref_map(ref_upper, c, w);
        for(int j = 0; j < 3 && w[j]; ++j) up.append_codepoint(w[j]);
        ref_map(ref_lower, c, w);
        for(int j = 0; j < 3 && w[j]; ++j) lo.append_codepoint(w[j]);
    }
    CHECK(s.upper() == up && s.view().upper() == up, "upper replaces every character in order");
    CHECK(s.lower() == lo && s.view().lower() == lo, "lower replaces every character in order");
    vx_reach("utf8");
}
