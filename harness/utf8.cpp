// C01, C02: validation, encoding, iteration of UTF-8.  C31: exception messages.
#include "util.hpp"

// Well-formed UTF-8 by the Unicode table of byte ranges; independent of decoding.
static bool ref_valid(const unsigned char *b, size_t n) {
    size_t i = 0;
    while(i < n) {
        unsigned char c = b[i];
        size_t more;
        unsigned char lo = 0x80, hi = 0xbf;
        if(c < 0x80) more = 0;
        else if(c >= 0xc2 && c <= 0xdf) more = 1;
        else if(c >= 0xe0 && c <= 0xef) {
            more = 2;
            if(c == 0xe0) lo = 0xa0;
            if(c == 0xed) hi = 0x9f;
        } else if(c >= 0xf0 && c <= 0xf4) {
            more = 3;
            if(c == 0xf0) lo = 0x90;
            if(c == 0xf4) hi = 0x8f;
        } else return false;
        if(n - i - 1 < more) return false;
        for(size_t k = 1; k <= more; ++k) {
            if(b[i + k] < (k == 1 ? lo : 0x80) || b[i + k] > (k == 1 ? hi : 0xbf)) return false;
        }
        i += more + 1;
    }
    return true;
}
static size_t ref_encode(uint32_t c, unsigned char *o) {
    if(c < 0x80) {
        o[0] = (unsigned char)c;
        return 1;
    }
    if(c < 0x800) {
        o[0] = (unsigned char)(0xc0 + c / 64);
        o[1] = (unsigned char)(0x80 + c % 64);
        return 2;
    }
    if(c < 0x10000) {
        o[0] = (unsigned char)(0xe0 + c / 4096);
        o[1] = (unsigned char)(0x80 + c / 64 % 64);
        o[2] = (unsigned char)(0x80 + c % 64);
        return 3;
    }
    o[0] = (unsigned char)(0xf0 + c / 262144);
    o[1] = (unsigned char)(0x80 + c / 4096 % 64);
    o[2] = (unsigned char)(0x80 + c / 64 % 64);
    o[3] = (unsigned char)(0x80 + c % 64);
    return 4;
}

//@ C01 every byte sequence of at most 5 (7) bytes, as U8String from pointer and length, from Bytes, and as U8StringView
HARNESS(valid_bytes) {
    size_t n = vx_pick("n", 0, QT(5, 7));
    Raw t("t", n);
    bool good = ref_valid((const unsigned char *)t.p, n);
    bool nul = false;
    for(size_t i = 0; i < n; ++i) nul |= t.p[i] == 0;
    unsigned how = vx_pick("how", 0, 2);
    bool r = refused([&] {
        if(how == 2) {
            U8StringView v(t.p, n);
            vx_assert(v.size_bytes() == n && v.data() == t.p, "the view covers the bytes");
        } else {
            U8String s = how == 0 ? U8String(t.p, n) : U8String(Bytes(t.p, n));
            vx_assert(s.size_bytes() == n && same_bytes(s.c_str(), t.p, n) && s.c_str()[n] == 0, "the string holds the bytes");
        }
        vx_assert(good, "ill-formed bytes must be refused");
        vx_assert(how == 2 || !nul, "owning strings refuse embedded zeros");
        vx_reach("accepted");
    });
    vx_observe("refused", r);
    if(r) {
        CHECK(!good || (nul && how != 2), "well-formed bytes must be accepted");
        vx_reach("refused");
    }
}

//@ C01 every zero terminated byte sequence of at most 5 (7) bytes given without a length
HARNESS(valid_terminated) {
    size_t n = vx_pick("n", 0, QT(5, 7));
    RawZ t("t", n);
    bool good = ref_valid((const unsigned char *)t.p, n);
    bool view = vx_pick("view", 0, 1);
    bool r = refused([&] {
        if(view) {
            U8StringView v(t.p, (size_t)-1);
            vx_assert(v.size_bytes() == n && v.data() == t.p, "the view covers the text");
        } else {
            U8String s((const char *)t.p);
            vx_assert(s.size_bytes() == n && same_bytes(s.c_str(), t.p, n + 1), "the string holds the text");
        }
        vx_assert(good, "ill-formed bytes must be refused");
        vx_reach("accepted");
    });
    if(r) {
        CHECK(!good, "well-formed bytes must be accepted");
        vx_reach("refused");
    }
}

//@ C01,C02 every 32-bit value as a code point appended to an empty or non-empty string
HARNESS(append_one) {
    uint32_t c = vx_u32("cp");
    bool scalar = c > 0 && c < 0x110000 && !(c >= 0xd800 && c < 0xe000);
    U8String s;
    size_t base = vx_pick("base", 0, 1);
    if(base) s.append_codepoint('x');
    bool r = refused([&] { s.append_codepoint(c); });
    CHECK(r == !scalar, "exactly the scalar values other than zero can be appended");
    if(!r) {
        unsigned char want[4];
        size_t n = ref_encode(c, want);
        vx_observe("size", s.size_bytes());
        CHECK(s.size_bytes() == base + n && same_bytes(s.c_str() + base, want, n), "stored in the shortest encoding");
        vx_reach("appended");
    } else {
        CHECK(s.size_bytes() == base, "a refused code point changes nothing");
        vx_reach("refused");
    }
}

//@ C02 every sequence of at most 3 (4) scalar values: append, walk forwards, backwards by reverse iterator and by decrement
//@ [time=120/900]
HARNESS(round_trip) {
    size_t k = vx_pick("k", 0, QT(3, 4));
    uint32_t cp[4];
    U8String s;
    for(size_t i = 0; i < k; ++i) {
        cp[i] = (uint32_t)vx_sym("cp", 21);
        vx_assume(cp[i] > 0 && cp[i] < 0x110000 && !(cp[i] >= 0xd800 && cp[i] < 0xe000));
        s.append_codepoint(cp[i]);
    }
    size_t n = 0;
    for(auto it = s.cbegin(); it != s.cend(); ++it, ++n) {
        vx_assert(n < k, "no extra code points going forward");
        vx_assert(*it == cp[n], "walking forward yields the code points");
    }
    CHECK(n == k, "no code point is lost going forward");
    n = 0;
    for(auto it = s.crbegin(); it != s.crend(); ++it, ++n) {
        vx_assert(n < k, "no extra code points going backward");
        vx_assert(*it == cp[k - 1 - n], "walking backward yields the reverse");
    }
    CHECK(n == k, "no code point is lost going backward");
    auto it = s.cend();
    for(n = k; n > 0; --n) {
        --it;
        CHECK(*it == cp[n - 1], "decrementing yields the previous code point");
    }
    CHECK(it == s.cbegin(), "decrementing ends at the beginning");
    // post-increment forms
    auto p = s.cbegin();
    auto q = s.crbegin();
    for(n = 0; n < k; ++n) {
        auto o = p++;
        CHECK(*o == cp[n], "post-increment returns the old position");
        auto ro = q++;
        CHECK(*ro == cp[k - 1 - n], "reverse post-increment returns the old position");
    }
    CHECK(p == s.cend() && q == s.crend(), "post-increment ends at the end");
    ++q;
    CHECK(q == s.crend(), "going backward from the end stays there");
    if(k >= 1) {
        auto b = s.cbegin(), e = s.cend();
        CHECK((b <=> e) < 0 && (e <=> b) > 0 && (b <=> b) == 0, "iterators are ordered by position");
    }
    vx_observe("size", s.size_bytes());
    vx_reach(k == 0 ? "empty" : "text");
}

//@ C02 every well-formed byte sequence of at most 5 (6) bytes: walking it decodes to code points that encode to the same bytes
HARNESS(decode_encode) {
    size_t n = vx_pick("n", 0, QT(5, 6));
    RawZ t("t", n);
    vx_assume(ref_valid((const unsigned char *)t.p, n));
    U8String s(t.p, n), u;
    size_t k = 0, r = 0;
    for(auto it = s.cbegin(); it != s.cend(); ++it, ++k) u.append_codepoint(*it);
    CHECK(u.size_bytes() == n && same_bytes(u.c_str(), t.p, n), "decoding and encoding is the identity");
    U8StringView v = s.view();
    size_t j = 0;
    for(auto it = v.begin(); it != v.end(); ++it) ++j;
    CHECK(j == k, "views and strings have the same code points");
    for(auto it = s.crbegin(); it != s.crend(); ++it) ++r;
    CHECK(r == k, "backwards there are as many code points as forwards");
    vx_reach("done");
}

//@ C02 every well-formed byte sequence of at most 4 (5) bytes, every pair of positions in it: the view between them holds exactly the
//@ characters between them, and is refused when they are the wrong way round or one of them is null
HARNESS(view_between) {
    size_t n = vx_pick("n", 0, QT(4, 5));
    RawZ t("t", n);
    vx_assume(ref_valid((const unsigned char *)t.p, n));
    U8String s(t.p, n);
    ValidU8Iterator null, e = s.cend();
    uint32_t cp[6];
    size_t k = 0, off[6] = {0};
    for(auto it = s.cbegin(); it != e; off[k] = n - U8StringView(it, e).size_bytes()) cp[k++] = *it++;
    auto at = [&](size_t i) {
        auto it = s.cbegin();
        while(i--) ++it;
        return it;
    };
    size_t a = vx_pick("a", 0, k), b = vx_pick("b", 0, k);
    U8StringView v;
    bool r = refused([&] { v = U8StringView(at(a), at(b)); });
    CHECK(r == (a > b), "a view is refused exactly when it ends before it begins");
    CHECK(refused([&] { U8StringView w(at(a), null); }) && refused([&] { U8StringView w(null, at(b)); }), "half a null range is refused");
    if(r) return vx_reach("refused");
    CHECK(v.size_bytes() == off[b] - off[a] && (v.size_bytes() == 0 || v.data() == s.c_str() + off[a]), "the bytes between the positions");
    size_t i = a;
    for(auto c : v) {
        CHECK(i < b && c == cp[i], "the characters between the positions");
        ++i;
    }
    CHECK(i == b, "all the characters between the positions");
    CHECK(v == U8String(t.p + off[a], off[b] - off[a]).view(), "equal to the same characters elsewhere");
    vx_reach("view");
}

//@ C31 every message of at most 5 (7) arbitrary non-zero bytes given as a raw C string
HARNESS(exception_raw) {
    size_t n = vx_pick("n", 0, QT(5, 7));
    RawZ t("t", n);
    PyException e((const char *)t.p);
    const U8String &w = e.what();
    vx_observe("size", w.size_bytes());
    CHECK(w.size_bytes() == n && w.c_str()[n] == 0, "the message has one character per byte");
    for(size_t i = 0; i < n && i < w.size_bytes(); ++i) {
        unsigned char c = (unsigned char)t.p[i];
        CHECK((unsigned char)w.c_str()[i] == (c < 128 ? c : '?'), "ASCII is kept, everything else is marked");
    }
    bool other = false;
    for(size_t i = 0; i < n; ++i) other |= (unsigned char)t.p[i] >= 128;
    vx_reach(other ? "marked" : "ascii");
}

//@ C31 every ASCII message of at most 4 (6) characters thrown and caught, by raw string and by UTF-8 string; copies keep it
HARNESS(exception_thrown) {
    size_t n = vx_pick("n", 0, QT(4, 6));
    RawZ t("t", n, 7);
    bool raw = vx_pick("raw", 0, 1);
    bool caught = false;
    try {
        if(raw) throw PyException((const char *)t.p);
        U8String m(t.p, n);
        throw PyException(m);
    } catch(const PyException &e) {
        caught = true;
        PyException copy(e);
        CHECK(e.what().size_bytes() == n && same_bytes(e.what().c_str(), t.p, n), "the message is preserved");
        CHECK(copy.what() == (const char *)t.p, "a copy has the same message");
    }
    CHECK(caught, "the exception arrives as what was thrown");
    vx_reach("done");
}

//@ C31 every valid UTF-8 message of at most 4 (5) bytes given as a UTF-8 string
HARNESS(exception_utf8) {
    size_t n = vx_pick("n", 0, QT(4, 5));
    RawZ t("t", n);
    vx_assume(ref_valid((const unsigned char *)t.p, n));
    U8String m(t.p, n);
    PyException e(m);
    CHECK(e.what() == m && e.what().size_bytes() == n && same_bytes(e.what().c_str(), t.p, n), "the message is preserved");
    vx_reach("done");
}

//@ C31 bootstrap_throw with every message of at most 4 bytes
HARNESS(exception_bootstrap) {
    size_t n = vx_pick("n", 0, 4);
    RawZ t("t", n);
    bool caught = false;
    try {
        bootstrap_throw(t.p);
    } catch(const PyException &e) {
        caught = true;
        CHECK(e.what().size_bytes() == n, "the message is preserved or marked");
    }
    CHECK(caught, "the exception arrives as what was thrown");
    vx_reach("done");
}

static char long_text[2100];
static size_t long_units(size_t n) { // whole characters of 1 to 4 bytes, at least n bytes
    static const char *const unit[] = {"a", "\xc3\xa4", "\xe2\x82\xac", "z", "\xf0\x9f\x98\x80"};
    size_t k = 0;
    for(size_t i = 0; k < n; ++i)
        for(const char *p = unit[i % 5]; *p; ++p) long_text[k++] = *p;
    return k;
}
//@ C01 texts of 15 to 2049 bytes around powers of two, of characters of all sizes, cut off anywhere in the last character and with one
//@ (two) arbitrary byte(s) near the ends or in the middle [time=100/900]
HARNESS(valid_long) {
    size_t want = long_length(), n = long_units(want);
    if(vx_pick("cut", 0, 1)) n = want;
    size_t at = spot(n);
    Raw t(n);
    for(size_t i = 0; i < n; ++i) t.p[i] = long_text[i];
    t.p[at] = (char)vx_u8("byte");
    if(VX_TIER && at + 1 < n) t.p[at + 1] = (char)vx_u8("byte");
    vx_assume(t.p[at] != 0);
    if(VX_TIER && at + 1 < n) vx_assume(t.p[at + 1] != 0);
    bool good = ref_valid((const unsigned char *)t.p, n);
    bool rv = refused([&] {
        U8StringView v(t.p, n);
        vx_assert(v.size_bytes() == n && v.data() == t.p, "the view covers the bytes");
    });
    bool rs = refused([&] {
        U8String s(t.p, n);
        vx_assert(s.size_bytes() == n && same_bytes(s.c_str(), t.p, n) && s.c_str()[n] == 0, "the string holds the bytes");
    });
    CHECK(rv == !good && rs == !good, "exactly ill-formed bytes are refused");
    vx_reach(good ? "accepted" : "refused");
}

//@ C02 20, 60 and 300 characters of all sizes with an arbitrary code point near the ends or in the middle: appended, walked in both
//@ directions [time=60/300]
HARNESS(round_trip_long) {
    static const size_t counts[] = {20, 60, 300};
    static uint32_t cp[300];
    static const uint32_t some[] = {'a', 0xe4, 0x20ac, 0x1f600, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff};
    size_t k = counts[vx_pick("k", 0, 2)], at = spot(k);
    U8String s;
    for(size_t i = 0; i < k; ++i) {
        cp[i] = some[i * 5 % 13];
        if(i == at) {
            cp[i] = (uint32_t)vx_sym("cp", 21);
            vx_assume(cp[i] > 0 && cp[i] < 0x110000 && !(cp[i] >= 0xd800 && cp[i] < 0xe000));
        }
        s.append_codepoint(cp[i]);
    }
    size_t n = 0;
    for(auto it = s.cbegin(); it != s.cend(); ++it, ++n) vx_assert(n < k && *it == cp[n], "walking forward yields the code points");
    CHECK(n == k, "no code point is lost going forward");
    n = 0;
    for(auto it = s.crbegin(); it != s.crend(); ++it, ++n) vx_assert(n < k && *it == cp[k - 1 - n], "walking backward yields the reverse");
    CHECK(n == k, "no code point is lost going backward");
    U8String u(s.c_str());
    CHECK(u == s && u.size_bytes() == s.size_bytes(), "the text is a valid string");
    vx_reach("done");
}

//@ C31 messages of 15 to 2049 characters around powers of two with one arbitrary byte, from a raw C string and a UTF-8 string, thrown and
//@ caught [time=60/300]
HARNESS(exception_long) {
    size_t n = long_length(), at = spot(n);
    RawZ t("t", 0);
    free(t.p);
    t.p = (char *)malloc(n + 1);
    letters(t.p, n);
    t.p[n] = 0;
    t.p[at] = (char)vx_u8("byte");
    vx_assume(t.p[at] != 0);
    bool raw = vx_pick("raw", 0, 1);
    if(!raw) vx_assume((unsigned char)t.p[at] < 128);
    bool caught = false;
    try {
        if(raw) throw PyException((const char *)t.p);
        U8String m(t.p, n);
        throw PyException(m);
    } catch(const PyException &e) {
        caught = true;
        if((unsigned char)t.p[at] >= 128) t.p[at] = '?';
        CHECK(e.what().size_bytes() == n && same_bytes(e.what().c_str(), t.p, n + 1), "the message is preserved or marked");
    }
    CHECK(caught, "the exception arrives as what was thrown");
    vx_reach("done");
}
