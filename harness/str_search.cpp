// C04: searching, prefix tests, substrings and bounds of C string views and C strings.
#include "util.hpp"

// first position at which pat occurs in txt, or -1
static size_t ref_find(const char *t, size_t n, const char *p, size_t m) {
    for(size_t s = 0; s + m <= n; ++s) {
        if(same_bytes(t + s, p, m)) return s;
    }
    return (size_t)-1;
}

//@ C04 text and pattern of at most 4 (thorough 6) bytes each
HARNESS(view_find) {
    size_t n = vx_pick("n", 0, QT(4, 6)), m = vx_pick("m", 0, QT(4, 6));
    Raw t("t", n), p("p", m);
    t.nonzero();
    p.nonzero();
    CStringView v(t.p, n), w(p.p, m);
    size_t got = v.find(w);
    vx_observe("pos", got);
    CHECK(got == ref_find(t.p, n, p.p, m), "find returns the first match or not-found");
    if(got == (size_t)-1) vx_reach("absent");
    else if(got + m == n && m > 0) vx_reach("match at the end");
    else vx_reach("match");
}

//@ C04 text of at most 3 (5), pattern of at most 3 (4) bytes
HARNESS(string_find) {
    size_t n = vx_pick("n", 0, QT(3, 5)), m = vx_pick("m", 0, QT(3, 4));
    Raw t("t", n), p("p", m);
    t.nonzero();
    p.nonzero();
    CString s(t.p, n);
    size_t got = s.find(CStringView(p.p, m));
    vx_observe("pos", got);
    CHECK(got == ref_find(t.p, n, p.p, m), "CString::find returns the first match or not-found");
    vx_reach(got == (size_t)-1 ? "absent" : "match");
}

//@ C04 text of at most 6 (10) bytes, any character
HARNESS(find_char) {
    size_t n = vx_pick("n", 0, QT(6, 10));
    Raw t("t", n);
    t.nonzero();
    char c = (char)vx_u8("c");
    vx_assume(c != 0);
    CStringView v(t.p, n);
    size_t got = v.find(c), want = (size_t)-1, last = (size_t)-1;
    for(size_t i = n; i-- > 0;)
        if(t.p[i] == c) want = i;
    for(size_t i = 0; i < n; ++i)
        if(t.p[i] == c) last = i;
    vx_observe("pos", got);
    CHECK(got == want, "find(char) returns the first match or not-found");
    CString s(t.p, n);
    size_t r = s.rfind(c);
    vx_observe("rpos", r);
    CHECK(r == last, "rfind(char) returns the last match or not-found");
    vx_reach(got == (size_t)-1 ? "absent" : "match");
}

//@ C04 text of at most 3 bytes
HARNESS(rfind_nul) {
    size_t n = vx_pick("n", 0, 3);
    Raw t("t", n);
    t.nonzero();
    CString s(t.p, n);
    CHECK(s.rfind('\0') == (size_t)-1, "the terminator is not part of the text");
    vx_reach("done");
}

//@ C04 text and prefix of at most 4 (7) bytes
HARNESS(starts_with_view) {
    size_t n = vx_pick("n", 0, QT(4, 7)), m = vx_pick("m", 0, QT(4, 7));
    Raw t("t", n), p("p", m);
    t.nonzero();
    p.nonzero();
    bool got = CStringView(t.p, n).starts_with(CStringView(p.p, m));
    bool want = m <= n && same_bytes(t.p, p.p, m);
    vx_observe("got", got);
    CHECK(got == want, "starts_with(view) agrees with the text");
    vx_reach(got ? "yes" : "no");
}

//@ C04 text and prefix of at most 4 (7) bytes
HARNESS(starts_with_cstr) {
    size_t n = vx_pick("n", 0, QT(4, 7)), m = vx_pick("m", 0, QT(4, 7));
    Raw t("t", n);
    RawZ p("p", m);
    t.nonzero();
    bool got = CStringView(t.p, n).starts_with((const char *)p.p);
    bool want = m <= n && same_bytes(t.p, p.p, m);
    vx_observe("got", got);
    CHECK(got == want, "starts_with(const char*) agrees with the text");
    vx_reach(got ? "yes" : "no");
}

//@ C04 text of at most 4 (6) bytes, every 64-bit position and count
HARNESS(view_substr) {
    size_t n = vx_pick("n", 0, QT(4, 6));
    Raw t("t", n);
    t.nonzero();
    CStringView v(t.p, n);
    uint64_t pos = vx_u64("pos"), cnt = vx_u64("cnt");
    size_t want = pos <= n ? (cnt < n - pos ? cnt : n - pos) : 0;
    bool r = refused([&] {
        CStringView s = v.substr(pos, cnt);
        vx_observe("size", s.size());
        vx_assert(pos <= n, "substr past the end must be refused");
        vx_assert(s.size() == want, "substr is clipped to the end of the text");
        vx_assert(s.data() == t.p + pos || s.size() == 0, "substr starts at the requested position");
        vx_reach("ok");
    });
    if(r) {
        CHECK(pos > n, "substr inside the text must not be refused");
        vx_reach("refused");
    }
}

//@ C04 text of at most 4 (6) bytes, every 64-bit position and count
HARNESS(string_substr) {
    size_t n = vx_pick("n", 0, QT(4, 6));
    Raw t("t", n);
    t.nonzero();
    CString v(t.p, n);
    uint64_t pos = vx_u64("pos"), cnt = vx_u64("cnt");
    bool r = refused([&] {
        CString s = v.substr(pos, cnt);
        vx_assert(pos <= n, "substr past the end must be refused");
        pos = vx_concretize(pos);
        size_t want = cnt < n - pos ? cnt : n - pos;
        vx_observe("size", s.size());
        vx_assert(s.size() == want, "substr is clipped to the end of the text");
        vx_assert(same_bytes(s.c_str(), t.p + pos, s.size()) && s.c_str()[s.size()] == 0,
                  "substr holds the requested characters");
        vx_reach("ok");
    });
    if(r) {
        CHECK(pos > n, "substr inside the text must not be refused");
        vx_reach("refused");
    }
}

//@ C04 text of at most 4 (6) bytes, every 64-bit index
HARNESS(view_index) {
    size_t n = vx_pick("n", 0, QT(4, 6));
    Raw t("t", n);
    t.nonzero();
    CStringView v(t.p, n);
    uint64_t i = vx_u64("i");
    bool r = refused([&] {
        char c = vx_fork(vx_sym("at", 1)) ? v.at(i) : v[i];
        vx_assert(i < n, "index past the end must be refused");
        i = vx_concretize(i);
        vx_observe("c", (unsigned char)c);
        vx_assert(c == t.p[i], "indexing returns the character");
        vx_reach("ok");
    });
    if(r) {
        CHECK(i >= n, "an index inside the text must not be refused");
        vx_reach("refused");
    }
    r = refused([&] {
        char c = v.front();
        vx_assert(n > 0 && c == t.p[0], "front is the first character");
    });
    CHECK(r == (n == 0), "front is refused exactly for the empty text");
}

//@ C04 text of at most 4 (6) bytes, every 64-bit index
HARNESS(string_index) {
    size_t n = vx_pick("n", 0, QT(4, 6));
    Raw t("t", n);
    t.nonzero();
    CString v(t.p, n);
    uint64_t i = vx_u64("i");
    bool r = refused([&] {
        char c = v[i];
        // the terminator may be read, nothing after it
        vx_assert(i <= n, "index past the terminator must be refused");
        i = vx_concretize(i);
        vx_assert(c == (i == n ? '\0' : t.p[i]), "indexing returns the character");
        vx_reach("ok");
    });
    if(r) {
        CHECK(i >= n, "an index inside the text must not be refused");
        vx_reach("refused");
    }
    r = refused([&] {
        char c = v.front();
        vx_assert(n > 0 && c == t.p[0], "front is the first character");
    });
    CHECK(r == (n == 0), "front is refused exactly for the empty text");
    r = refused([&] {
        char c = v.back();
        vx_assert(n > 0 && c == t.p[n - 1], "back is the last character");
    });
    CHECK(r == (n == 0), "back is refused exactly for the empty text");
}

// Two windows into one buffer overlap when they share at least one character.
//@ C04 all pairs of non-empty windows into 5 (7) bytes
HARNESS(view_overlaps) {
    size_t N = QT(5, 7);
    char *p = (char *)malloc(N);
    for(size_t i = 0; i < N; ++i) p[i] = 'a';
    size_t a = vx_range("a", 0, N), b = vx_range("b", 0, N), c = vx_range("c", 0, N), d = vx_range("d", 0, N);
    vx_assume(a < b && c < d);
    CStringView v(p + a, b - a), w(p + c, d - c);
    bool got = v.overlaps(w);
    bool want = a < d && c < b;
    vx_observe("got", got);
    CHECK(got == want, "overlaps is true exactly when a character is shared");
    vx_reach(got ? "yes" : "no");
    free(p);
}

//@ C04 text of at most 4 (6) bytes, every 64-bit index
HARNESS(zview) {
    size_t n = vx_pick("n", 0, QT(4, 6));
    RawZ t("t", n);
    bool with_len = vx_fork(vx_sym("with_len", 1));
    ZStringView z = with_len ? ZStringView(t.p, n) : ZStringView(t.p);
    vx_observe("size", z.size());
    CHECK(z.size() == n && z.c_str() == t.p, "a terminated view covers the whole text");
    CHECK(z.view().size() == n, "the plain view of a terminated view covers the whole text");
    CString s(t.p, n);
    ZStringView zz = s.zview();
    CHECK(zz.size() == n && zz == t.p && zz == z, "the terminated view of a string equals the string");
    uint64_t i = vx_u64("i");
    bool r = refused([&] {
        ZStringView u = z.subview(i);
        vx_assert(i <= n, "subview past the end must be refused");
        i = vx_concretize(i);
        vx_assert(u.size() == n - i && u.c_str() == t.p + i, "subview is the right part of the text");
        vx_reach("ok");
    });
    if(r) {
        CHECK(i > n, "subview inside the text must not be refused");
        vx_reach("refused");
    }
}

// substr, contains and overlaps of UTF-8 strings (ASCII content; positions are bytes)
//@ C04 ASCII text of at most 4 (5) characters, all windows
HARNESS(u8_window) {
    size_t n = vx_pick("n", 0, QT(4, 5));
    RawZ t("t", n, 7);
    U8String s(t.p, n);
    size_t a = vx_pick("a", 0, n), b = vx_pick("b", 0, n);
    vx_assume(a <= b);
    auto ia = s.cbegin(), ib = s.cbegin();
    for(size_t i = 0; i < a; ++i) ++ia;
    for(size_t i = 0; i < b; ++i) ++ib;
    U8StringView v(ia, ib);
    CHECK(v.size_bytes() == b - a && v.data() == s.c_str() + a, "a view covers the requested range");
    CHECK(s.contains(v), "a string contains its own part");
    if(b > a) CHECK(s.overlaps(v), "a string overlaps its own part");
    U8String other(t.p, n);
    auto whole = other.view();
    CHECK(!s.contains(whole) || n == 0, "another string's text is not contained");
    CHECK(!s.overlaps(whole) || n == 0, "another string's text does not overlap");
    U8String u = s.substr(a, b - a);
    CHECK(u.size_bytes() == b - a && same_bytes(u.c_str(), t.p + a, b - a), "substr holds the requested bytes");
    vx_reach("done");
}

//@ C04 ASCII text of at most 3 (4) characters, every 64-bit position and count
HARNESS(u8_substr_range) {
    size_t n = vx_pick("n", 0, QT(3, 4));
    RawZ t("t", n, 7);
    U8String s(t.p, n);
    uint64_t pos = vx_u64("pos"), cnt = vx_u64("cnt");
    bool r = refused([&] {
        U8String u = s.substr(pos, cnt);
        vx_assert(pos <= n, "substr past the end must be refused");
        pos = vx_concretize(pos);
        size_t want = cnt < n - pos ? cnt : n - pos;
        vx_assert(u.size_bytes() == want, "substr is clipped to the end of the text");
        vx_assert(same_bytes(u.c_str(), t.p + pos, u.size_bytes()), "substr holds the requested characters");
        vx_reach("ok");
    });
    if(r) {
        CHECK(pos > n, "substr inside the text must not be refused");
        vx_reach("refused");
    }
}

//@ C04 long texts: 15 to 2049 bytes around powers of two with one arbitrary byte; patterns of 1, 2, 20 bytes and the whole text, taken
//@ from the start, the middle or the end, their last byte arbitrary; every 64-bit position [time=100/600]
HARNESS(search_long) {
    size_t n = long_length(), at = spot(n);
    Raw t(n);
    letters(t.p, n);
    t.p[at] = (char)vx_u8("byte");
    vx_assume(t.p[at] != 0);
    CStringView v(t.p, n);
    CString s(t.p, n);
    switch(vx_pick("what", 0, 2)) {
    case 0: {
        const size_t lens[] = {1, 2, 14, n};
        size_t m = lens[vx_pick("m", 0, 3)];
        const size_t starts[] = {0, (n - m) / 2, n - m};
        size_t from = starts[vx_pick("from", 0, 2)];
        Raw p(m);
        for(size_t i = 0; i < m; ++i) p.p[i] = t.p[from + i];
        p.p[m - 1] = (char)vx_range("last", 'a', 'z');
        // straightforward search
        size_t want = (size_t)-1;
        for(size_t i = 0; i + m <= n && want == (size_t)-1; ++i) {
            bool eq = true;
            for(size_t j = 0; j < m && eq; ++j) eq = vx_fork(t.p[i + j] == p.p[j]);
            if(eq) want = i;
        }
        CHECK(v.find(CStringView(p.p, m)) == want && s.find(CStringView(p.p, m)) == want, "find returns the first match or not-found");
        CHECK(v.starts_with(CStringView(p.p, m)) == (want == 0), "starts_with agrees with the text");
        vx_reach(want == (size_t)-1 ? "absent" : "match");
        break;
    }
    case 1: {
        char c = (char)vx_range("c", 'a', 'z' + 2);
        size_t first = (size_t)-1, last = (size_t)-1;
        for(size_t i = 0; i < n; ++i)
            if(vx_fork(t.p[i] == c)) {
                if(first == (size_t)-1) first = i;
                last = i;
            }
        CHECK(v.find(c) == first, "find(char) returns the first match or not-found");
        CHECK(s.rfind(c) == last, "rfind(char) returns the last match or not-found");
        vx_reach(first == (size_t)-1 ? "absent" : "match");
        break;
    }
    default: {
        uint64_t pos = vx_u64("pos"), cnt = vx_u64("cnt");
        vx_assume(pos < 3 || pos >= n - 2);
        bool r = refused([&] {
            CStringView w = v.substr(pos, cnt);
            vx_assert(pos <= n, "substr past the end must be refused");
            pos = vx_concretize(pos);
            size_t want = cnt < n - pos ? cnt : n - pos;
            vx_assert(w.size() == want && w.data() == t.p + pos, "substr is clipped to the end of the text");
            if(vx_fork(cnt < 3 || cnt > n - pos - 2)) {
                CString u = s.substr(pos, cnt);
                vx_assert(u.size() == want && same_bytes(u.c_str(), t.p + pos, u.size()), "substr holds the requested characters");
            }
        });
        CHECK(r == (pos > n), "refused exactly past the end");
        vx_reach(r ? "refused" : "part");
    }
    }
}
