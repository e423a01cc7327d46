// C06: splitting, joining and stripping.
#include "util.hpp"

struct Pieces {
    const char *base;
    size_t off[16], len[16];
    size_t n = 0, limit = 100;
};
static bool collect(const CStringView &v, void *ctx) {
    Pieces *p = (Pieces *)ctx;
    p->off[p->n] = v.data() - p->base;
    p->len[p->n] = v.size();
    ++p->n;
    return p->n < p->limit;
}
static bool collect8(const U8StringView &v, void *ctx) { return collect(v.raw_view(), ctx); }

// maximal runs of characters for which sep is false
template<typename F> static void ref_runs(const char *t, size_t n, Pieces &out, F sep) {
    size_t i = 0;
    while(i < n && out.n < out.limit) {
        if(sep((unsigned char)t[i])) {
            ++i;
            continue;
        }
        size_t s = i;
        while(i < n && !sep((unsigned char)t[i])) ++i;
        out.off[out.n] = s;
        out.len[out.n] = i - s;
        ++out.n;
    }
}
static void same_pieces(const Pieces &a, const Pieces &b) {
    vx_observe("pieces", a.n);
    CHECK(a.n == b.n, "the number of pieces is the number of maximal runs");
    if(a.n != b.n) return;
    for(size_t i = 0; i < a.n; ++i)
        CHECK(a.off[i] == b.off[i] && a.len[i] == b.len[i], "every piece is a maximal run, in order");
}

//@ C06 views of at most 6 (9) arbitrary non-zero bytes, stopping after any piece
HARNESS(split_view) {
    size_t n = vx_pick("n", 0, QT(6, 9));
    Raw t("t", n);
    t.nonzero();
    Pieces got, want;
    got.base = t.p;
    got.limit = want.limit = vx_pick("limit", 1, 4);
    CStringView(t.p, n).split(collect, &got);
    ref_runs(t.p, n, want, [](unsigned char c) { return is_ws(c); });
    same_pieces(got, want);
    vx_reach(got.n == 0 ? "none" : "some");
}

//@ C06 strings of at most 5 (8) arbitrary non-zero bytes
HARNESS(split_string) {
    size_t n = vx_pick("n", 0, QT(5, 8));
    Raw t("t", n);
    t.nonzero();
    CString s(t.p, n);
    Pieces want;
    ref_runs(t.p, n, want, [](unsigned char c) { return is_ws(c); });
    Vector<CString> v = s.split();
    CHECK(v.size() == want.n, "the number of pieces is the number of maximal runs");
    if(v.size() == want.n)
        for(size_t i = 0; i < want.n; ++i)
            CHECK(v[i].size() == want.len[i] && same_bytes(v[i].c_str(), t.p + want.off[i], want.len[i]) &&
                      v[i].c_str()[v[i].size()] == 0,
                  "every piece is a maximal run, in order");
    CHECK(s.size() == n && same_bytes(s.c_str(), t.p, n), "splitting leaves the string unchanged");
    vx_reach(want.n == 0 ? "none" : "some");
}

//@ C06 strings of at most 5 (8) arbitrary non-zero bytes and any separator byte, by vector and by callback
HARNESS(split_by_char) {
    size_t n = vx_pick("n", 0, QT(5, 8));
    Raw t("t", n);
    t.nonzero();
    char sep = (char)vx_u8("sep");
    vx_assume(sep != 0);
    CString s(t.p, n);
    Pieces want, got;
    ref_runs(t.p, n, want, [&](unsigned char c) { return c == (unsigned char)sep; });
    got.base = s.c_str();
    s.split_by(sep, collect, &got);
    same_pieces(got, want);
    Vector<CString> v = s.split_by(sep);
    CHECK(v.size() == want.n, "the number of pieces is the number of maximal runs");
    if(v.size() == want.n)
        for(size_t i = 0; i < want.n; ++i)
            CHECK(v[i].size() == want.len[i] && same_bytes(v[i].c_str(), t.p + want.off[i], want.len[i]),
                  "every piece is a maximal run, in order");
    vx_reach(want.n == 0 ? "none" : want.n == 1 ? "one" : "many");
}

// characters used for UTF-8 splitting: whitespace, ASCII and multi-byte code points
static const char *const U[] = {" ", "\n", "\t", "\r", "a", "\xc2\xa0", "\xe2\x80\x83", "\xf0\x9f\x98\x80"};
static const unsigned char UL[] = {1, 1, 1, 1, 1, 2, 3, 4};

//@ C06 UTF-8 strings of at most 4 (6) characters out of 4 kinds of whitespace, ASCII, and 2-, 3-, 4-byte characters; three ways to split
HARNESS(split_utf8) {
    size_t k = vx_pick("k", 0, QT(4, 6));
    U8String s;
    char flat[40];
    size_t n = 0;
    for(size_t i = 0; i < k; ++i) {
        size_t c = vx_pick("c", i == 0 ? 0 : QT(2, 0), i == 0 ? 7 : QT(6, 7));
        for(size_t j = 0; j < UL[c]; ++j) flat[n++] = U[c][j];
    }
    flat[n] = 0;
    s = U8String(flat, n);
    Pieces want;
    ref_runs(flat, n, want, [](unsigned char c) { return is_ws(c); });
    Vector<U8String> v = s.split_ascii();
    CHECK(v.size() == want.n, "the number of pieces is the number of maximal runs");
    if(v.size() == want.n)
        for(size_t i = 0; i < want.n; ++i)
            CHECK(v[i].size_bytes() == want.len[i] && same_bytes(v[i].c_str(), flat + want.off[i], want.len[i]),
                  "every piece is a maximal run, in order");
    Pieces cb;
    cb.base = s.c_str();
    s.split(collect8, [](uint32_t c) { return c < 128 && is_ws((unsigned char)c); }, &cb);
    same_pieces(cb, want);
    Pieces lz;
    lz.base = s.c_str();
    auto view = s.view();
    auto closure = view.split_ascii();
    while(auto p = closure.next()) {
        if(lz.n == 8) break;
        collect8(*p, &lz);
    }
    same_pieces(lz, want);
    CHECK(!closure.next(), "an exhausted splitter stays exhausted");
    vx_reach(want.n == 0 ? "none" : "some");
}

//@ C06 strings of at most 6 (10) arbitrary non-zero bytes
HARNESS(strip) {
    size_t n = vx_pick("n", 0, QT(6, 10));
    Raw t("t", n);
    t.nonzero();
    size_t a = 0, b = n;
    while(a < n && is_ws((unsigned char)t.p[a])) ++a;
    while(b > a && is_ws((unsigned char)t.p[b - 1])) --b;
    CString s(t.p, n);
    s.strip();
    vx_observe("size", s.size());
    CHECK(s.size() == b - a, "strip removes exactly the leading and trailing whitespace");
    CHECK(same_bytes(s.c_str(), t.p + a, b - a) && s.c_str()[s.size()] == 0, "strip keeps the rest");
    vx_reach(a == b ? "all whitespace" : "text");
}

//@ C06 at most 3 (5) elements of 0 to 2 characters, separators of 0 to 2 characters
HARNESS(join) {
    size_t k = vx_pick("k", 0, QT(3, 5)), sl = vx_pick("sl", 0, 2);
    RawZ sep("sep", sl, 7);
    U8String sp(sep.p, sl);
    Vector<U8String> v;
    Model<40> m;
    for(size_t i = 0; i < k; ++i) {
        size_t l = vx_pick("l", 0, 2);
        RawZ e("e", l, 7);
        v.push_back(U8String(e.p, l));
        if(i) m.insert(m.n, sep.p, sl);
        m.insert(m.n, e.p, l);
    }
    U8String r = sp.join(v);
    vx_observe("size", r.size_bytes());
    CHECK(r.size_bytes() == m.n && same_bytes(r.c_str(), m.d, m.n), "join puts the separator between consecutive elements only");
    CHECK(v.size() == k, "join leaves the elements alone");
    vx_reach(k == 0 ? "none" : "some");
}

//@ C06 splitting on whitespace and joining with one space reproduces single-spaced ASCII text of at most 6 (8) characters
HARNESS(split_join) {
    size_t n = vx_pick("n", 0, QT(6, 8));
    RawZ t("t", n, 7);
    for(size_t i = 0; i < n; ++i) {
        vx_assume(t.p[i] == ' ' || !is_ws((unsigned char)t.p[i]));
        if(t.p[i] == ' ') vx_assume(i > 0 && i + 1 < n && t.p[i - 1] != ' ');
    }
    U8String s(t.p, n);
    U8String r = U8String(" ").join(s.split_ascii());
    CHECK(r.size_bytes() == n && same_bytes(r.c_str(), t.p, n), "split and join are inverse");
    vx_reach("done");
}

//@ C06 long texts: 15 to 2049 characters of words of 1 to 70 letters with an arbitrary byte near the ends or in the middle, split on
//@ whitespace and at a character, joined again; stripping of up to 70 (300) whitespace characters on either side [time=100/600]
HARNESS(split_long) {
    static char text[2100];
    size_t n = long_length(), at = spot(n);
    static const uint8_t words[] = {1, 5, 16, 70};
    size_t w = words[vx_pick("word length", 0, 3)];
    letters(text, n + 1);
    for(size_t i = w; i < n; i += w + 1) text[i] = ' ';
    text[at] = (char)vx_u8("byte");
    vx_assume(text[at] != 0);
    text[n] = 0;
    CString s(text, n);
    Vector<CString> v;
    char sep = ' ';
    bool by = vx_pick("by character", 0, 1);
    if(by) v = s.split_by(sep);
    else v = s.split();
    size_t k = 0, i = 0;
    while(i < n) {
        auto is_sep = [&](size_t q) { return vx_fork(by ? text[q] == sep : is_ws((unsigned char)text[q])); };
        if(is_sep(i)) {
            ++i;
            continue;
        }
        size_t e = i;
        while(e < n && !is_sep(e)) ++e;
        vx_assert(k < v.size(), "one piece per maximal run");
        vx_assert(v[k].size() == e - i && same_bytes(v[k].c_str(), text + i, e - i) && v[k].c_str()[e - i] == 0, "every piece is a maximal run, in order");
        ++k;
        i = e;
    }
    CHECK(k == v.size(), "one piece per maximal run");
    vx_reach("split");
}
//@ C06 joining 17, 40 and 300 words of 0 to 40 letters, one character arbitrary, by separators of 0, 1 and 20 characters
HARNESS(join_long) {
    static const uint16_t counts[] = {17, 40, 300};
    static const uint8_t seps[] = {0, 1, 20};
    static char word[64], sep[32];
    static Model<14000> m;
    size_t k = counts[vx_pick("k", 0, 2)], at = spot(k), sl = seps[vx_pick("sl", 0, 2)];
    letters(sep, sl);
    sep[sl] = 0;
    Vector<U8String> v;
    for(size_t i = 0; i < k; ++i) {
        size_t l = i == at ? 3 : i * 13 % 41;
        if(k == 300) l %= 20;
        letters(word, l);
        if(i == at) {
            word[1] = (char)vx_sym("byte", 7);
            vx_assume(word[1] != 0);
        }
        word[l] = 0;
        v.push_back(U8String(word, l));
        if(i) m.insert(m.n, sep, sl);
        m.insert(m.n, word, l);
    }
    U8String r = U8String(sep, sl).join(v);
    CHECK(r.size_bytes() == m.n && same_bytes(r.c_str(), m.d, m.n), "join puts the separator between consecutive elements only");
    vx_reach("joined");
}
//@ C06 stripping: 0, 1, 16, 17, 70 and 300 whitespace characters on either side of 0, 1, 40 and 600 letters, one character of them arbitrary
HARNESS(strip_long) {
    static const uint16_t pads[] = {0, 1, 16, 17, 70, 300}, inner[] = {0, 1, 40, 600};
    static char text[1300];
    size_t l = pads[vx_pick("left", 0, 5)], k = inner[vx_pick("text", 0, 3)], r = pads[vx_pick("right", 0, 5)], n = l + k + r;
    for(size_t i = 0; i < n; ++i) text[i] = " \t\n\r"[i % 4];
    letters(text + l, k);
    if(n) {
        const size_t where[] = {0, l ? l - 1 : 0, l < n ? l : n - 1, n - 1};
        size_t at = where[vx_pick("spot", 0, 3)];
        text[at] = (char)vx_u8("byte");
        vx_assume(text[at] != 0);
    }
    CString s(text, n);
    size_t a = 0, b = n;
    while(a < n && vx_fork(is_ws((unsigned char)text[a]))) ++a;
    while(b > a && vx_fork(is_ws((unsigned char)text[b - 1]))) --b;
    s.strip();
    CHECK(s.size() == b - a && same_bytes(s.c_str(), text + a, b - a) && s.c_str()[s.size()] == 0, "strip removes exactly the leading and trailing whitespace");
    vx_reach("done");
}
