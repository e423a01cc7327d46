// C30: equal values feed equal data to the hash.
#include "util.hpp"

// Records everything that is fed.
static unsigned char rec[2200];
static size_t nrec;
struct Recorder {
    Recorder() noexcept {}
    void feed_bytes(const char *p, size_t n) noexcept {
        for(size_t i = 0; i < n; ++i) rec[nrec++] = (unsigned char)p[i];
    }
    size_t get_hash_value() const noexcept { return nrec; }
    void reset() noexcept { nrec = 0; }
};
template<typename T> static void expect(const T &v, const char *p, size_t n, const char *label) {
    Hasher<Recorder> h;
    nrec = 0;
    h.feed_hash(v);
    vx_observe("fed", nrec);
    vx_assert(nrec == n && same_bytes(rec, p, n), label);
}
template<typename T> static size_t simple(const T &v) {
    Hasher<SimpleHash> h;
    h.feed_hash(v);
    return h.get_hash_value();
}

//@ C30 texts of at most 5 (8) arbitrary non-zero bytes in every C string type, with different capacities and histories
HARNESS(hash_strings) {
    size_t n = vx_pick("n", 0, QT(5, 8));
    RawZ t("t", n);
    CString a(t.p, n), b;
    b.reserve(40);
    b += "zz";
    b.clear();
    for(size_t i = 0; i < n; ++i) b += t.p[i];
    expect(a, t.p, n, "a string feeds its characters");
    expect(b, t.p, n, "a string with another history feeds its characters");
    expect(a.view(), t.p, n, "a view feeds its characters");
    Raw exact(n);
    for(size_t i = 0; i < n; ++i) exact.p[i] = t.p[i];
    expect(CStringView(exact.p, n), t.p, n, "an unterminated view feeds its characters");
    expect(ZStringView(t.p), t.p, n, "a terminated view feeds its characters");
    expect(Bytes(t.p, n), t.p, n, "a byte buffer feeds its bytes");
    CHECK(simple(a) == simple(b) && simple(a) == simple(CStringView(exact.p, n)) && simple(a) == simple(ZStringView(t.p)),
          "the hash value is the same whichever type holds the text");
    vx_reach("done");
}

//@ C30 ASCII texts of at most 5 (8) bytes in UTF-8 strings and views
HARNESS(hash_utf8) {
    size_t n = vx_pick("n", 0, QT(5, 8));
    RawZ t("t", n, 7);
    U8String s(t.p, n);
    expect(s, t.p, n, "a UTF-8 string feeds its bytes");
    expect(s.view(), t.p, n, "a UTF-8 view feeds its bytes");
    CHECK(simple(s) == simple(CString(t.p, n)), "the hash value is the same whichever type holds the text");
    vx_reach("done");
}

//@ C30 at most 5 (8) arbitrary bytes fed in up to three pieces cut anywhere
HARNESS(hash_pieces) {
    size_t n = vx_pick("n", 0, QT(5, 8));
    Raw t("t", n);
    size_t a = vx_pick("a", 0, n), b = vx_pick("b", 0, n);
    vx_assume(a <= b);
    SimpleHash x, y;
    x.feed_bytes(t.p, n);
    y.feed_bytes(t.p, a);
    y.feed_bytes(t.p + a, b - a);
    y.feed_bytes(t.p + b, n - b);
    vx_observe("hash", x.get_hash_value());
    CHECK(x.get_hash_value() == y.get_hash_value(), "hashing in pieces gives the same value");
    y.reset();
    y.feed_bytes(t.p, n);
    CHECK(x.get_hash_value() == y.get_hash_value(), "reset starts afresh");
    vx_reach("done");
}

//@ C30 every value of every integer type
HARNESS(hash_integers) {
    uint64_t v = vx_u64("v");
    uint8_t u8 = (uint8_t)v;
    uint16_t u16 = (uint16_t)v;
    uint32_t u32 = (uint32_t)v;
    expect(v, (const char *)&v, 8, "an integer feeds its bytes");
    expect(u8, (const char *)&u8, 1, "an integer feeds its bytes");
    expect(u16, (const char *)&u16, 2, "an integer feeds its bytes");
    expect(u32, (const char *)&u32, 4, "an integer feeds its bytes");
    expect((int64_t)v, (const char *)&v, 8, "an integer feeds its bytes");
    expect((int8_t)v, (const char *)&u8, 1, "an integer feeds its bytes");
    expect((int16_t)v, (const char *)&u16, 2, "an integer feeds its bytes");
    expect((int32_t)v, (const char *)&u32, 4, "an integer feeds its bytes");
    vx_reach("done");
}

//@ C30 texts of 15 to 2049 bytes around powers of two with one arbitrary byte, in every type, with different capacities and histories
HARNESS(hash_long) {
    static char t[2100];
    size_t n = long_length(), at = spot(n);
    letters(t, n);
    t[n] = 0;
    t[at] = (char)vx_sym("byte", 7);
    vx_assume(t[at] != 0);
    CString a(t, n), b;
    for(size_t i = 0; i < n; ++i) b += t[i];
    b += "tail";
    b.remove(n, n + 4);
    expect(a, t, n, "a string feeds its characters");
    expect(b, t, n, "a string with another history feeds its characters");
    expect(a.view(), t, n, "a view feeds its characters");
    expect(ZStringView(t), t, n, "a terminated view feeds its characters");
    expect(U8String(t, n), t, n, "a UTF-8 string feeds its bytes");
    expect(U8StringView(t, n), t, n, "a UTF-8 view feeds its bytes");
    expect(Bytes(t, n), t, n, "a byte buffer feeds its bytes");
    vx_reach("done");
}

//@ C30 byte buffers of 0 to 5 (8) arbitrary bytes with every capacity from 0 to 40 and bytes beyond their end
HARNESS(hash_capacities) {
    size_t n = vx_pick("n", 0, QT(5, 8)), cap = vx_pick("capacity", 0, 40), more = vx_pick("more", 0, 1) * 3;
    Raw t("t", n);
    Bytes b(cap);
    b.append((const char *)t.p, t.end());
    for(size_t i = 0; i < more; ++i) b.append('z');
    b.shrink(more);
    expect(b, t.p, n, "a byte buffer feeds its bytes, whatever its capacity");
    Bytes c(t.p, n);
    CHECK(b == c && simple(b) == simple(c), "equal buffers hash equal");
    vx_reach("done");
}
