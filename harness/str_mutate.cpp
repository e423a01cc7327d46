// C05: histories of CString operations against a byte sequence model.
#include "util.hpp"
typedef Model<260> M;
typedef Model<8400> LM;

template<typename M> static void check_same(const CString &s, const M &m) {
    vx_observe("size", s.size());
    CHECK(s.size() == m.n && s.length() == m.n, "size agrees with the history");
    const char *p = s.c_str();
    CHECK(same_bytes(p, m.d, m.n), "contents agree with the history");
    CHECK(p[s.size()] == '\0', "zero terminated at the reported length");
    CHECK(s.is_empty() == (m.n == 0), "is_empty agrees with the history");
    CHECK(s.data() == p, "data and c_str agree");
    CHECK(s.view().size() == m.n && s.view().data() == p, "view covers the string");
}

// A starting string: short, or just below a growth boundary of the buffer.
static size_t start_len(const char *name) {
    size_t i = vx_pick(name, 0, QT(4, 7));
    const size_t lens[] = {0, 1, 2, 14, 15, 3, 16, 30};
    return lens[i];
}
static void init(CString &s, M &m, const char *name) {
    size_t n = start_len(name);
    for(size_t i = 0; i < n; ++i) {
        char c = i < 2 ? (char)vx_u8("ch") : (char)('a' + i % 26);
        if(i < 2) vx_assume(c != 0);
        m.push(c);
    }
    CString t((const char *)m.d, n);
    s = move(t);
}

enum { OP_APPEND_C, OP_PLUS_C, OP_APPEND_BUF, OP_APPEND_RANGE, OP_PLUS_CSTR, OP_PLUS_STRING, OP_PLUS_SELF, OP_ASSIGN_CSTR,
       OP_ASSIGN_OWN, OP_ASSIGN_STRING, OP_CLEAR, OP_RESIZE, OP_POP, OP_INSERT, OP_INSERT_SELF, OP_REMOVE, OP_RESERVE,
       OP_COPY, OP_MOVE, OP_APPEND_SELF, OP_SELF_ASSIGN, NUM_OPS };

template<typename M> static void step(CString &s, M &m) {
    switch(vx_pick("op", 0, NUM_OPS - 1)) {
    case OP_APPEND_C: {
        char c = (char)vx_u8("c");
        bool r = refused([&] { vx_fork(vx_sym("push", 1)) ? s.push_back(c) : s.append(c); });
        CHECK(r == (c == 0), "appending a zero character is refused, anything else accepted");
        if(!r) m.push(c);
        break;
    }
    case OP_PLUS_C: {
        char c = (char)vx_u8("c");
        bool r = refused([&] { s += c; });
        CHECK(r == (c == 0), "appending a zero character is refused, anything else accepted");
        if(!r) m.push(c);
        break;
    }
    case OP_APPEND_BUF: {
        size_t k = vx_pick("k", 0, 2);
        Raw b("b", k);
        b.nonzero();
        s.append(b.p, k);
        for(size_t i = 0; i < k; ++i) m.push(b.p[i]);
        break;
    }
    case OP_APPEND_RANGE: {
        size_t k = vx_pick("k", 0, 2);
        Raw b("b", k);
        b.nonzero();
        s.append((const char *)b.p, b.end());
        for(size_t i = 0; i < k; ++i) m.push(b.p[i]);
        break;
    }
    case OP_PLUS_CSTR: {
        size_t k = vx_pick("k", 0, 2);
        RawZ b("b", k);
        s += (const char *)b.p;
        for(size_t i = 0; i < k; ++i) m.push(b.p[i]);
        break;
    }
    case OP_PLUS_STRING: {
        size_t k = vx_pick("k", 0, 2);
        RawZ b("b", k);
        CString t(b.p, k);
        s += t;
        for(size_t i = 0; i < k; ++i) m.push(b.p[i]);
        CHECK(t.size() == k && same_bytes(t.c_str(), b.p, k + 1), "the appended string is unchanged");
        break;
    }
    case OP_PLUS_SELF:
        s += s;
        m.insert(m.n, (const char *)m.d, m.n);
        break;
    case OP_ASSIGN_CSTR: {
        size_t k = vx_pick("k", 0, 2);
        RawZ b("b", k);
        s = (const char *)b.p;
        m.set(b.p, k);
        break;
    }
    case OP_ASSIGN_OWN: { // from its own text
        size_t off = vx_pick("off", 0, 2);
        if(off > m.n) break;
        s = s.c_str() + off;
        m.erase(0, off);
        break;
    }
    case OP_ASSIGN_STRING: {
        size_t k = vx_pick("k", 0, 2);
        RawZ b("b", k);
        CString t(b.p, k);
        s = t;
        m.set(b.p, k);
        CHECK(t.size() == k && same_bytes(t.c_str(), b.p, k + 1), "the assigned string is unchanged");
        t += 'x';
        break;
    }
    case OP_CLEAR:
        s.clear();
        m.n = 0;
        break;
    case OP_RESIZE: {
        size_t k = vx_pick("k", 0, 4);
        s.resize(k);
        CHECK(s.size() == k, "resize sets the size");
        if(s.size() == k)
            for(size_t i = m.n; i < k; ++i) { // new characters are unspecified until written
                s.mutable_data()[i] = 'r';
                m.d[i] = 'r';
            }
        m.n = k;
        break;
    }
    case OP_POP:
        s.pop_back();
        if(m.n) m.n--;
        break;
    case OP_INSERT: {
        size_t k = vx_pick("k", 0, 2);
        Raw b("b", k);
        b.nonzero();
        uint64_t at = vx_u64("at");
        if(m.n > 4) vx_assume(at >= m.n - 1 || at == 0);
        bool r = refused([&] { s.insert(at, CStringView(b.p, k)); });
        CHECK(r == (at > m.n), "insertion is refused exactly when the position is past the end");
        if(!r) m.insert(vx_concretize(at), b.p, k);
        break;
    }
    case OP_INSERT_SELF: {
        size_t a = vx_pick("a", 0, 1), e = vx_pick("e", 0, 2), at = vx_pick("at", 0, 2);
        if(a > m.n || a + e > m.n || at > m.n) break;
        CStringView v(s.c_str() + a, e);
        char tmp[4] = {0, 0, 0, 0};
        for(size_t i = 0; i < e; ++i) tmp[i] = (char)m.d[a + i];
        s.insert(at, v);
        m.insert(at, tmp, e);
        break;
    }
    case OP_REMOVE: {
        uint64_t from = vx_u64("from"), to = vx_u64("to");
        if(m.n > 4) vx_assume((from <= 1 || from >= m.n) && (to <= 2 || to >= m.n - 1));
        bool r = refused([&] { s.remove(from, to); });
        CHECK(r == (from > to || to > m.n), "removal is refused exactly when the range is not inside the string");
        if(!r) {
            from = vx_concretize(from);
            m.erase(from, vx_concretize(to));
        }
        break;
    }
    case OP_RESERVE:
        s.reserve(vx_pick("cap", 0, 2) * 20);
        break;
    case OP_COPY: {
        CString t(s);
        check_same(t, m);
        t += 'z';
        t.mutable_data()[0] = 'q';
        break;
    }
    case OP_MOVE: {
        CString t(move(s));
        check_same(t, m);
        s = move(t);
        break;
    }
    case OP_APPEND_SELF: { // appends a part of its own buffer
        size_t a = vx_pick("a", 0, 1);
        if(a > m.n) break;
        size_t k = m.n - a;
        s.append(s.c_str() + a, k);
        for(size_t i = 0; i < k; ++i) m.d[m.n + i] = m.d[a + i];
        m.n += k;
        break;
    }
    case OP_SELF_ASSIGN:
        if(vx_fork(vx_sym("mv", 1))) s = move(s);
        else s = static_cast<const CString &>(s);
        break;
    }
}

//@ C05 every sequence of 2 (thorough 3) operations out of 21 kinds from start strings of 0,1,2,14,15 (also 3,16,30)
//@ characters with arbitrary bytes, every 64-bit insert position and removal range (restricted near the ends for long strings)
//@ [time=200/2400]
HARNESS(cstring_history) {
    CString s;
    M m;
    init(s, m, "len");
    check_same(s, m);
    for(int i = 0; i < QT(2, 3); ++i) {
        step(s, m);
        check_same(s, m);
    }
    vx_reach("done");
}

//@ C05 all contents of at most 5 (7) bytes including zero bytes; constructors from pointer, pointer+length, view, byte buffer
HARNESS(cstring_construct) {
    size_t n = vx_pick("n", 0, QT(5, 7));
    Raw b("b", n);
    bool has_nul = false;
    for(size_t i = 0; i < n; ++i) has_nul |= b.p[i] == 0;
    unsigned how = vx_pick("how", 0, 2);
    bool r = refused([&] {
        CString s = how == 0 ? CString(b.p, n) : how == 1 ? CString(CStringView(b.p, n)) : CString(Bytes(b.p, n));
        vx_assert(!has_nul, "embedded zero bytes must be refused");
        M m;
        m.set(b.p, n);
        check_same(s, m);
        vx_reach("ok");
    });
    if(r) {
        CHECK(has_nul, "contents without zero bytes must be accepted");
        vx_reach("refused");
    }
}

//@ C05 terminated contents of at most 5 (7) bytes
HARNESS(cstring_from_terminated) {
    size_t n = vx_pick("n", 0, QT(5, 7));
    RawZ b("b", n);
    CString s(b.p);
    M m;
    m.set(b.p, n);
    check_same(s, m);
    CHECK(s == (const char *)b.p && s == CStringView(b.p, n) && s == CString(b.p, n), "equals its source");
    vx_reach("done");
}

//@ C05 two steps on two strings sharing history: copies are independent
HARNESS(cstring_copies) {
    CString s;
    M m;
    init(s, m, "len");
    CString t(s);
    M mt = m;
    step(t, mt);
    check_same(s, m);
    check_same(t, mt);
    s = t;
    m = mt;
    step(s, m);
    check_same(s, m);
    check_same(t, mt);
    vx_reach("done");
}

// UTF-8 strings as byte sequences: pops, removal, insertion, appends, also with their own contents.
static void check_u8(const U8String &s, const M &m) {
    vx_observe("size", s.size_bytes());
    CHECK(s.size_bytes() == m.n, "size agrees with the history");
    CHECK(same_bytes(s.c_str(), m.d, m.n), "contents agree with the history");
    CHECK(s.c_str()[m.n] == '\0', "zero terminated at the reported length");
    CHECK(s.is_empty() == (m.n == 0), "is_empty agrees with the history");
}
static const char *const pieces[] = {"a", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80"};
static size_t plen(size_t i) { return i + 1; }

//@ C05,C02 UTF-8 strings of at most 3 characters (1 to 4 bytes each) under 2 (3) operations: insert, remove, pops, append, assign, also with own contents
//@ [time=120/1500]
HARNESS(u8_history) {
    U8String s;
    M m;
    size_t k = vx_pick("k", 0, 3);
    size_t cp[16], n = 0; // piece indices
    for(size_t i = 0; i < k; ++i) {
        cp[n++] = i == 0 ? vx_pick("p", 0, 3) : (cp[0] + i) % 4;
        s += U8String(pieces[cp[n - 1]]);
    }
    auto rebuild = [&] {
        m.n = 0;
        for(size_t i = 0; i < n; ++i) m.insert(m.n, pieces[cp[i]], plen(cp[i]));
    };
    auto iter_at = [&](size_t i) {
        auto it = s.cbegin();
        for(size_t j = 0; j < i; ++j) ++it;
        return it;
    };
    rebuild();
    check_u8(s, m);
    for(int st = 0; st < QT(2, 3); ++st) {
        switch(vx_pick("op", 0, 7)) {
        case 0:
            s.pop_back();
            if(n) --n;
            break;
        case 1:
            s.pop_front();
            if(n) {
                --n;
                for(size_t i = 0; i < n; ++i) cp[i] = cp[i + 1];
            }
            break;
        case 2: { // insert one character from elsewhere
            size_t at = vx_pick("at", 0, n), p = vx_pick("p", 0, 3);
            U8String o(pieces[p]);
            s.insert(iter_at(at), o.view());
            for(size_t i = n; i > at; --i) cp[i] = cp[i - 1];
            cp[at] = p;
            ++n;
            break;
        }
        case 3: { // insert own first character
            if(!n || n > 8) break;
            size_t at = vx_pick("at", 0, n), p = cp[0];
            s.insert(iter_at(at), U8StringView(iter_at(0), iter_at(1)));
            for(size_t i = n; i > at; --i) cp[i] = cp[i - 1];
            cp[at] = p;
            ++n;
            break;
        }
        case 4: { // remove a range
            size_t a = vx_pick("a", 0, n), b = vx_pick("b", 0, n);
            vx_assume(a <= b);
            s.remove(U8StringView(iter_at(a), iter_at(b)));
            for(size_t i = b; i < n; ++i) cp[a + i - b] = cp[i];
            n -= b - a;
            break;
        }
        case 5: { // a view of another string is refused
            U8String o("zz");
            bool r = refused([&] { s.remove(o.view()); });
            CHECK(r, "removing a foreign range is refused");
            break;
        }
        case 6: // append itself
            if(n > 7) break;
            s += s;
            for(size_t i = 0; i < n; ++i) cp[n + i] = cp[i];
            n *= 2;
            break;
        case 7: { // assign a part of itself
            size_t a = vx_pick("a", 0, n);
            s = U8StringView(iter_at(a), iter_at(n));
            for(size_t i = a; i < n; ++i) cp[i - a] = cp[i];
            n -= a;
            break;
        }
        }
        rebuild();
        check_u8(s, m);
        size_t i = 0;
        for(auto it = s.cbegin(); it != s.cend(); ++it) ++i;
        CHECK(i == n, "the number of characters agrees with the history");
    }
    vx_reach("done");
}

//@ C05 one (two) operation(s) out of 21 kinds on strings of 15 to 2049 characters around powers of two, built at once, character by
//@ character or with spare capacity, with arbitrary first characters; then one more character [time=200/1500]
HARNESS(cstring_long) {
    static char text[2100];
    size_t n = long_length();
    letters(text, n);
    for(size_t i = 0; i < 2; ++i) {
        text[i] = (char)vx_u8("ch");
        vx_assume(text[i] != 0);
    }
    CString s;
    LM m;
    m.set(text, n);
    switch(vx_pick("built", 0, 2)) {
    case 0: s = CString(text, n); break;
    case 1:
        for(size_t i = 0; i < n; ++i) s += text[i];
        break;
    default:
        s.reserve(n + 30);
        s.append(text, n);
    }
    check_same(s, m);
    for(int i = 0; i < QT(1, 2); ++i) {
        step(s, m);
        check_same(s, m);
    }
    s += 'Q';
    m.push('Q');
    check_same(s, m);
    vx_reach("done");
}
