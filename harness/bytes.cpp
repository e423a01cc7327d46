// C09: histories of byte buffer operations against a byte sequence model.
#include "util.hpp"
typedef Model<300> M;
typedef Model<8400> LM;

template<typename M> static void check_same(const Bytes &b, const M &m) {
    vx_observe("size", b.size());
    CHECK(b.size() == m.n && b.is_empty() == (m.n == 0), "size agrees with the history");
    CHECK(b.capacity() >= b.size(), "capacity covers the size");
    CHECK(same_bytes(b.data(), m.d, m.n), "contents agree with the history");
    CHECK((size_t)(b.end() - b.begin()) == m.n && b.begin() == b.data(), "iterators cover the contents");
    CHECK(b.span().size() == m.n, "span covers the contents");
    bool rf = refused([&] { vx_assert(b.front() == (char)m.d[0], "front is the first byte"); });
    CHECK(rf == (m.n == 0), "front is refused exactly when empty");
    bool rb = refused([&] { vx_assert(b.back() == (char)m.d[m.n - 1], "back is the last byte"); });
    CHECK(rb == (m.n == 0), "back is refused exactly when empty");
}

static void init(Bytes &b, M &m, const char *name) {
    const size_t lens[] = {0, 1, 2, 15, 16, 3, 8, 31};
    size_t n = lens[vx_pick(name, 0, QT(4, 7))];
    for(size_t i = 0; i < n; ++i) m.push(i < 2 ? (char)vx_u8("b") : (char)('a' + i));
    switch(vx_pick("how", 0, 2)) {
    case 0: b = Bytes((const char *)m.d, n); break; // exact capacity
    case 1:
        for(size_t i = 0; i < n; ++i) b.append((char)m.d[i]);
        break;
    default:
        b = Bytes(40);
        for(size_t i = 0; i < n; ++i) b.push_back((char)m.d[i]);
    }
}

enum { APPEND, APPEND_RANGE, APPEND_OWN, CLEAR, RESERVE, EXTEND, SHRINK, RESIZE, ASSIGN, ASSIGN_OWN, INSERT, INSERT_OWN, POP_BACK,
       POP_FRONT, PLUS, PLUS_SELF, REMOVE, COPY_ASSIGN, MOVE_ASSIGN, COPY, SELF, NUM_OPS };

template<typename M> static void step(Bytes &b, M &m) {
    switch(vx_pick("op", 0, NUM_OPS - 1)) {
    case APPEND: {
        char c = (char)vx_u8("c");
        b.append(c);
        m.push(c);
        break;
    }
    case APPEND_RANGE: {
        size_t k = vx_pick("k", 0, 2);
        Raw r("r", k);
        b.append(r.p, r.end());
        m.insert(m.n, r.p, k);
        break;
    }
    case APPEND_OWN: {
        size_t a = vx_pick("a", 0, 1);
        if(a > m.n) break;
        size_t k = m.n - a;
        b.append(b.data() + a, b.data() + m.n);
        for(size_t i = 0; i < k; ++i) m.d[m.n + i] = m.d[a + i];
        m.n += k;
        break;
    }
    case CLEAR:
        b.clear();
        m.n = 0;
        break;
    case RESERVE:
        b.reserve(vx_pick("cap", 0, 2) * 20);
        break;
    case EXTEND: { // new bytes are unspecified until written
        size_t k = vx_pick("k", 0, 3);
        b.extend(k);
        CHECK(b.size() == m.n + k, "extend adds the requested number of bytes");
        for(size_t i = 0; i < k; ++i) {
            b.data()[m.n] = 'e';
            m.push('e');
        }
        break;
    }
    case SHRINK: {
        uint64_t k = vx_u64("k");
        if(m.n > 4) vx_assume(k < 2 || k >= m.n - 1);
        b.shrink(k);
        m.n = vx_concretize(k > m.n ? 0 : m.n - k);
        break;
    }
    case RESIZE: {
        size_t k = vx_pick("k", 0, 4);
        if(vx_pick("which", 0, 1)) b.resize(k);
        else b.resize_to(k);
        CHECK(b.size() == k, "resize sets the size");
        while(m.n < k) {
            b.data()[m.n] = 'r';
            m.push('r');
        }
        m.n = k;
        break;
    }
    case ASSIGN: {
        size_t k = vx_pick("k", 0, 3);
        Raw r("r", k);
        b.assign(r.p, k);
        m.set(r.p, k);
        break;
    }
    case ASSIGN_OWN: {
        size_t a = vx_pick("a", 0, 1);
        if(a > m.n) break;
        b.assign(b.data() + a, m.n - a);
        m.erase(0, a);
        break;
    }
    case INSERT: {
        size_t k = vx_pick("k", 0, 2);
        Raw r("r", k);
        uint64_t at = vx_u64("at");
        if(m.n > 4) vx_assume(at <= 1 || at >= m.n - 1);
        bool ref = refused([&] { b.insert(at, r.p, k); });
        CHECK(ref == (at > m.n), "insertion is refused exactly when the position is past the end");
        if(!ref) m.insert(vx_concretize(at), r.p, k);
        break;
    }
    case INSERT_OWN: {
        size_t a = vx_pick("a", 0, 1), k = vx_pick("k", 0, 2), at = vx_pick("at", 0, 2);
        if(a + k > m.n || at > m.n) break;
        char tmp[2] = {0, 0};
        for(size_t i = 0; i < k; ++i) tmp[i] = (char)m.d[a + i];
        b.insert(at, b.data() + a, k);
        m.insert(at, tmp, k);
        break;
    }
    case POP_BACK: {
        uint64_t k = vx_u64("k");
        if(m.n > 4) vx_assume(k < 2 || k >= m.n - 1);
        if(k == 1) b.pop_back();
        else b.pop_back(k);
        m.n = vx_concretize(k > m.n ? 0 : m.n - k);
        break;
    }
    case POP_FRONT: {
        uint64_t k = vx_u64("k");
        if(m.n > 4) vx_assume(k < 2 || k >= m.n - 1);
        b.pop_front(k);
        size_t kk = vx_concretize(k > m.n ? m.n : k);
        m.erase(0, kk);
        break;
    }
    case PLUS: {
        size_t k = vx_pick("k", 0, 2);
        Raw r("r", k);
        Bytes o(r.p, k);
        b += o;
        m.insert(m.n, r.p, k);
        CHECK(o.size() == k && same_bytes(o.data(), r.p, k), "the appended buffer is unchanged");
        break;
    }
    case PLUS_SELF:
        b += b;
        for(size_t i = 0; i < m.n; ++i) m.d[m.n + i] = m.d[i];
        m.n *= 2;
        break;
    case REMOVE: {
        uint64_t from = vx_u64("from"), to = vx_u64("to");
        if(m.n > 4) vx_assume((from <= 1 || from >= m.n) && (to <= 2 || to >= m.n - 1));
        bool r = refused([&] { b.remove(from, to); });
        CHECK(r == (from > to || to > m.n), "removal is refused exactly when the range is not inside");
        if(!r) {
            from = vx_concretize(from);
            m.erase(from, vx_concretize(to));
        }
        break;
    }
    case COPY_ASSIGN: {
        size_t k = vx_pick("k", 0, 2);
        Raw r("r", k);
        Bytes o(r.p, k);
        b = o;
        m.set(r.p, k);
        if(k) o.data()[0] ^= 1;
        break;
    }
    case MOVE_ASSIGN: {
        size_t k = vx_pick("k", 0, 2);
        Raw r("r", k);
        Bytes o(r.p, k);
        b = move(o);
        m.set(r.p, k);
        CHECK(o.is_empty(), "a moved-from buffer is empty");
        o.append('x');
        CHECK(o.size() == 1 && o[0] == 'x', "a moved-from buffer can be used again");
        break;
    }
    case COPY: {
        Bytes t(b);
        check_same(t, m);
        t.append('z');
        t.data()[0] = 'q';
        Bytes u(move(t));
        CHECK(u.size() == m.n + 1 && t.is_empty(), "moving takes the contents");
        break;
    }
    case SELF:
        if(vx_pick("mv", 0, 1)) b = move(b);
        else b = static_cast<const Bytes &>(b);
        break;
    }
}

//@ C09 every sequence of 2 (thorough 3) operations out of 21 kinds from start buffers of 0,1,2,15,16 (also 3,8,31) arbitrary bytes with
//@ three kinds of spare capacity, every 64-bit position and count (restricted near the ends for long buffers) [time=200/2400]
HARNESS(bytes_history) {
    Bytes b;
    M m;
    init(b, m, "len");
    check_same(b, m);
    for(int i = 0; i < QT(2, 3); ++i) {
        step(b, m);
        check_same(b, m);
    }
    vx_reach("done");
}

//@ C09 two buffers sharing history, one operation on each [time=100/600]
HARNESS(bytes_copies) {
    Bytes b;
    M m;
    init(b, m, "len");
    Bytes c(b);
    M mc = m;
    step(c, mc);
    check_same(b, m);
    check_same(c, mc);
    b = c;
    m = mc;
    step(b, m);
    check_same(b, m);
    check_same(c, mc);
    vx_reach("done");
}

//@ C09 buffers of at most 4 (8) bytes with spare capacity, every 64-bit index
HARNESS(bytes_index) {
    size_t n = vx_pick("n", 0, QT(4, 8));
    Raw r("r", n);
    Bytes b;
    b.reserve(vx_pick("cap", 0, 1) * 20);
    b.append(r.p, r.end());
    uint64_t i = vx_u64("i");
    bool ref = refused([&] {
        char c = b[i];
        vx_assert(i < n, "an index past the end must be refused");
        i = vx_concretize(i);
        vx_assert(c == r.p[i], "indexing returns the byte");
        vx_reach("ok");
    });
    if(ref) {
        CHECK(i >= n, "an index inside the buffer must not be refused");
        vx_reach("refused");
    }
    for(size_t k = 0; k < n; ++k) CHECK(b.unsafe_at(k) == r.p[k], "unchecked access returns the byte");
    CHECK(b.is_ptr_within(b.data()) == (n > 0), "the first byte is inside unless empty");
    if(n) CHECK(!b.is_ptr_within(b.data() + n) && b.is_ptr_within(b.data() + n - 1), "the end is not inside, the last byte is");
}

//@ C09 range and fill constructors of at most 5 (8) bytes
HARNESS(bytes_construct) {
    size_t n = vx_pick("n", 0, QT(5, 8));
    Raw r("r", n);
    size_t a = vx_pick("a", 0, n), e = vx_pick("e", 0, n);
    bool ref = refused([&] {
        Bytes b((const char *)r.p + a, (const char *)r.p + e);
        vx_assert(a <= e, "a reversed range must be refused");
        M m;
        m.set(r.p + a, e - a);
        check_same(b, m);
        vx_reach("range");
    });
    CHECK(ref == (a > e), "only reversed ranges are refused");
    char c = (char)vx_u8("c");
    Bytes f(n, c);
    M m;
    for(size_t i = 0; i < n; ++i) m.push(c);
    check_same(f, m);
}

//@ C09 one (two) operation(s) out of 21 kinds on buffers of 15 to 2049 bytes around powers of two, with three kinds of spare capacity;
//@ then one more byte [time=200/1500]
HARNESS(bytes_long) {
    static char text[2100];
    size_t n = long_length();
    letters(text, n);
    for(size_t i = 0; i < 2; ++i) text[i] = (char)vx_u8("b");
    Bytes b;
    LM m;
    m.set(text, n);
    switch(vx_pick("how", 0, 2)) {
    case 0: b = Bytes(text, n); break;
    case 1:
        for(size_t i = 0; i < n; ++i) b.append(text[i]);
        break;
    default:
        b = Bytes(n + 30);
        for(size_t i = 0; i < n; ++i) b.push_back(text[i]);
    }
    check_same(b, m);
    for(int i = 0; i < QT(1, 2); ++i) {
        step(b, m);
        check_same(b, m);
    }
    b.append('Q');
    m.push('Q');
    check_same(b, m);
    vx_reach("done");
}
