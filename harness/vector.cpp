// C10: Vector as a sequence.  C11: lifetimes of its elements.
#include "tracked.hpp"

// Elements hold arbitrary values; the model holds the same values.
struct Seq {
    enum { CAP = 64 };
    int d[CAP];
    size_t n = 0;
    void push(int v) { d[n++] = v; }
};
static int arbitrary() { return (int)vx_sym("value", 8); }
template<typename V> static void check_vec(const V &v, const Seq &m) {
    CHECK(v.size() == m.n && v.is_empty() == (m.n == 0) && v.capacity() >= v.size(), "size");
    bool same = true;
    for(size_t i = 0; i < m.n && i < v.size(); ++i) {
        const TA &x = v[i];
        x.ok();
        same &= x.v == m.d[i];
    }
    CHECK(same, "elements in order");
    CHECK(TA::alive == (long)v.size(), "exactly the contained elements are alive");
}

//@ C10,C11 every sequence of 3 (4) operations on a vector of 0, 1, 2, 15, 16 or 17 arbitrary elements: push and emplace of new, own and
//@ moved elements, pop, append and assign of outside ranges, reserve, default elements, clear [time=100/900]
HARNESS(vector_history) {
    {
        static const size_t fill[] = {0, 1, 2, 15, 16, 17};
        Vector<TA> v;
        Seq m;
        for(size_t i = fill[vx_pick("fill", 0, 5)]; i > 0; --i) {
            int x = arbitrary();
            v.push_back(TA(x));
            m.push(x);
        }
        size_t steps = vx_pick("steps", 0, QT(3, 4));
        for(size_t s = 0; s < steps; ++s) {
            switch(vx_pick("op", 0, 11)) {
            case 0: {
                int x = arbitrary();
                TA t(x);
                const TA &c = t;
                v.push_back(c);
                m.push(x);
                CHECK(t.v == x, "copying leaves the source alone");
                break;
            }
            case 1: {
                int x = arbitrary();
                v.emplace_back(x);
                m.push(x);
                break;
            }
            case 2:
                if(m.n) {
                    size_t i = vx_pick("own", 0, 1) ? m.n - 1 : 0;
                    const TA &c = v[i];
                    v.push_back(c);
                    m.push(m.d[i]);
                }
                break;
            case 3:
                if(m.n) {
                    size_t i = vx_pick("own", 0, 1) ? m.n - 1 : 0;
                    v.push_back(move(v[i]));
                    m.push(m.d[i]);
                    m.d[i] = -1;
                }
                break;
            case 4:
                if(m.n) {
                    size_t i = vx_pick("own", 0, 1) ? m.n - 1 : 0;
                    v.emplace_back(v[i]);
                    m.push(m.d[i]);
                }
                break;
            case 5: {
                auto o = v.pop_back();
                CHECK(bool(o) == (m.n > 0), "popping yields an element unless empty");
                if(m.n) {
                    --m.n;
                    CHECK(o->v == m.d[m.n], "popping yields the last element");
                }
                break;
            }
            case 6: {
                size_t k = vx_pick("k", 0, 2);
                int x[2] = {arbitrary(), arbitrary()};
                {
                    TA t[2] = {TA(x[0]), TA(x[1])};
                    v.append(t, t + k);
                    CHECK(t[0].v == x[0] && t[1].v == x[1], "copying leaves the source alone");
                }
                for(size_t i = 0; i < k; ++i) m.push(x[i]);
                break;
            }
            case 7: {
                size_t k = vx_pick("k", 0, 2);
                int x[2] = {arbitrary(), arbitrary()};
                {
                    TA t[2] = {TA(x[0]), TA(x[1])};
                    v.assign(t, t + k);
                }
                m.n = 0;
                for(size_t i = 0; i < k; ++i) m.push(x[i]);
                break;
            }
            case 8: {
                size_t k = 2 * vx_pick("k", 0, 1);
                v.append_with_default(k);
                for(size_t i = 0; i < k; ++i) m.push(-2);
                break;
            }
            case 9: {
                static const size_t caps[] = {0, 17, 40};
                v.reserve(caps[vx_pick("k", 0, 2)]);
                break;
            }
            case 10:
                v.clear();
                m.n = 0;
                break;
            default: {
                // a part of the vector itself: handled or refused, never damaged
                size_t from = m.n ? m.n - 1 : 0;
                bool app = vx_pick("append", 0, 1);
                bool r = refused([&] {
                    if(app) v.append(v.begin() + from, v.end());
                    else v.assign(v.begin() + from, v.end());
                });
                if(!r) {
                    if(app) {
                        if(m.n > from) m.push(m.d[from]);
                    } else if(m.n) {
                        m.d[0] = m.d[from];
                        m.n = 1;
                    }
                }
            }
            }
            check_vec(v, m);
        }
        int sum = 0, n = 0;
        for(const auto &x : v) {
            CHECK(x.v == m.d[n], "iteration follows the order");
            ++n;
            (void)sum;
        }
        CHECK(n == (int)m.n && v.end() - v.begin() == (ptrdiff_t)m.n && v.cend() - v.cbegin() == (ptrdiff_t)m.n, "iteration covers all");
    }
    CHECK(TA::alive == 0, "everything is destroyed with the vector");
    vx_reach("done");
}

//@ C10 every index over 64 bits, first and last, in vectors of 0 to 3 arbitrary elements
HARNESS(vector_index) {
    size_t n = vx_pick("n", 0, 3);
    Vector<int> v;
    int a[3];
    for(size_t i = 0; i < n; ++i) v.push_back(a[i] = (int)vx_sym("value", 32));
    const Vector<int> &c = v;
    uint64_t idx = vx_u64("index");
    bool r[4];
    r[0] = refused([&] { vx_assert(v[idx] == a[idx], "the element at the index"); });
    r[1] = refused([&] { vx_assert(c[idx] == a[idx], "the element at the index"); });
    r[2] = refused([&] { vx_assert(v.at(idx) == a[idx], "the element at the index"); });
    r[3] = refused([&] { vx_assert(c.at(idx) == a[idx], "the element at the index"); });
    for(bool x : r) CHECK(x == (idx >= n), "indexing is refused exactly outside");
    r[0] = refused([&] { vx_assert(v.front() == a[0], "first element"); });
    r[1] = refused([&] { vx_assert(c.front() == a[0], "first element"); });
    r[2] = refused([&] { vx_assert(v.back() == a[n - 1], "last element"); });
    r[3] = refused([&] { vx_assert(c.back() == a[n - 1], "last element"); });
    for(bool x : r) CHECK(x == (n == 0), "first and last are refused exactly when empty");
    for(size_t i = 0; i < n; ++i) CHECK(v.unsafe_at(i) == a[i] && c.unsafe_at(i) == a[i] && v.data()[i] == a[i] && v.span()[i] == a[i] && c.span()[i] == a[i], "all accessors agree");
    CHECK(v.span().size() == n && c.span().size() == n, "spans cover the vector");
    vx_reach(n ? "some" : "none");
}

//@ C10,C11 two vectors of at most 2 arbitrary elements (or 17), every sequence of 3 (4) copies, moves, self moves and swaps [time=60/900]
HARNESS(vector_copies) {
    {
        Vector<TA> v[2];
        Seq m[2];
        for(int k = 0; k < 2; ++k) {
            size_t n = vx_pick("n", 0, 3);
            if(n == 3) n = 17;
            for(size_t i = 0; i < n; ++i) {
                int x = arbitrary();
                v[k].push_back(TA(x));
                m[k].push(x);
            }
        }
        size_t steps = vx_pick("steps", 0, QT(3, 4));
        for(size_t s = 0; s < steps; ++s) {
            size_t i = vx_pick("i", 0, 1), j = vx_pick("j", 0, 1);
            switch(vx_pick("op", 0, 5)) {
            case 0:
                v[i] = move(v[j]);
                if(i != j) m[i] = m[j], m[j].n = 0;
                break;
            case 1: {
                const Vector<TA> &c = v[j];
                Vector<TA> t(c);
                CHECK(t == v[j] && !(t != v[j]), "a copy is equal");
                v[i] = move(t);
                m[i] = m[j];
                CHECK(t.size() == 0 && t.begin() == t.end(), "a moved-from vector is empty");
                break;
            }
            case 2: {
                Vector<TA> t(move(v[i]));
                CHECK(v[i].size() == 0 && v[i].is_empty(), "a moved-from vector is empty");
                v[j] = move(t);
                Seq k = m[i];
                m[i].n = 0;
                m[j] = k;
                break;
            }
            case 3: {
                ::pystd2026::swap(v[0], v[1]);
                Seq t = m[0];
                m[0] = m[1];
                m[1] = t;
                break;
            }
            case 4: {
                Vector<TA> t(v[j].begin(), v[j].end());
                CHECK(t == v[j], "a vector of a range has its elements");
                v[i] = move(t);
                m[i] = m[j];
                break;
            }
            default: {
                int x = arbitrary();
                v[i].emplace_back(x);
                m[i].push(x);
            }
            }
            for(size_t k = 0; k < 2; ++k) {
                CHECK(v[k].size() == m[k].n, "size");
                for(size_t q = 0; q < m[k].n; ++q) CHECK(v[k][q].v == m[k].d[q], "elements in order");
            }
            CHECK(TA::alive == (long)(m[0].n + m[1].n), "exactly the contained elements are alive");
        }
    }
    CHECK(TA::alive == 0, "everything is destroyed with the vectors");
    vx_reach("done");
}

//@ C10 equality of two vectors of at most 3 arbitrary elements
HARNESS(vector_equal) {
    Vector<int> a, b;
    size_t n = vx_pick("n", 0, 3), k = vx_pick("k", 0, 3);
    bool eq = n == k;
    int x[3], y[3];
    for(size_t i = 0; i < n; ++i) a.push_back(x[i] = (int)vx_sym("a", 32));
    for(size_t i = 0; i < k; ++i) b.push_back(y[i] = (int)vx_sym("b", 32));
    for(size_t i = 0; i < n && i < k; ++i) eq &= x[i] == y[i];
    CHECK((a == b) == eq && (a != b) == !eq && (b == a) == eq, "equal exactly when the elements are");
    CHECK(a == a && !(a != a), "equal to itself");
    vx_reach(eq ? "equal" : "different");
}

//@ C10 a stack: every sequence of 4 (5) pushes, pops and clears of arbitrary values
HARNESS(stack_history) {
    Stack<int> st;
    int m[8];
    size_t n = 0, steps = vx_pick("steps", 0, QT(4, 5));
    for(size_t s = 0; s < steps; ++s) {
        switch(vx_pick("op", 0, 2)) {
        case 0:
            st.push(m[n] = (int)vx_sym("value", 32));
            ++n;
            break;
        case 1:
            if(n) --n;
            st.pop();
            break;
        default:
            st.clear();
            n = 0;
        }
        const Stack<int> &c = st;
        CHECK(st.size() == n && st.is_empty() == (n == 0), "size");
        bool r = refused([&] { vx_assert(st.top() == m[n - 1], "last in, first out"); });
        bool rc = refused([&] { vx_assert(c.top() == m[n - 1], "last in, first out"); });
        CHECK(r == (n == 0) && rc == r, "the top of an empty stack is refused");
    }
    vx_reach("done");
}

//@ C10,C11 reserve and default elements of a vector of 0 to 2 elements of 1, 4 and 24 bytes: every count that exceeds the address space is
//@ refused and changes nothing
HARNESS(vector_too_big) {
    struct Wide {
        uint64_t a = 1, b = 2, c = 3;
    };
    auto run = [](auto &v, size_t unit) {
        using T = remove_reference_t<decltype(v[0])>;
        size_t n = vx_pick("n", 0, 2);
        for(size_t i = 0; i < n; ++i) v.push_back(T{});
        size_t k = vx_sym("count", 64);
        vx_assume(k > (size_t)-1 / unit - n);
        bool r = refused([&] {
            if(vx_pick("reserve", 0, 1)) {
                vx_assume(k > (size_t)-1 / unit);
                v.reserve(k);
            } else v.append_with_default(k);
        });
        CHECK(r, "refused");
        CHECK(v.size() == n && v.capacity() >= n && v.capacity() < 1000, "nothing changed");
        v.push_back(T{});
        CHECK(v.size() == n + 1, "still usable");
        vx_reach("done");
    };
    switch(vx_pick("type", 0, 2)) {
    case 0: {
        Vector<uint8_t> v;
        run(v, 2); // half the address space and more
        break;
    }
    case 1: {
        Vector<int> v;
        run(v, sizeof(int));
        break;
    }
    default: {
        Vector<Wide> v;
        run(v, sizeof(Wide));
    }
    }
}

//@ C10,C11 vectors of 3 to 520 elements (every power of two up to 512 and its neighbours; a few arbitrary values), filled by pushes, a range,
//@ reserving, or default elements; then one of nine operations on it (own elements, ranges, copies, moves, pops down to nothing) [time=60/300]
HARNESS(vector_long) {
    {
        static const uint16_t sizes[] = {3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 520};
        static int d[1100];
        size_t n = sizes[vx_pick("n", 0, 27)], k = n;
        for(size_t i = 0; i < n; ++i) d[i] = (int)i;
        const size_t at[] = {0, n / 2, n - 1};
        for(size_t i : at) d[i] = arbitrary();
        Vector<TA> v;
        switch(vx_pick("fill", 0, 3)) {
        case 0:
            for(size_t i = 0; i < n; ++i) v.push_back(TA(d[i]));
            break;
        case 1: {
            Vector<TA> t;
            for(size_t i = 0; i < n; ++i) t.emplace_back(d[i]);
            v.append(t.begin(), t.end());
            CHECK(t.size() == n && t == v, "copying leaves the source alone");
            break;
        }
        case 2: {
            v.reserve(n);
            CHECK(v.capacity() >= n && v.is_empty(), "reserved");
            for(size_t i = 0; i < n; ++i) v.emplace_back(d[i]);
            break;
        }
        default:
            v.append_with_default(n);
            for(size_t i = 0; i < n; ++i) {
                CHECK(v[i].v == -2, "default elements");
                v[i] = TA(d[i]);
            }
        }
        auto check = [&](const Vector<TA> &w) {
            CHECK(w.size() == k && w.capacity() >= k && w.is_empty() == (k == 0), "size");
            bool same = true;
            for(size_t i = 0; i < k && i < w.size(); ++i) {
                w[i].ok();
                same &= w[i].v == d[i];
            }
            CHECK(same, "elements in order");
        };
        check(v);
        CHECK(TA::alive == (long)k, "exactly the contained elements are alive");
        switch(vx_pick("then", 0, 8)) {
        case 0: // its own elements, growing
            for(size_t i = 0; i < 20; ++i) {
                v.push_back(v[i % 3]);
                d[k++] = d[i % 3];
            }
            break;
        case 1: {
            Vector<TA> w(v);
            check(w);
            CHECK(w == v && !(w != v), "a copy is equal");
            w[n - 1] = TA(d[n - 1] + 1);
            CHECK(w != v && !(w == v), "different in the last element");
            break;
        }
        case 2: {
            Vector<TA> w(move(v));
            check(w);
            v = move(w);
            CHECK(w.is_empty(), "a moved-from vector is empty");
            break;
        }
        case 3: {
            Vector<TA> w;
            for(size_t i = 0; i < n; ++i) w.emplace_back((int)i + 7);
            v.append(w.begin(), w.end());
            for(size_t i = 0; i < n; ++i) d[k++] = (int)i + 7;
            break;
        }
        case 4: {
            v.assign(v.begin() + 1, v.begin() + 1); // an empty part: the same as clearing
            k = 0;
            break;
        }
        case 5:
            while(k) {
                auto o = v.pop_back();
                CHECK(bool(o) && o->v == d[k - 1], "popping yields the last element");
                --k;
                CHECK(v.size() == k, "size");
            }
            CHECK(!v.pop_back(), "nothing is left");
            break;
        case 6:
            v.reserve(2 * n);
            CHECK(v.capacity() >= 2 * n, "reserved");
            v.push_back(move(v[0]));
            d[k++] = d[0];
            d[0] = -1;
            break;
        case 7: {
            TA few[3] = {TA(1), TA(2), TA(3)};
            v.assign(few, few + 3);
            k = 3;
            for(int i = 0; i < 3; ++i) d[i] = i + 1;
            break;
        }
        default:
            v.clear();
            k = 0;
            check(v);
            v.emplace_back(5);
            d[k++] = 5;
        }
        check(v);
        CHECK(TA::alive == (long)k, "exactly the contained elements are alive");
    }
    CHECK(TA::alive == 0, "everything is destroyed with the vector");
    vx_reach("done");
}

//@ C10 a stack of 1 to 300 values: last in, first out
HARNESS(stack_long) {
    Stack<int> st;
    size_t n = vx_pick("n", 1, 30) * 10;
    for(size_t i = 0; i < n; ++i) st.push((int)i);
    int x = (int)vx_sym("value", 32);
    st.push(x);
    CHECK(st.top() == x && st.size() == n + 1, "last in, first out");
    st.pop();
    for(size_t i = n; i-- > 0;) {
        CHECK(st.top() == (int)i && st.size() == i + 1, "last in, first out");
        st.pop();
    }
    CHECK(st.is_empty(), "empty");
    vx_reach("done");
}
