// C35: how the work of whole operations grows with their input, counted in executed instructions (natively in basic blocks).
//@unit repo=core,filesystem natflags=-fsanitize-coverage=trace-pc
//@stub work is the number of executed instructions (in the native replay: basic blocks); copies of memory count as one
#include "util.hpp"
#include <pystd2026_radixsort.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_btree.hpp>
#include <pystd2026_hashtable.hpp>
// 16 times the input may take 60 times the work (16 is linear, 26 is n log n at these sizes, 256 is quadratic).
template<typename F> static void grows(size_t n, const F &f) {
    uint64_t w[2];
    for(int k = 0; k < 2; ++k) {
        const uint64_t before = vx_work();
        f(n);
        w[k] = vx_work() - before;
        n *= 16;
    }
    CHECK(w[1] <= 60 * w[0] + 4000, "work grows out of proportion");
    vx_reach("measured");
}
enum { TEXTS = 6 };
static CString text(int kind, size_t n) {
    static const char *const unit[TEXTS] = {"a", "ab ", " ", "a\xc3\xa4\xe2\x82\xac ", "12,", "\xf0\x9f\x98\x80"};
    CString s;
    while(s.size() < n) s.append(unit[kind]);
    return s;
}
//@ C35 33 operations on texts of 60 and 960 bytes of six kinds [flags=--steps 90000000] [time=100/600]
HARNESS(work_text) {
    const int kind = (int)vx_pick("kind", 0, TEXTS - 1);
    const int op = (int)vx_pick("operation", 0, 32);
    volatile size_t sink = 0;
    // the texts are made outside of the measurement
    const CString small = text(kind, 60);
    CString large("");
    for(int i = 0; i < 16; ++i) large += small;
    const U8String usmall(small.c_str()), ularge(large.c_str());
    CString missing_small("#"), missing_large("#");
    missing_small.append(small.c_str(), small.size() / 2);
    missing_large.append(large.c_str(), large.size() / 2);
    grows(1, [&](size_t n) {
        const CString &s = n == 1 ? small : large;
        const U8String &u = n == 1 ? usmall : ularge;
        const CStringView v = s.view();
        switch(op) {
        case 0: { U8String x(s.c_str()); sink = x.size_bytes(); break; }
        case 1: { U8StringView x(s.c_str(), s.size()); sink = x.size_bytes(); break; }
        case 2: for(auto i = u.cbegin(); i != u.cend(); ++i) sink = sink + *i; break;
        case 3: for(auto i = u.crbegin(); i != u.crend(); ++i) sink = sink + *i; break;
        case 4: sink = u.upper().size_bytes(); break;
        case 5: sink = u.lower().size_bytes(); break;
        case 6: sink = v.upper().size(); break;
        case 7: sink = v.find('#'); break;
        case 8: sink = v.find(CStringView("a#")); break;
        case 31: sink = v.find(n == 1 ? missing_small.view() : missing_large.view()); break;
        case 32: sink = v.starts_with(v); break;
        case 9: sink = s.split().size(); break;
        case 10: sink = s.split_by(',').size(); break;
        case 11: sink = u.split_ascii().size(); break;
        case 12: { CString x(s); x.strip(); sink = x.size(); break; }
        case 13: { CString x(s); sink = x == s; break; }
        case 14: { CString x(s); sink = x < s; break; }
        case 15: { CString x(s); sink = x.view().natural_order(v); break; }
        case 16: { CString x(s.c_str()); sink = x.size(); break; }
        case 17: { CString x; x.append(s.c_str()); sink = x.size(); break; }
        case 18: { CString x; x += v; sink = x.size(); break; }
        case 19: { CString x(s); x += x; sink = x.size(); break; }
        case 20: { CString x(s); x.insert(1, v); sink = x.size(); break; }
        case 21: { Bytes x(s.c_str(), s.size()); x.append(x.begin(), x.end()); sink = x.size(); break; }
        case 22: { SimpleHash h; h.feed_bytes(s.c_str(), s.size()); sink = h.get_hash_value(); break; }
        case 23: { CString x; for(char c : v) x.append(c); sink = x.size(); break; }
        case 24: { U8String x; for(auto i = u.cbegin(); i != u.cend(); ++i) x.append_codepoint(*i); sink = x.size_bytes(); break; }
        case 25: sink = s.rfind('#'); break;
        case 26: { const Vector<U8String> p = u.split_ascii(); sink = U8String(",").join(p).size_bytes(); break; }
        case 27: { CString x(s); while(!x.is_empty()) x.pop_back(); break; }
        case 28: { U8String x(u); while(!x.is_empty()) x.pop_back(); break; }
        case 29: { PyException e(s.c_str()); sink = e.what().size_bytes(); break; }
        default: { const Path p(s.c_str()); sink = p.extension().size() + p.filename().size() + p.split().size(); break; }
        }
    });
}
enum { FAMILIES = 4 };
static int64_t key(int family, size_t i) {
    switch(family) {
    case 0: return (int64_t)i;
    case 1: return -(int64_t)(i * 1000);
    case 2: return (int64_t)(i << 20);
    default: return (int64_t)(i * 2654435761u);
    }
}
//@ C35 filling, asking, visiting, thinning out, copying and clearing hash maps, hash sets and trees of 100 and 1600 elements, keys in four families
//@ [flags=--steps 90000000] [time=100/600]
HARNESS(work_associative) {
    const int family = (int)vx_pick("family", 0, FAMILIES - 1);
    const int op = (int)vx_pick("operation", 0, 9);
    volatile size_t sink = 0;
    grows(QT(100, 400), [&](size_t n) {
        if(op < 6) {
            HashMap<int64_t, int> m;
            for(size_t i = 0; i < n; ++i) m.insert(key(family, i), (int)i);
            switch(op) {
            case 0: for(size_t i = 0; i < 2 * n; ++i) sink = sink + m.contains(key(family, i)); break;
            case 1: for(auto i = m.begin(); i != m.end(); ++i) sink = sink + *(*i).value; break;
            case 2: for(size_t i = 0; i < n; ++i) m.remove(key(family, i)); break;
            case 3: for(size_t i = 0; i < n; ++i) { m.remove(key(family, i)); m.insert(key(family, n + i), 1); } break;
            case 4: m.clear(); for(size_t i = 0; i < n; ++i) m[key(family, i)] = 1; break;
            default: { HashMap<int64_t, int> o(move(m)); sink = o.size(); break; }
            }
            return;
        }
        BTree<int64_t, 11> t;
        for(size_t i = 0; i < n; ++i) t.insert(key(family, i));
        switch(op) {
        case 6: for(auto &x : t) sink = sink + x; break;
        case 7: for(size_t i = 0; i < n; ++i) t.remove(key(family, i)); break;
        case 8: for(size_t i = n; i > 0; --i) t.remove(key(family, i - 1)); break;
        default: for(size_t i = 0; i < 2 * n; ++i) sink = sink + t.contains(key(family, i)); break;
        }
    });
}
//@ C35 radix, intro and merge sort of 1000 and 16000 integers in six families [flags=--steps 90000000] [time=100/600]
HARNESS(work_integers) {
    const int family = (int)vx_pick("family", 0, 5);
    const int op = (int)vx_pick("operation", 0, 2);
    uint32_t *a = (uint32_t *)malloc(16000 * sizeof(uint32_t));
    grows(1000, [&](size_t n) {
        for(size_t i = 0; i < n; ++i) a[i] = family < 4 ? (uint32_t)key(family, i) : family == 4 ? 7 : (uint32_t)(n - i);
        switch(op) {
        case 0: radix_sort(a, a + n); break;
        case 1: introsort(a, a + n); break;
        default: mergesort(a, a + n); break;
        }
    });
    free(a);
}
