// C11: every element of every holder lies at an address that is suitable for its type.
//@unit repo=core
#include "util.hpp"
#include <pystd2026_btree.hpp>
#include <pystd2026_hashtable.hpp>
#include <pystd2026_variant.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_indirect_sort.hpp>
static volatile uintptr_t place; // the compiler must not conclude from the type that the address is fine
static long alive;
template<size_t A> struct alignas(A) Wide {
    int v = 0;
    void ok() const {
        place = (uintptr_t)this;
        CHECK(place % A == 0, "an element lies at an unsuitable address");
    }
    Wide() noexcept { ok(); ++alive; }
    explicit Wide(int v_) noexcept : v{v_} { ok(); ++alive; }
    Wide(const Wide &o) noexcept : v{o.v} { ok(); o.ok(); ++alive; }
    Wide(Wide &&o) noexcept : v{o.v} { ok(); o.ok(); ++alive; }
    Wide &operator=(const Wide &o) noexcept { ok(); v = o.v; return *this; }
    Wide &operator=(Wide &&o) noexcept { ok(); v = o.v; return *this; }
    ~Wide() { ok(); --alive; }
    bool operator==(const Wide &o) const noexcept { return v == o.v; }
    bool operator<(const Wide &o) const noexcept { return v < o.v; }
    int operator<=>(const Wide &o) const noexcept { return v < o.v ? -1 : v > o.v ? 1 : 0; }
    template<typename H> void feed_hash(H &h) const noexcept { h.feed_hash(v); }
};
template<size_t A, size_t B> static void holders(int kind) {
    typedef Wide<A> X;
    typedef Wide<B> Y;
    const int n = 40;
    switch(kind) {
    case 0: {
        Vector<X> v;
        for(int i = 0; i < n; ++i) {
            switch(i % 4) {
            case 0: v.push_back(X(i)); break;
            case 1: v.emplace_back(i); break;
            case 2: { const X x(i); v.push_back(x); break; }
            default: v.append_with_default(1); v.back().v = i; break;
            }
        }
        Vector<X> w(move(v)), u(w);
        for(int i = 0; i < n; ++i) CHECK(u[i].v == i && w.at(i).v == i, "vector");
        for(auto &x : w) x.ok();
        break;
    }
    case 1: {
        struct {
            char c;
            FixedVector<X, 5> v;
        } s;
        for(int i = 0; i < 5; ++i) s.v.emplace_back(4 - i);
        s.v.delete_at(1);
        s.v.insert(0, X(9));
        FixedVector<X, 5> w(move(s.v));
        CHECK(w.size() == 5 && w[0].v == 9 && w[4].v == 0, "fixed vector");
        break;
    }
    case 2: {
        struct {
            char c;
            Optional<X> o;
        } s;
        s.o = X(1);
        Optional<X> p(s.o);
        s.o.reset();
        s.o = p;
        CHECK(s.o->v == 1, "optional");
        break;
    }
    case 3: {
        struct {
            char c;
            Expected<X, Y> o{X(1)};
            char d;
            Expected<Y, X> p{X(2)};
        } s;
        s.o.value().ok();
        s.p.error().ok();
        Expected<X, Y> q(move(s.o));
        CHECK(q.value().v == 1 && s.p.error().v == 2, "expected");
        break;
    }
    case 4: {
        struct {
            char c;
            Variant<int, Y, char, X> o;
            char d;
            Variant<X, Y, int> p;
        } s;
        s.o = X(3);
        s.p = Y(4);
        Variant<int, Y, char, X> q(s.o);
        q = Y(5);
        s.p = X(6);
        CHECK(s.o.template get<X>().v == 3 && q.template get<Y>().v == 5 && s.p.template get<X>().v == 6, "variant");
        break;
    }
    case 5: {
        struct Boxed {
            char c = 1;
            X x;
        };
        unique_ptr<Boxed> p(new Boxed);
        unique_arr<X> a(7);
        a[6].v = 2;
        unique_arr<X> b(move(a));
        p->x.ok();
        for(size_t i = 0; i < b.size(); ++i) b[i].ok();
        break;
    }
    case 6:
    case 7: {
        HashMap<X, Y> m;
        for(int i = 0; i < n; ++i) {
            if(kind == 6) m.insert(X(i), Y(i));
            else m[X(i)].v = i;
        }
        for(int i = 0; i < n; i += 3) m.remove(X(i));
        HashMap<X, Y> o(move(m));
        for(int i = 0; i < n; ++i) {
            auto *y = o.lookup(X(i));
            CHECK((y == nullptr) == (i % 3 == 0), "hash map");
            if(y) y->ok();
        }
        for(auto i = o.begin(); i != o.end(); ++i) (*i).key->ok();
        m = move(o);
        break;
    }
    case 8: {
        BTree<X, 5> t;
        for(int i = 0; i < n; ++i) t.insert(X(i * 7 % n));
        for(int i = 0; i < n; i += 3) t.remove(X(i));
        for(auto &x : t) x.ok();
        CHECK(t.size() == 26, "tree");
        break;
    }
    case 9: {
        BTreeMap<X, Y, 5> t;
        for(int i = 0; i < n; ++i) t.insert(X(i * 7 % n), Y(i));
        for(int i = 0; i < n; i += 3) t.remove(X(i));
        for(int i = 1; i < n; i += 3) t.lookup(X(i))->ok();
        break;
    }
    case 10: {
        Stack<X> s;
        for(int i = 0; i < n; ++i) s.push(X(i));
        while(!s.is_empty()) s.pop();
        break;
    }
    default: {
        Vector<X> v;
        for(int i = 0; i < n; ++i) v.emplace_back(i * 7 % n);
        if(kind == 11) mergesort(v.begin(), v.end());
        else insertion_sort(v.begin(), v.end(), DefaultComparator<X>{});
        for(int i = 0; i < n; ++i) CHECK(v[i].v == i, "sorted");
        break;
    }
    }
}
//@ C11 elements aligned to 4, 8, 16, 32, 64 and 256 bytes (and a second kind with another alignment) in 13 kinds of use with up to 40 of them: every
//@ construction, copy, move and destruction happens at an address that is suitable for the type
HARNESS(aligned_elements) {
    const int kind = (int)vx_pick("holder", 0, 12);
    switch(vx_pick("alignment", 0, 5)) {
    case 0: holders<4, 64>(kind); break;
    case 1: holders<8, 4>(kind); break;
    case 2: holders<16, 32>(kind); break;
    case 3: holders<32, 16>(kind); break;
    case 4: holders<64, 4>(kind); break;
    default: holders<256, 8>(kind); break;
    }
    CHECK(alive == 0, "everything is destroyed");
    vx_reach("done");
}
// In the native run the allocator must not align more than it has to.
extern "C" const char *__asan_default_options() { return "redzone=16:max_redzone=16"; }
