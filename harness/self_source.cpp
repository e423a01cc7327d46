// Assignments whose source lies inside the target's own contents: taking the next node of a list, the subtree of a tree, the
// member of a nested value.  The target gives up its old contents, which own the source.
#include <pystd2026_variant.hpp>
#include <pystd2026_hashtable.hpp>
#include <pystd2026_btree.hpp>
#include "tracked.hpp"
using namespace pystd2026;
typedef Tracked<0> T0;
template<typename F> struct Rec;
template<typename F> struct Link {
    unique_ptr<Rec<F>> r;
    Link() noexcept {}
    Link(Link &&o) noexcept = default;
    Link(const Link &o) noexcept;
    Link &operator=(Link &&o) noexcept = default;
    Link &operator=(const Link &o) noexcept;
    ~Link() noexcept {}
};
template<typename F> struct Rec {
    T0 t;
    typename F::template C<Link<F>> c;
    Rec(int v) noexcept : t(v) {}
};
template<typename F> Link<F>::Link(const Link &o) noexcept {
    if(o.r) {
        r.reset(new Rec<F>(o.r.get()->t.v));
        F::copy(r->c, o.r.get()->c);
    }
}
template<typename F> Link<F> &Link<F>::operator=(const Link &o) noexcept {
    Link tmp(o);
    r = move(tmp.r);
    return *this;
}
struct InOptional {
    template<typename L> using C = Optional<L>;
    template<typename L> static L *get(Optional<L> &c) { return c ? &*c : nullptr; }
    template<typename L> static void put(Optional<L> &c, L &&l) { c = move(l); }
    template<typename L> static void copy(Optional<L> &c, const Optional<L> &o) { c = o; }
};
struct InExpected {
    template<typename L> using C = Expected<L, int>;
    template<typename L> static L *get(Expected<L, int> &c) { return c.has_value() ? &c.value() : nullptr; }
    template<typename L> static void put(Expected<L, int> &c, L &&l) { c = Expected<L, int>(move(l)); }
    template<typename L> static void copy(Expected<L, int> &, const Expected<L, int> &) {}
};
struct InVector {
    template<typename L> using C = Vector<L>;
    template<typename L> static L *get(Vector<L> &c) { return c.is_empty() ? nullptr : &c.back(); }
    template<typename L> static void put(Vector<L> &c, L &&l) { c.push_back(L()); c.push_back(move(l)); }
    template<typename L> static void copy(Vector<L> &c, const Vector<L> &o) { for(const auto &l : o) c.push_back(l); }
};
struct InFixed {
    template<typename L> using C = FixedVector<L, 2>;
    template<typename L> static L *get(FixedVector<L, 2> &c) { return c.is_empty() ? nullptr : &c.front(); }
    template<typename L> static void put(FixedVector<L, 2> &c, L &&l) { c.push_back(move(l)); c.push_back(L()); }
    template<typename L> static void copy(FixedVector<L, 2> &c, const FixedVector<L, 2> &o) { for(size_t i = 0; i < o.size(); ++i) c.push_back(o[i]); }
};
struct InVariant {
    template<typename L> using C = Variant<int, L>;
    template<typename L> static L *get(Variant<int, L> &c) { return c.template get_if<L>(); }
    template<typename L> static void put(Variant<int, L> &c, L &&l) { c.insert(move(l)); }
    template<typename L> static void copy(Variant<int, L> &c, const Variant<int, L> &o) { c = o; }
};
struct InMap {
    template<typename L> using C = HashMap<int, L>;
    template<typename L> static L *get(HashMap<int, L> &c) { return c.lookup(1); }
    template<typename L> static void put(HashMap<int, L> &c, L &&l) { c.insert(2, L()); c.insert(1, move(l)); }
    template<typename L> static void copy(HashMap<int, L> &, const HashMap<int, L> &) {}
};
struct InTree {
    template<typename L> using C = BTreeMap<int, L, 3>;
    template<typename L> static L *get(C<L> &c) {
        for(int k = 5; k < 50; k += 10)
            if(L *l = c.lookup(k)) return l;
        return nullptr;
    }
    template<typename L> static void put(C<L> &c, L &&l) {
        const int others = (int)vx_pick("others", 0, 1) * 7;
        if(others) c.insert(20, L());
        c.insert(5 + 10 * (int)vx_pick("key", 0, others ? 3 : 0), move(l));
        for(int i = 0; i < others; ++i) c.insert(10 * (i * 3 % 7), L());
    }
    // The tree copies elements when it splits nodes.
    template<typename L> static void copy(C<L> &c, const C<L> &o) {
        if(L *l = get(const_cast<C<L> &>(o))) c.insert(5, L(*l));
    }
};
template<typename F, bool copies> static void nested() {
    typedef typename F::template C<Link<F>> C;
    const int depth = (int)vx_pick("depth", 1, 4);
    int tags[4];
    for(int i = 0; i < depth; ++i) tags[i] = (int)vx_sym("tag", 4);
    {
        C c;
        // the innermost first
        Link<F> l;
        for(int i = depth - 1; i >= 0; --i) {
            Link<F> outer;
            outer.r.reset(new Rec<F>(tags[i]));
            if(i < depth - 1) F::put(outer.r->c, move(l));
            l.r = move(outer.r);
        }
        F::put(c, move(l));
        int at = 0;
        while(at < depth) {
            const int down = (int)vx_pick("levels", 1, (uint64_t)(depth - at));
            C *from = &c;
            for(int i = 0; i < down; ++i) {
                Link<F> *in = F::get(*from);
                CHECK(in && in->r, "the nested value is there");
                CHECK(in->r->t.v == tags[at + i], "the nested value has its tag");
                from = &in->r->c;
            }
            if constexpr(copies) {
                if(vx_pick("copy", 0, 1)) c = *(const C *)from;
                else c = move(*from);
            } else c = move(*from);
            at += down;
            CHECK(T0::alive == depth - at, "the values outside the source are destroyed, the ones inside are kept");
        }
        Link<F> *in = F::get(c);
        CHECK(!in || !in->r, "nothing is left");
    }
    CHECK(T0::alive == 0, "every value is destroyed once");
    vx_reach("taken");
}
//@ C12 optional and expected values of 1 to 4 nested levels with arbitrary tags: every sequence of assignments from a nested part of the value itself
HARNESS(nested_optional) {
    if(vx_pick("expected", 0, 1)) nested<InExpected, false>();
    else nested<InOptional, true>();
}
//@ C10,C11 vectors of 1 to 4 nested levels: every sequence of move assignments from a nested part of the container itself
HARNESS(nested_vector) { nested<InVector, false>(); }
//@ C08,C11 fixed vectors of 1 to 4 nested levels: every sequence of move assignments from a nested part of the container itself
HARNESS(nested_fixed) { nested<InFixed, false>(); }
//@ C13 variants of 1 to 4 nested levels: every sequence of move and copy assignments from a nested part of the variant itself
HARNESS(nested_variant) { nested<InVariant, true>(); }
//@ C11,C15 hash maps of 1 to 4 nested levels: every sequence of move assignments from a nested part of the map itself
HARNESS(nested_map) { nested<InMap, false>(); }
//@ C11,C16 tree maps of 1 to 4 nested levels, each small or with 11 keys: every sequence of move assignments from a nested part of the map itself
HARNESS(nested_tree) { nested<InTree, false>(); }

struct Node {
    T0 t;
    unique_ptr<Node> next;
    Node(int v) : t(v) {}
};
struct Cell {
    T0 t;
    unique_arr<Cell> next;
};
//@ C12 lists of 1 to 5 nodes with arbitrary values, each owned by the one before it (as an object or as an array): taking any later part into the first pointer, in any number of steps
HARNESS(nested_owner) {
    const int n = (int)vx_pick("n", 1, 5);
    int tags[5];
    for(int i = 0; i < n; ++i) tags[i] = (int)vx_sym("tag", 4);
    if(vx_pick("array", 0, 1)) {
        unique_arr<Cell> head;
        for(int i = n - 1; i >= 0; --i) {
            unique_arr<Cell> a((size_t)2);
            a[1].t = tags[i];
            a[1].next = move(head);
            head = move(a);
        }
        for(int at = 0; at < n;) {
            unique_arr<Cell> *from = &head;
            const int down = (int)vx_pick("steps", 1, (uint64_t)(n - at));
            for(int i = 0; i < down; ++i) {
                CHECK((*from)[1].t.v == tags[at + i], "the list is in order");
                from = &(*from)[1].next;
            }
            head = move(*from);
            at += down;
            CHECK(T0::alive == 2 * (n - at), "the skipped nodes are destroyed, the others are kept");
            CHECK(head.size() == (at < n ? 2u : 0u), "the size is taken");
        }
    } else {
        unique_ptr<Node> head;
        for(int i = n - 1; i >= 0; --i) {
            unique_ptr<Node> a(new Node(tags[i]));
            a->next = move(head);
            head = move(a);
        }
        for(int at = 0; at < n;) {
            unique_ptr<Node> *from = &head;
            const int down = (int)vx_pick("steps", 1, (uint64_t)(n - at));
            for(int i = 0; i < down; ++i) {
                CHECK(*from && (*from)->t.v == tags[at + i], "the list is in order");
                from = &(*from)->next;
            }
            head = move(*from);
            at += down;
            CHECK(T0::alive == n - at, "the skipped nodes are destroyed, the others are kept");
        }
        CHECK(!head, "nothing is left");
    }
    CHECK(T0::alive == 0, "every node is destroyed once");
    vx_reach("taken");
}
