// ---- an element that owns memory: losing, copying or destroying it twice is seen
struct Item {
    int *p;
    Item() noexcept : p{new int{0}} {}
    explicit Item(int v) noexcept : p{new int{v}} {}
    Item(const Item &o) noexcept : p{new int{*o.p}} {}
    Item(Item &&o) noexcept : p{o.p} { o.p = nullptr; }
    ~Item() { delete p; }
    Item &operator=(const Item &o) noexcept {
        if(this != &o) {
            if(p) *p = *o.p;
            else p = new int{*o.p};
        }
        return *this;
    }
    Item &operator=(Item &&o) noexcept {
        if(this != &o) {
            delete p;
            p = o.p;
            o.p = nullptr;
        }
        return *this;
    }
    bool operator==(const Item &o) const { return *p == *o.p; }
    bool operator==(uint32_t v) const { return *p == (int)v; }
    bool operator!=(const Item &o) const { return *p != *o.p; }
    bool operator<(const Item &o) const { return *p < *o.p; }
};
static int small(const char *name) { return (int)t.sym(name, 4); }
static void show(const Item &i) { t.out(i.p ? (uint64_t)*i.p : 999); }
static void show(int i) { t.out((uint64_t)i); }
template<typename V> static void show_all(const V &v) {
    t.out(v.size());
    t.out(v.is_empty());
    for(const auto &i : v) show(i);
}

// ---- Vector
static void fill(Vector<Item> &v, size_t n) {
    for(size_t i = 0; i < n; ++i) v.push_back(Item(i < 3 ? small("element") : (int)i));
}
static void vector_op(Vector<Item> &v) {
    const size_t n = v.size();
    switch(t.pick("operation", 0, 21)) {
    case 21: op("Vector::push_back of its own element, moved", [&] { size_t k = t.pick("i", 0, n); v.push_back(move(v[k])); if(k + 1 < v.size()) v[k] = Item(3); }); break;
    case 0: op("Vector::push_back", [&] { Item i(small("new")); v.push_back(i); show(i); }); break;
    case 1: op("Vector::push_back of a temporary", [&] { v.push_back(Item(small("new"))); }); break;
    case 2: op("Vector::push_back of its own element", [&] { v.push_back(v[t.pick("i", 0, n)]); }); break;
    case 3: op("Vector::emplace_back", [&] { v.emplace_back(small("new")); }); break;
    case 4: op("Vector::append", [&] { Vector<Item> o; fill(o, 1 + t.pick("k", 0, 1)); v.append(o.begin(), o.end()); show_all(o); }); break;
    case 5: op("Vector::assign", [&] { Vector<Item> o; fill(o, 1 + t.pick("k", 0, 1)); v.assign(o.begin(), o.end()); }); break;
    case 6: op("Vector::append of itself", [&] { v.append(v.begin(), v.end()); }); break;
    case 7: op("Vector::assign of itself", [&] { v.assign(v.begin(), v.end()); }); break;
    case 8: op("Vector::pop_back", [&] { Optional<Item> o = v.pop_back(); t.out((bool)o); if(o) show(*o); }); break;
    case 9: op("Vector::clear", [&] { v.clear(); }); break;
    case 10: op("Vector::front", [&] { if(t.pick("const", 0, 1)) { const auto &c = v; show(c.front()); } else show(v.front()); }); break;
    case 11: op("Vector::back", [&] { if(t.pick("const", 0, 1)) { const auto &c = v; show(c.back()); } else show(v.back()); }); break;
    case 12: op("Vector::operator[]", [&] { show(v[position("i", n)]); }); break;
    case 13: op("Vector::at", [&] { const auto &c = v; show(c.at(position("i", n))); }); break;
    case 14: op("const Vector::operator[]", [&] { const auto &c = v; show(c[position("i", n)]); show(v.at(t.pick("j", 0, n))); }); break;
    case 15: op("Vector move assignment", [&] { Vector<Item> o; fill(o, t.pick("k", 0, 2)); v = move(o); show_all(o); Vector<Item> &self = v; v = move(self); }); break;
    case 16: op("Vector comparison", [&] { Vector<Item> o; fill(o, t.pick("k", 0, 2)); t.out(v == o); t.out(v != o); t.out(v == v); Vector<Item> c(v); t.out(c == v); }); break;
    case 17: op("Vector copy and move", [&] { Vector<Item> c(v); show_all(c); Vector<Item> m(move(c)); show_all(m); show_all(c); c.push_back(Item(9)); show_all(c); v.push_back(Item(7)); show_all(m); }); break;
    case 18: op("Vector iteration", [&] { t.out(v.end() - v.begin()); t.out(v.cend() - v.cbegin()); t.out(v.data() == v.begin()); }); break;
    case 19: op("Vector::reserve", [&] { size_t k = t.pick("k", 0, 2) * 10; v.reserve(k); t.out(v.capacity() >= k); if(n == 0 && k) { Item *before = v.data(); for(size_t i = 0; i < k; ++i) v.push_back(Item((int)i)); t.out(v.size()); (void)before; } }); break;
    case 20: op("Vector from a range", [&] { Vector<Item> o(v.begin(), v.end()); show_all(o); }); break;
    }
}
static void vectors() {
    Vector<Item> v;
    size_t n = t.pick("elements", 0, 6);
    if(n > 3) n += 11; // 15, 16, 17
    fill(v, n);
    vector_op(v);
    show_all(v);
}
static void vector_sequence() {
    Vector<Item> v;
    fill(v, t.pick("elements", 0, 2));
    for(int k = 0; k < QT(2, 3); ++k) {
        vector_op(v);
        show_all(v);
    }
}

// ---- FixedVector
typedef FixedVector<Item, 3> FV;
static void fixed_op(FV &v) {
    const size_t n = v.size();
    switch(t.pick("operation", 0, 14)) {
    case 0: op("FixedVector::try_push_back", [&] { Item i(small("new")); t.out(v.try_push_back(i)); t.out(v.try_push_back(move(i))); show(i); }); break;
    case 1: op("FixedVector::push_back", [&] { Item i(small("new")); v.push_back(i); }); break;
    case 2: op("FixedVector::push_back of a temporary", [&] { v.push_back(Item(small("new"))); }); break;
    case 3: op("FixedVector::insert", [&] { size_t at = position("at", n); v.insert(at, Item(small("new"))); }); break;
    case 4: op("FixedVector::pop_back", [&] { v.pop_back(); }); break;
    case 5: op("FixedVector::pop_front", [&] { v.pop_front(); }); break;
    case 6: op("FixedVector::delete_at", [&] { v.delete_at(position("at", n)); }); break;
    case 7: op("FixedVector::move_append", [&] { FV o; size_t k = t.pick("k", 0, 3); for(size_t i = 0; i < k; ++i) o.push_back(Item((int)i)); v.move_append(o); t.out(o.size()); }); break;
    case 8: op("FixedVector::move_append of itself", [&] { v.move_append(v); }); break;
    case 9: op("FixedVector::front", [&] { if(t.pick("const", 0, 1)) { const FV &c = v; show(c.front()); } else show(v.front()); }); break;
    case 10: op("FixedVector::back", [&] { if(t.pick("const", 0, 1)) { const FV &c = v; show(c.back()); } else show(v.back()); }); break;
    case 11: op("FixedVector::operator[]", [&] { show(v[position("i", n)]); }); break;
    case 12: op("const FixedVector::operator[]", [&] { const FV &c = v; show(c[position("i", n)]); }); break;
    case 13: op("FixedVector move", [&] { FV o(move(v)); show_all(o); show_all(v); v.push_back(Item(5)); v = move(o); show_all(o); FV &self = v; v = move(self); }); break;
    case 14: op("FixedVector basics", [&] { t.out(v.capacity()); t.out(v.is_full()); t.out(v.end() - v.begin()); t.out(v.data() == v.begin()); }); break;
    }
}
static void fixed_vector() {
    FV v;
    size_t n = t.pick("elements", 0, 3);
    for(size_t i = 0; i < n; ++i) v.push_back(Item(small("element")));
    for(int k = 0; k < QT(3, 4); ++k) {
        fixed_op(v);
        show_all(v);
    }
}

// ---- HashMap and HashSet.  The salt is the address of the map, so both runs use the same one.
struct Same {
    void feed_bytes(const char *, size_t) noexcept {}
    size_t get_hash_value() const noexcept { return 5; }
};
struct Last {
    unsigned char v = 0;
    void feed_bytes(const char *p, size_t n) noexcept {
        if(n == 4) v = (unsigned char)p[0];
    }
    size_t get_hash_value() const noexcept { return v & 3; }
};
template<typename M> static void map_show(const M &m) {
    t.out(m.size());
    t.out(m.is_empty());
    // the order depends on the layout
    uint64_t count = 0, keys = 0, values = 0;
    for(auto it = m.begin(); it != m.end(); ++it) {
        ++count;
        keys += 1ull << (4 * *(*it).key);
        values += (uint64_t)*(*it).value->p;
    }
    t.out(count);
    t.out(keys);
    t.out(values);
}
template<bool simple, typename M> static void map_ops(M &m, int keys, int steps) {
    for(int s = 0; s < steps; ++s) {
        int k = (int)t.pick("key", 0, (uint64_t)keys - 1);
        switch(t.pick("operation", 0, 6)) {
        case 0: op("HashMap::insert", [&] { Item &r = m.insert(k, Item(small("value"))); show(r); }); break;
        case 1: op("HashMap::remove", [&] { m.remove(k); }); break;
        case 2: op("HashMap::lookup", [&] { Item *r = m.lookup(k); t.out(r != nullptr); if(r) show(*r); t.out(m.contains(k)); }); break;
        case 3: op("HashMap::at", [&] { show(m.at(k)); }); break;
        case 4: op("HashMap::operator[]", [&] { m[k] = Item(small("value")); show(m[k]); }); break;
        case 5: op("HashMap::clear", [&] { m.clear(); }); break;
        case 6:
            if constexpr(simple) op("HashMap iteration", [&] { map_show(m); });
            break;
        }
        t.out(m.size());
    }
}
template<typename A> static void map_run(int keys, int steps, int filler) {
    typedef HashMap<int, Item, A> M;
    static_assert(sizeof(M) <= sizeof(room));
    M *m = new(room) M;
    for(int i = 0; i < filler; ++i) m->insert(100 + i, Item(i));
    map_ops<__is_same(A, SimpleHash)>(*m, keys, steps);
    for(int k = 0; k < keys; ++k) {
        Item *r = m->lookup(k);
        t.out(r != nullptr);
        if(r) show(*r);
    }
    t.out(m->size());
    m->~M();
}
static void hash_map() {
    switch(t.pick("hash", 0, 2)) {
    case 0: map_run<SimpleHash>(2, QT(4, 5), 0); break;
    case 1: map_run<Same>(2, QT(4, 5), 0); break;
    case 2: map_run<Last>(2, QT(4, 5), 0); break;
    }
}
static void hash_map_growth() {
    switch(t.pick("hash", 0, 1)) {
    case 0: map_run<SimpleHash>(2, 2, (int)t.pick("filled", 9, QT(25, 37))); break;
    case 1: map_run<Last>(2, 2, (int)t.pick("filled", 9, QT(25, 37))); break;
    }
}
static void hash_set() {
    typedef HashSet<U8String> S;
    static_assert(sizeof(S) <= sizeof(room));
    S *s = new(room) S;
    static const char *const names[] = {"", "a", "b\xc3\xa4"};
    for(int i = 0; i < QT(4, 5); ++i) {
        U8String k(names[t.pick("key", 0, 2)]);
        switch(t.pick("operation", 0, 3)) {
        case 0: op("HashSet::insert", [&] { HashInsertResult r = s->insert(k); t.out((uint64_t)r.first_); t.out(r.second); }); break;
        case 1: op("HashSet::remove", [&] { s->remove(k); }); break;
        case 2: op("HashSet::contains", [&] { t.out(s->contains(k)); t.out(s->is_empty()); }); break;
        case 3: op("HashSet iteration", [&] { size_t n = 0, b = 0; for(auto &x : *s) { ++n; b += x.size_bytes(); } t.out(n); t.out(b); }); break;
        }
        t.out(s->size());
    }
    op("HashSet::clear", [&] { s->clear(); });
    t.out(s->size());
    s->~S();
}
static void hashes() {
    t.what = "Hasher";
    int64_t v = (int64_t)t.sym("value", 64);
    Hasher<SimpleHash> a, b, c, d, e, f, g, h, i;
    a.feed_hash((int8_t)v);
    b.feed_hash((uint8_t)v);
    c.feed_hash((int16_t)v);
    d.feed_hash((uint16_t)v);
    e.feed_hash((int32_t)v);
    f.feed_hash((uint32_t)v);
    g.feed_hash(v);
    h.feed_hash((uint64_t)v);
    i.feed_hash((const int *)v);
    t.out(a.get_hash_value());
    t.out(b.get_hash_value());
    t.out(c.get_hash_value());
    t.out(d.get_hash_value());
    t.out(e.get_hash_value());
    t.out(f.get_hash_value());
    t.out(g.get_hash_value());
    t.out(h.get_hash_value());
    t.out(i.get_hash_value());
    Hasher<SimpleHash> z;
    z.feed_hash(U8String("a\xc3\xa4"));
    z.feed_hash((int8_t)v);
    t.out(z.get_hash_value());
}

// ---- B-trees
static int tree_key(int order, int i) {
    switch(order) {
    case 0: return i * 2;
    case 1: return 300 - i * 2;
    case 2: return (i * 37) % 101;
    default: return i % 2 ? 150 + i : 150 - i;
    }
}
template<typename T, size_t N> static void tree_run(int keys, int steps, int filler) {
    BTree<T, N> s;
    int order = (int)t.pick("order", filler ? 0 : 2, filler ? 3 : 2);
    if(filler > 10) s.reserve((size_t)filler);
    for(int i = 0; i < filler; ++i) s.insert(T(tree_key(order, i)));
    for(int i = 0; i < steps; ++i) {
        T k(tree_key(order, (int)t.pick("key", 0, (uint64_t)keys - 1)));
        switch(t.pick("operation", 0, 1)) {
        case 0: op("BTree::insert", [&] { s.insert(k); }); break;
        case 1: op("BTree::remove", [&] { s.remove(k); }); break;
        }
        t.out(s.size());
        t.out(s.is_empty());
    }
    t.what = "BTree::lookup";
    for(int i = 0; i < filler + keys; ++i) {
        const T k(tree_key(order, i));
        const T *f = s.lookup(k);
        t.out(f != nullptr);
        if(f) show(*f);
    }
    t.what = "BTree::contains";
    if(filler) for(int k = 0; k < 310; k += 7) t.out(s.contains(T(k)));
}
static void b_tree() {
    if(t.pick("width", 0, 1)) tree_run<int, 3>(QT(4, 5), QT(5, 6), 0);
    else tree_run<int, 5>(QT(4, 5), QT(5, 6), 0);
}
static void b_tree_large() {
    int n = (int)t.pick("elements", 1, QT(16, 60));
    if(t.pick("width", 0, 1)) tree_run<int, 3>(n + 1, QT(2, 3), n);
    else tree_run<int, 5>(n + 1, QT(2, 3), n);
}
static void b_tree_items() {
    int n = (int)t.pick("elements", 1, QT(20, 60));
    if(t.pick("width", 0, 1)) tree_run<Item, 3>(n + 1, QT(1, 2), n);
    else tree_run<Item, 5>(n + 1, QT(1, 2), n);
}
static void b_tree_dismantled() {
    // removed one by one, in another order
    BTreeSet<int, 3> s;
    int n = (int)t.pick("elements", 10, QT(40, 70)), in = (int)t.pick("order", 0, 3), from = (int)t.pick("removed", 0, 3);
    for(int i = 0; i < n; ++i) s.insert(tree_key(in, i));
    for(int i = 0; i < n; ++i) {
        op("BTreeSet::remove", [&] {
            int k = from == 0 ? i : from == 1 ? n - 1 - i : from == 2 ? (i * 7) % n : (i + n / 2) % n;
            s.remove(tree_key(in, k));
        });
        t.out(s.size());
        if(i % 4 == 0) for(int k = 0; k < n; ++k) t.out(s.contains(tree_key(in, k)));
    }
}
static void b_tree_symbolic() {
    BTreeSet<int, 3> s;
    int n = (int)t.pick("elements", 0, QT(5, 6));
    for(int i = 0; i < n; ++i) s.insert(small("key"));
    t.out(s.size());
    t.out(s.is_empty());
    op("BTreeSet::contains", [&] { t.out(s.contains(small("asked"))); });
    op("BTreeSet::remove", [&] { s.remove(small("removed")); });
    t.out(s.size());
}

// ---- Optional, Expected, owners
static void show(const Optional<Item> &o) {
    t.out((bool)o);
    if(o) show(*o);
}
static Optional<Item> make_optional() {
    if(t.pick("full", 0, 1)) return Optional<Item>(Item(small("value")));
    return Optional<Item>();
}
static void optional() {
    Optional<Item> o = make_optional();
    for(int k = 0; k < QT(3, 4); ++k) {
        switch(t.pick("operation", 0, 10)) {
        case 0: op("Optional copy", [&] { Optional<Item> c(o); show(c); }); break;
        case 1: op("Optional move", [&] { Optional<Item> m(move(o)); show(m); }); break;
        case 2: op("Optional copy assignment", [&] { Optional<Item> c = make_optional(); o = c; show(c); Optional<Item> &self = o; o = self; }); break;
        case 3: op("Optional move assignment", [&] { Optional<Item> c = make_optional(); o = move(c); show(c); Optional<Item> &self = o; o = move(self); }); break;
        case 4: op("Optional assignment of a value", [&] { Item i(small("new")); o = move(i); }); break;
        case 5: op("Optional assignment of a constant value", [&] { const Item i(small("new")); o = i; }); break;
        case 6: op("Optional::operator*", [&] { if(t.pick("const", 0, 1)) { const auto &c = o; show(*c); } else show(*o); }); break;
        case 7: op("Optional::value", [&] { show(o.value()); }); break;
        case 8: op("const Optional::value", [&] { const auto &c = o; show(c.value()); }); break;
        case 9: op("Optional::operator->", [&] { if(t.pick("const", 0, 1)) { const auto &c = o; t.out((uint64_t)*c->p); } else t.out((uint64_t)*o->p); }); break;
        case 10: op("Optional from a value", [&] { Item i(small("new")); Optional<Item> c(i); show(c); show(i); }); break;
        }
        show(o);
    }
}
static void optional_pointer() {
    int a = 1;
    Optional<int *> o(t.pick("full", 0, 1) ? &a : nullptr), e;
    t.out((bool)o);
    t.out((bool)e);
    op("Optional pointer", [&] { t.out((uint64_t)o.value()); });
    Optional<int *> c(o);
    t.out((bool)c);
    Optional<int *> m(move(o));
    t.out((bool)m);
    e = m;
    t.out((bool)e);
    e.reset();
    t.out((bool)e);
}
static void expected() {
    typedef Expected<Item, int> X;
    typedef Expected<int, Item> Y;
    switch(t.pick("kind", 0, 5)) {
    case 0: op("Expected", [&] { X x; t.out(x.has_value()); t.out(x.has_error()); t.out((bool)x); }); break;
    case 1: op("Expected value", [&] { X x(Item(small("value"))); t.out(x.has_value()); t.out(x.has_error()); t.out((bool)x); const Item i(3); X y(i); t.out(y.has_value()); }); break;
    case 2: op("Expected error", [&] { X x(small("error")); t.out(x.has_value()); t.out(x.has_error()); t.out((uint64_t)x.error()); }); break;
    case 3: op("Expected error", [&] { Y y{Item(small("error"))}; show(y.error()); Y m(move(y)); show(m.error()); t.out(y.has_error()); Y n; n = move(m); t.out(n.has_error()); show(n.error()); t.out(m.has_error()); }); break;
    case 4: op("Unexpected", [&] { Y y{Unexpected<Item>(Item(small("error")))}; show(y.error()); Unexpected<Item> u(Item(2)); show(u.error()); }); break;
    case 5: op("Expected assignment", [&] { Y y(3); Y e; y = move(e); t.out(y.has_value()); t.out(y.has_error()); }); break;
    }
}
static int deletions, null_deletions;
struct CountingDeleter {
    static void del(Item *i) {
        if(i) ++deletions;
        else ++null_deletions;
        delete i;
    }
};
static void owners() {
    {
        typedef unique_ptr<Item, CountingDeleter> P;
        P p = t.pick("full", 0, 1) ? P(new Item(small("value"))) : P();
        for(int k = 0; k < 2; ++k) {
            switch(t.pick("operation", 0, 5)) {
            case 0: op("unique_ptr move", [&] { P q(move(p)); t.out((bool)q); t.out((bool)p); }); break;
            case 1: op("unique_ptr assignment", [&] { P q(new Item(1)); p = move(q); t.out((bool)q); P &self = p; p = move(self); }); break;
            case 2: op("unique_ptr::reset", [&] { p.reset(t.pick("to null", 0, 1) ? nullptr : new Item(2)); }); break;
            case 3: op("unique_ptr::release", [&] { Item *i = p.release(); t.out(i != nullptr); delete i; }); break;
            case 4: op("unique_ptr access", [&] { if(p) { show(*p); t.out((uint64_t)*p->p); const P &c = p; t.out((uint64_t)*c->p); t.out(c.get() == p.get()); } }); break;
            case 5: break;
            }
            t.out((bool)p);
            t.out((uint64_t)deletions);
        }
    }
    t.out((uint64_t)deletions);
    t.what = "a deleter is not handed null more often";
    nulls_seen(null_deletions);
    unique_arr<int> a(2), b;
    a[0] = small("element");
    a[1] = 4;
    op("unique_arr", [&] { size_t i = position("i", 2); t.out((uint64_t)a[i]); });
    op("const unique_arr", [&] { const auto &c = a; t.out((uint64_t)c[position("i", 2)]); t.out(c.get() != nullptr); });
    unique_arr<int> c(move(a));
    t.out(a.size());
    t.out(c.size_bytes());
    b = move(c);
    t.out(b.size());
    t.out((uint64_t)b[0]);
    t.out(b.get() != nullptr);
    t.out(c.get() == nullptr);
    unique_arr<int> d(new int[3]);
    t.out(d.size());
}

// ---- Variant
typedef Variant<int, Item, U8String> Var;
static void show(const Var &v) {
    t.out((uint64_t)(int)v.index());
    t.out(v.contains<int>());
    t.out(v.contains<Item>());
    t.out(v.contains<U8String>());
    if(const int *i = v.get_if<int>()) t.out((uint64_t)*i);
    if(const Item *i = v.get_if<Item>()) show(*i);
    if(const U8String *s = v.get_if<U8String>()) show(*s);
}
static Var make_variant() {
    switch(t.pick("alternative", 0, 3)) {
    case 0: return Var();
    case 1: return Var(small("number"));
    case 2: return Var(Item(small("item")));
    default: return Var(U8String("\xc3\xa4"));
    }
}
static void variant() {
    Var v = make_variant();
    for(int k = 0; k < QT(3, 4); ++k) {
        switch(t.pick("operation", 0, 9)) {
        case 0: op("Variant copy", [&] { const Var &c = v; Var w(c); show(w); }); break;
        case 1: op("Variant move", [&] { Var w(move(v)); show(w); v = move(w); }); break;
        case 2: op("Variant copy assignment", [&] { const Var w = make_variant(); v = w; show(w); const Var &self = v; v = self; }); break;
        case 3: op("Variant move assignment", [&] { Var w = make_variant(); v = move(w); Var &self = v; v = move(self); }); break;
        case 4: op("Variant::get of a number", [&] { t.out((uint64_t)v.get<int>()); }); break;
        case 5: op("Variant::get of an object", [&] { show(v.get<Item>()); }); break;
        case 6: op("const Variant::get", [&] { const Var &c = v; show(c.get<U8String>()); }); break;
        case 7: op("Variant::insert", [&] { if(t.pick("which", 0, 1)) v.insert(Item(small("item"))); else v.insert(U8String("xy")); }); break;
        case 8: op("Variant::get_if", [&] { if(int *i = v.get_if<int>()) *i = small("number"); if(Item *i = v.get_if<Item>()) *i = Item(9); }); break;
        case 9: op("Variant from a constant", [&] { const Item i(small("item")); Var w(i); show(w); Item j(2); Var x(j); show(x); }); break;
        }
        show(v);
    }
}

// ---- spans, stacks, ranges and views
static void spans() {
    size_t n = t.pick("elements", 0, 3);
    int *a = new int[n];
    for(size_t i = 0; i < n; ++i) a[i] = small("element");
    Span<int> s(a, n);
    op("Span::operator[]", [&] { show(s[position("i", n)]); });
    op("const Span::operator[]", [&] { const auto &c = s; show(c[position("i", n)]); show(c.at(t.pick("j", 0, n))); });
    op("Span::subspan", [&] { size_t at = position("at", n); Span<int> p = s.subspan(at, position("k", n)); t.out(p.begin() - a); show_all(p); });
    op("Span basics", [&] { show_all(s); Span<int> e; show_all(e); e = s; t.out(e.cend() - e.cbegin()); });
    delete[] a;
}
static void stacks() {
    Stack<Item> s;
    for(int k = 0; k < QT(5, 6); ++k) {
        switch(t.pick("operation", 0, 4)) {
        case 0: op("Stack::push", [&] { Item i(small("new")); s.push(i); }); break;
        case 1: op("Stack::pop", [&] { s.pop(); }); break;
        case 2: op("Stack::top", [&] { if(t.pick("const", 0, 1)) { const auto &c = s; show(c.top()); } else show(s.top()); }); break;
        case 3: op("Stack::clear", [&] { s.clear(); }); break;
        case 4: op("Stack move", [&] { Stack<Item> o(move(s)); t.out(s.size()); s = move(o); }); break;
        }
        t.out(s.size());
        t.out(s.is_empty());
    }
}
static int64_t near(const char *name) {
    static const int64_t at[] = {0, 7, -3, INT64_MAX - 3, INT64_MIN + 3};
    return at[t.pick(name, 0, 4)] + (int64_t)t.sym(name, 3) - 3;
}
static void ranges() {
    Range r;
    switch(t.pick("arguments", 0, 3)) {
    case 0: break;
    case 1: r = Range(near("end")); break;
    case 2: { int64_t a = near("start"); r = Range(a, near("end")); break; }
    case 3: { int64_t a = near("start"), z = near("end"); r = Range(a, z, (int64_t)t.sym("step", 3) + 1); break; }
    }
    t.what = "Range::next";
    for(int i = 0; i < QT(8, 12); ++i) {
        auto v = r.next();
        t.out((bool)v);
        if(v) t.out((uint64_t)*v);
    }
    Range m(move(r));
    auto v = m.next();
    t.out((bool)v);
}
static void views() {
    size_t n = t.pick("elements", 0, 3);
    Vector<int> v;
    for(size_t i = 0; i < n; ++i) v.push_back(small("element"));
    t.what = "EnumerateView";
    for(auto e : EnumerateView(v)) {
        t.out(e.i);
        show(e.value);
    }
    t.what = "LoopView";
    Range r((int64_t)n);
    LoopView l(r);
    for(auto &i : l) t.out((uint64_t)i);
    t.what = "Loopsume";
    for(auto &i : Loopsume(Range(2, 2 + (int64_t)n))) t.out((uint64_t)i);
}

// ---- algorithms
struct Ints {
    size_t n;
    int *a;
    Ints(size_t most) : n{t.pick("elements", 0, most)}, a{new int[n]} {
        for(size_t i = 0; i < n; ++i) a[i] = small("element");
    }
    ~Ints() { delete[] a; }
    void show() {
        for(size_t i = 0; i < n; ++i) t.out((uint64_t)a[i]);
    }
};
static void algorithms() {
    Ints x(QT(5, 6));
    int *a = x.a, *z = x.a + x.n;
    switch(t.pick("algorithm", 0, 8)) {
    case 0: op("find", [&] { t.out((uint64_t)(find(a, z, small("value")) - a)); }); break;
    case 1: op("find_if_not", [&] { int k = small("value"); t.out((uint64_t)(find_if_not(a, z, [k](int i) { return i < k; }) - a)); }); break;
    case 2: op("min_element", [&] { t.out((uint64_t)(min_element(a, z) - a)); }); break;
    case 3: op("insertion_sort", [&] { insertion_sort(a, z); }); break;
    case 4: op("insertion_sort of a span", [&] { insertion_sort(Span<int>(a, x.n)); }); break;
    case 5: {
        for(size_t i = 1; i < x.n; ++i) vx_assume(a[i - 1] <= a[i]);
        op("lower_bound", [&] { int *r = lower_bound(a, z, small("value")); t.out(r ? (uint64_t)(r - a) : 99); });
        break;
    }
    case 6: {
        for(size_t i = 1; i < x.n; ++i) vx_assume(a[i - 1] >= a[i]);
        op("lower_bound with a comparator", [&] { int *r = lower_bound(a, z, small("value"), [](int p, int q) { return p > q; }); t.out(r ? (uint64_t)(r - a) : 99); });
        break;
    }
    case 7: op("partition", [&] { int k = small("value"); t.out((uint64_t)(partition(a, z, [k](int i) { return i < k; }) - a)); }); break;
    case 8: op("swap", [&] { if(x.n > 1) { swap(a[0], a[1]); swap(a[0], a[0]); } Item p(1), q(2); swap(p, q); show(p); show(q); swap(p, p); show(p); }); break;
    }
    x.show();
}
static void sort_items() {
    size_t n = t.pick("elements", 0, QT(5, 6));
    Vector<Item> v;
    fill(v, n);
    op("insertion_sort", [&] { insertion_sort(v.begin(), v.end()); });
    show_all(v);
}
static void clamping() {
    int64_t v = (int64_t)t.sym("value", 64), lo = (int64_t)t.sym("low", 64), hi = (int64_t)t.sym("high", 64);
    vx_assume(lo <= hi);
    t.what = "clamp";
    t.out((uint64_t)clamp(v, lo, hi));
    t.what = "maxval and minval";
    int a = (int)t.sym("a", 31), b = (int)t.sym("b", 31);
    t.out((uint64_t)maxval(a, b));
    t.out((uint64_t)minval(a, b));
}
static uint64_t bits_of(double d) {
    if(d != d) return 1;
    uint64_t r;
    memcpy(&r, &d, 8);
    return r;
}
static double number(const char *name) {
    static const double all[] = {-__builtin_inf(), -1.5, -0.0, 0.0, 1e-310, 2.0, __builtin_inf(), __builtin_nan("")};
    return all[t.pick(name, 0, 7)];
}
static void clamping_doubles() {
    double v = number("value"), lo = number("low"), hi = number("high");
    vx_assume(!(lo > hi));
    t.what = "clamp of doubles";
    t.out(bits_of(clamp(v, lo, hi)));
}
