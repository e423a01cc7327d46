// Included in both namespaces.
static void show(const CStringView &v) { t.out(v.data(), v.size()); }
static void show(const BytesView &v) { t.out(v.data(), v.size()); }
static void show(const Bytes &b) {
    if(b.size() > 64) t.out(b.size());
    else t.out(b.data(), b.size());
}
static void show(const CString &s) { t.out(s.c_str(), s.size() + 1); }
static void show(const U8String &s) { t.out(s.c_str(), s.size_bytes() + 1); }
static void show(const U8StringView &v) { show(v.raw_view()); }

template<typename F> static void op(const char *name, F &&f) {
    t.what = name;
    try {
        f();
        t.out(0);
    } catch(const PyException &e) {
        t.out(1);
        t.text(e.what().c_str());
        t.mark(0);
    } catch(const char *m) {
        t.out(2);
        t.text(m);
        t.mark(0);
    }
}
template<typename T> static uint64_t hash_of(const T &o) {
    Hasher<SimpleHash> h;
    o.feed_hash(h);
    return h.get_hash_value();
}
