// ---- bytes
static bool few = false; // fewer variants of second operands
static Bytes make_bytes() {
    Bytes b;
    if(few) {
        Blk d("byte", t.pick("length", 0, 2));
        return Bytes(d.p, d.n);
    }
    switch(t.pick("bytes from", 0, 4)) {
    case 0: break;
    case 1: b = Bytes((size_t)t.pick("room", 0, 3)); break;
    case 2: {
        Blk d("byte", t.pick("length", 0, 3));
        b = Bytes(d.p, d.n);
        break;
    }
    case 3: {
        Blk d("byte", t.pick("length", 0, 2));
        if(t.pick("reversed", 0, 1)) b = Bytes((const char *)(d.p + d.n), (const char *)d.p);
        else b = Bytes((const char *)d.p, (const char *)(d.p + d.n));
        break;
    }
    case 4: b = Bytes((size_t)t.pick("count", 0, 3), t.chr("fill")); break;
    }
    return b;
}
static void refill(Bytes &b, size_t old) {
    for(size_t i = old; i < b.size() && i < 64; ++i) b.data()[i] = (char)('k' + i);
}
static void bytes_op(Bytes &b) {
    const size_t n = b.size();
    if(n > 64) return;
    switch(t.pick("operation", 0, 21)) {
    case 0: op("Bytes::append", [&] { b.append(t.chr("c")); }); break;
    case 1: op("Bytes::append of a range", [&] { Blk d("byte", t.pick("k", 0, 2)); b.append(d.p, d.p + d.n); }); break;
    case 2: op("Bytes::pop_back", [&] { b.pop_back(position("k", n)); }); break;
    case 3: op("Bytes::pop_front", [&] { b.pop_front(t.pick("k", 0, n + 1)); }); break;
    case 4: op("Bytes::insert", [&] { size_t at = position("at", n); Blk d("byte", t.pick("k", 0, 2)); b.insert(at, d.p, d.n); }); break;
    case 5: op("Bytes::remove", [&] { size_t from = t.pick("from", 0, n + 1), to = t.pick("to", 0, n); b.remove(from, to); }); break;
    case 6: op("Bytes::assign", [&] { Blk d("byte", t.pick("k", 0, 4)); b.assign(d.p, d.n); }); break;
    case 7: op("Bytes::extend", [&] { b.extend(t.pick("k", 0, 2) * 9); refill(b, n); }); break;
    case 8: op("Bytes::shrink", [&] { b.shrink(position("k", n)); }); break;
    case 9: op("Bytes::resize_to", [&] { b.resize_to(t.pick("k", 0, n + 1)); refill(b, n); }); break;
    case 10: op("Bytes::resize", [&] { b.resize(t.pick("k", 0, n + 18)); refill(b, n); }); break;
    case 11: op("Bytes copy assignment", [&] { Bytes o = make_bytes(); b = o; show(o); b = b; }); break;
    case 12: op("Bytes move assignment", [&] { Bytes o = make_bytes(); b = move(o); t.out(o.size()); }); break;
    case 13: op("Bytes::operator+=", [&] { if(t.pick("self", 0, 1)) b += b; else { Bytes o = make_bytes(); b += o; } }); break;
    case 14: op("Bytes::front", [&] { t.out((unsigned char)b.front()); }); break;
    case 15: {
        Bytes o = make_bytes();
        op("Bytes comparison", [&] { t.out(b == o); t.out(b < o); t.out(o < b); });
        break;
    }
    case 16: {
        BytesView v = t.pick("view()", 0, 1) ? b.view() : BytesView(b);
        op("BytesView", [&] { t.out(v.is_empty()); t.out(v.size()); t.out(v.size_bytes()); for(char c : v) t.out((unsigned char)c); });
        op("BytesView::operator[]", [&] { t.out((unsigned char)v[position("i", n)]); });
        op("BytesView::subview", [&] { size_t a = position("at", n); show(v.subview(a, position("k", n))); });
        break;
    }
    case 17: op("Bytes::clear", [&] { b.clear(); t.out(b.is_empty()); }); break;
    case 18: op("Bytes::reserve", [&] { size_t k = t.pick("k", 0, 3) * 9; b.reserve(k); t.out(b.capacity() >= k); }); break;
    case 19: {
        op("Bytes::is_ptr_within", [&] { t.out(b.is_ptr_within(b.data() + t.pick("i", 0, n))); t.out(b.is_ptr_within(b.data() - 1)); });
        op("Bytes iteration", [&] { for(char c : b) t.out((unsigned char)c); t.out(b.is_empty()); });
        break;
    }
    case 20: op("Bytes copy and move", [&] { Bytes c(b); show(c); Bytes m(move(c)); show(m); t.out(c.size()); c = m; show(c); }); break;
    case 21: op("Bytes hash and []", [&] { t.out(hash_of(b)); t.out((unsigned char)b[t.pick("i", 0, n)]); }); break;
    }
}
static void bytes() {
    Bytes b;
    op("Bytes construction", [&] { b = make_bytes(); });
    show(b);
    for(int k = 0; k < QT(1, 2); ++k) {
        bytes_op(b);
        show(b);
    }
}
static void bytes_sequence() {
    few = true;
    Blk d("byte", t.pick("length", 0, QT(1, 2)));
    Bytes b(d.p, d.n);
    for(int k = 0; k < QT(2, 3); ++k) {
        bytes_op(b);
        show(b);
    }
}
static void bytes_back() {
    // the last byte of the capacity, which is the last byte here
    size_t n = t.pick("length", 0, 4);
    Blk d("byte", n);
    Bytes b(d.p, d.n);
    op("Bytes::back", [&] { t.out((unsigned char)b.back()); });
    Bytes e;
    op("Bytes::back", [&] { t.out((unsigned char)e.back()); });
}
// sizes around those at which the buffer grows
static void bytes_growth() {
    size_t n = t.pick("length", 0, 70);
    Bytes b;
    char c = t.chr("c");
    for(size_t i = 0; i < n; ++i) b.append((char)(c + i));
    Bytes o(b);
    switch(t.pick("then", 0, 5)) {
    case 0: op("Bytes::append", [&] { b.append('x'); }); break;
    case 1: op("Bytes::operator+=", [&] { b += o; }); break;
    case 2: op("Bytes::insert", [&] { b.insert(n / 2, o.data(), o.size()); }); break;
    case 3: op("Bytes::resize_to", [&] { b.resize_to(n + 20); refill(b, n); }); break;
    case 4: op("Bytes::assign", [&] { b.assign(o.data(), n / 2); }); break;
    case 5: op("Bytes::pop_front", [&] { b.pop_front(n / 2); }); break;
    }
    t.out(b.data(), b.size());
}

// ---- views of C strings
static void view_ops() {
    size_t n = t.pick("length", 0, QT(3, 4));
    Blk d("char", n);
    const char *b = d.p;
    CStringView v = t.pick("from", 0, 1) ? CStringView(b, b + n) : CStringView(b, n);
    switch(t.pick("operation", 0, 10)) {
    case 0: op("CStringView range", [&] { CStringView w(b + n, (const char *)b); show(w); }); break;
    case 1: {
        Blk z("other", t.pick("k", 0, 3), true);
        op("CStringView and a C string", [&] { t.out(v == (const char *)z.p); t.out(v.starts_with((const char *)z.p)); CStringView w((const char *)z.p); show(w); show(CStringView(z.p, (size_t)-1)); });
        break;
    }
    case 2: {
        Blk z("other", t.pick("k", 0, 3));
        CStringView w(z.p, z.n);
        op("CStringView comparison", [&] { t.out(v == w); t.out(v.starts_with(w)); });
        op("CStringView::operator<", [&] { t.out(v < w); t.out(w < v); });
        break;
    }
    case 3: op("CStringView::front", [&] { t.out((unsigned char)v.front()); }); break;
    case 4: op("CStringView::find of a character", [&] { t.out(v.find(t.chr("c"))); }); break;
    case 5: op("CStringView::substr", [&] { size_t a = position("at", n); show(v.substr(a, position("k", n))); }); break;
    case 6: op("CStringView::operator[]", [&] { t.out((unsigned char)v[position("i", n)]); t.out((unsigned char)v.at(t.pick("j", 0, n))); }); break;
    case 7: {
        Blk z("other", t.pick("k", 0, 3));
        op("CStringView::find", [&] { t.out(v.find(CStringView(z.p, z.n))); });
        break;
    }
    case 8: {
        size_t a = t.pick("from", 0, n), z = t.pick("to", a, n), e = t.pick("from", 0, n), f = t.pick("to", e, n);
        CStringView x(b + a, b + z), y(b + e, b + f);
        op("CStringView::overlaps", [&] { t.out(x.overlaps(y)); });
        break;
    }
    case 9: op("CStringView case", [&] { show(v.upper()); show(v.lower()); }); break;
    case 10: op("CStringView basics", [&] { t.out(v.is_empty()); t.out(v.size()); for(char c : v) t.out((unsigned char)c); CStringView e; t.out(e.is_empty()); t.out(e == v); t.out((unsigned char)e[0]); }); break;
    }
}

// ---- C strings
static CString make_cstring() {
    switch(t.pick("string from", 0, 4)) {
    case 0: return CString();
    case 1: { Blk d("char", t.pick("length", 0, 3)); return CString(Bytes(d.p, d.n)); }
    case 2: { Blk d("char", t.pick("length", 0, 2)); return CString(CStringView(d.p, d.n)); }
    case 3: { Blk d("char", t.pick("length", 0, 2), true); return CString(d.p); }
    default: { Blk d("char", t.pick("length", 0, 3)); return CString(d.p, d.n); }
    }
}
static CString plain_cstring(const char *name, size_t most) {
    Blk d(name, t.pick(name, 0, most), true);
    return CString(d.p);
}
static bool stop_after_two(const CStringView &piece, void *ctx) {
    show(piece);
    return ++*(int *)ctx < 2;
}
static void cstring_op(CString &s) {
    const size_t n = s.size();
    switch(t.pick("operation", 0, 29)) {
    case 0: op("CString::strip", [&] { s.strip(); }); break;
    case 1: op("CString::substr", [&] { size_t a = position("at", n), k = position("k", n); show(s.substr(a, k)); }); break;
    case 2: op("CString::operator[]", [&] { t.out((unsigned char)s[t.pick("i", 0, n)]); }); break;
    case 3: op("CString move assignment", [&] { CString o = plain_cstring("other", 2); s = move(o); s = move(s); }); break;
    case 4: { CString o = plain_cstring("other", 3); op("CString comparison", [&] { t.out(s == o); t.out(s == o.view()); t.out(s == o.c_str()); t.out(s < o); t.out(o < s); }); break; }
    case 5: op("CString::operator+=", [&] { if(t.pick("self", 0, 1)) s += s; else s += plain_cstring("other", 2); }); break;
    case 6: op("CString::operator+= of a character", [&] { s += t.chr("c"); }); break;
    case 7: { Blk z("other", t.pick("k", 0, 2), true); op("CString::operator+= of a C string", [&] { s += (const char *)z.p; }); break; }
    case 8: { Blk z("other", t.pick("k", 0, 2), true); op("CString assignment of a C string", [&] { s = (const char *)z.p; }); break; }
    case 9: op("CString::append of a character", [&] { s.append(t.chr("c")); }); break;
    case 10: { Blk z("other", t.pick("k", 0, 2), true); op("CString::append", [&] { size_t k = position("n", z.n); s.append((const char *)z.p, k); }); break; }
    case 11: { Blk z("other", t.pick("k", 0, 2)); op("CString::append of a range", [&] { s.append((const char *)z.p, (const char *)(z.p + z.n)); }); break; }
    case 12: op("CString hash", [&] { t.out(hash_of(s)); }); break;
    case 13: op("CString::split", [&] { Vector<CString> v = s.split(); t.out(v.size()); for(const auto &e : v) show(e); }); break;
    case 14: op("CString::split_by", [&] { Vector<CString> v = s.split_by(t.chr("c")); t.out(v.size()); for(const auto &e : v) show(e); }); break;
    case 15: op("CString::split with a callback", [&] { int k = 0; s.split(stop_after_two, &k); t.out(k); }); break;
    case 16: op("CString::split_by with a callback", [&] { int k = 0; s.split_by(t.chr("c"), stop_after_two, &k); t.out(k); }); break;
    case 17: op("CString basics", [&] { t.out(s.is_empty()); t.out(s.length()); show(s.view()); show(CStringView(s)); t.out((unsigned char)s.front()); t.out(s.mutable_data() == s.c_str()); }); break;
    case 18: op("CString::back", [&] { t.out((unsigned char)s.back()); }); break;
    case 19: op("CString::pop_back", [&] { s.pop_back(); }); break;
    case 20: op("CString::push_back", [&] { char c = t.chr("c"); vx_assume(c != 0); s.push_back(c); }); break;
    case 21: op("CString::insert", [&] { CString o = plain_cstring("other", 2); s.insert(t.pick("at", 0, n), o.view()); }); break;
    case 22: op("CString::insert of a part of itself", [&] { size_t a = t.pick("from", 0, n), z = t.pick("to", a, n); CStringView v(s.c_str() + a, z - a); s.insert(t.pick("at", 0, n), v); }); break;
    case 23: { CString o = plain_cstring("other", 2); op("CString::find", [&] { t.out(s.find(o.view())); }); break; }
    case 24: op("CString::rfind", [&] { t.out(s.rfind(t.chr("c"))); }); break;
    case 25: op("CString::reserve", [&] { s.reserve(t.pick("k", 0, 3) * 9); }); break;
    case 26: op("CString::remove", [&] { size_t a = t.pick("from", 0, n), z = t.pick("to", 0, n); s.remove(a, z); }); break;
    case 27: op("CString case", [&] { show(s.upper()); show(s.lower()); }); break;
    case 28: op("CString copy and move", [&] { CString c(s); show(c); t.out(c == s); CString m(move(c)); show(m); }); break;
    case 29: op("CString::resize", [&] { s.resize(t.pick("k", 0, n + 1)); }); break;
    }
}
static void cstring() {
    CString s;
    op("CString construction", [&] { s = make_cstring(); });
    show(s);
    cstring_op(s);
    show(s);
}
static void cstring_sequence() {
    CString s = plain_cstring("char", 2);
    for(int k = 0; k < QT(2, 3); ++k) {
        cstring_op(s);
        show(s);
    }
}
static void cstring_cleared() {
    CString s = plain_cstring("char", 2);
    s.clear();
    op("CString assignment after clear", [&] { s = CString("ab"); });
    show(s);
}
// longer texts: white space, case and searching
static void cstring_long() {
    size_t n = t.pick("length", 1, QT(40, 130));
    CString s;
    size_t at = t.pick("where", 0, 2);
    at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
    char c = t.chr("c");
    vx_assume(c != 0);
    for(size_t i = 0; i < n; ++i) s.append(i == at ? c : (char)(i % 7 == 3 ? ' ' : 'a' + i % 5));
    switch(t.pick("then", 0, 8)) {
    case 0: op("CString::strip", [&] { s.strip(); }); break;
    case 1: op("CString::split", [&] { Vector<CString> v = s.split(); t.out(v.size()); for(const auto &e : v) show(e); }); break;
    case 2: op("CString::split_by", [&] { Vector<CString> v = s.split_by('b'); t.out(v.size()); for(const auto &e : v) show(e); }); break;
    case 3: op("CString::find", [&] { CString o(s.c_str() + n / 3, n / 3); t.out(s.find(o.view())); }); break;
    case 4: op("CString::rfind", [&] { t.out(s.rfind('a')); t.out(s.rfind(c)); }); break;
    case 5: op("CString::insert", [&] { s.insert(n / 2, CStringView(s.c_str() + n / 4, n / 2)); }); break;
    case 6: op("CString case", [&] { show(s.upper()); show(s.lower()); }); break;
    case 7: op("CString comparison", [&] { CString o(s.c_str(), n - 1); t.out(s < o); t.out(o < s); t.out(s == o); t.out(s.view() < o.view()); t.out(o.view() < s.view()); t.out(hash_of(s)); }); break;
    case 8: op("CString::remove", [&] { s.remove(n / 4, n / 2); s += s; }); break;
    }
    show(s);
}

// ---- fixed strings
typedef FixedCString<3> F3;
static void fixed() {
    F3 s;
    op("FixedCString construction", [&] {
        switch(t.pick("from", 0, 3)) {
        case 0: break;
        case 1: { Blk z("char", t.pick("length", 0, 5), true); s = F3(z.p); break; }
        case 2: { Blk z("char", t.pick("length", 0, 4), true); s = F3(z.p, (uint32_t)z.n); break; }
        case 3: { Blk z("char", t.pick("length", 0, 5)); s = CStringView(z.p, z.n); break; }
        }
    });
    show(s.view());
    const size_t n = s.size();
    switch(t.pick("operation", 0, 8)) {
    case 0: op("FixedCString copy", [&] { F3 o(s); show(o.view()); t.text(o.c_str()); F3 p; p = o; show(p.view()); s = s; }); break;
    case 1: op("FixedCString move", [&] { F3 o(move(s)); show(o.view()); s = move(o); show(s.view()); show(o.view()); t.text(o.c_str()); F3 &self = s; s = move(self); }); break;
    case 2: { Blk z("other", t.pick("k", 0, 3), true); op("FixedCString comparison", [&] { t.out(s == (const char *)z.p); t.out(s == CStringView(z.p, z.n)); }); break; }
    case 3: op("FixedCString::operator[]", [&] { uint32_t i = (uint32_t)position("i", 3); t.out((unsigned char)s[i]); s[i] = t.chr("c"); }); break;
    case 4: op("FixedCString::pop_back", [&] { s.pop_back(); s.pop_back(); }); break;
    case 5: op("FixedCString basics", [&] { t.out(s.is_empty()); t.out(s.c_str() == s.view().data()); const F3 &c = s; t.out((unsigned char)c[(uint32_t)position("i", 3)]); t.text(c.c_str()); }); break;
    case 6: op("FixedCString assignment of its own part", [&] { size_t a = t.pick("from", 0, n), z = t.pick("to", a, n); s = CStringView(s.c_str() + a, z - a); }); break;
    case 7: op("FixedCString assignment between sizes", [&] { FixedCString<2> o("xy"); if(n < 3) o = CStringView(s.view()); s = o; }); break;
    case 8: op("FixedCString assignment", [&] { Blk z("other", t.pick("k", 0, 4)); s = CStringView(z.p, z.n); t.text(s.c_str()); }); break;
    }
    show(s.view());
}

// ---- UTF-8 strings
static void walk(const U8String &s) {
    op("U8String iteration", [&] {
        int k = 0;
        for(auto it = s.cbegin(); it != s.cend(); ++it, ++k) t.out(*it);
        t.out(k);
    });
    op("U8String reverse iteration", [&] {
        int k = 0;
        for(auto it = s.crbegin(); it != s.crend(); ++it, ++k) t.out(*it);
        t.out(k);
    });
    op("U8String iteration backwards", [&] {
        int k = 0;
        auto it = s.cend();
        while(it != s.cbegin()) {
            --it;
            t.out(*it);
            ++k;
        }
        t.out(k);
    });
    op("U8String postfix increment", [&] {
        if(s.is_empty()) return;
        auto it = s.cbegin();
        auto old = it++;
        t.out(*old);
        t.out(it == s.cend());
        auto r = s.crbegin();
        auto rold = r++;
        t.out(*rold);
        t.out(r == s.crend());
    });
    op("U8String iterators of another string", [&] {
        U8String copy(s);
        t.out(s.crbegin() == copy.crbegin());
        t.out(s.crend() != copy.crend());
        t.out(s.crbegin() == s.crbegin());
        t.out(s.crbegin() == s.crend());
        t.out(s.cbegin() == copy.cbegin());
        t.out(s.cend() != copy.cend());
        t.out(s.cbegin() == s.cbegin());
    });
}
static void utf8_valid() {
    size_t n = t.pick("length", 0, QT(4, 5));
    Blk d("byte", n);
    U8String s;
    op("U8String construction", [&] {
        switch(t.pick("from", 0, 1)) {
        case 0: s = U8String(d.p, n); break;
        case 1: s = U8String(Bytes(d.p, n)); break;
        }
    });
    show(s);
    walk(s);
}
static void utf8_terminated() {
    Blk z("char", t.pick("length", 0, 3), true);
    U8String s;
    op("U8String construction", [&] { s = U8String(z.p); });
    show(s);
    op("U8String comparison", [&] { t.out(s == (const char *)z.p); t.out(s.view() == (const char *)z.p); });
}
static U8String chars(const char *name, size_t most) {
    // of each encoded length, and white space
    static const char *const all[] = {" ", "b", "\xc3\x9f", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\n"};
    U8String s;
    size_t n = t.pick(name, 0, most);
    for(size_t i = 0; i < n; ++i) s += U8String(all[t.pick("character", 0, 5)]);
    return s;
}
static U8StringView part(const U8String &s) {
    auto a = s.cbegin();
    size_t k = t.pick("from", 0, 3);
    for(size_t i = 0; i < k && a != s.cend(); ++i) ++a;
    auto z = a;
    k = t.pick("characters", 0, 2);
    for(size_t i = 0; i < k && z != s.cend(); ++i) ++z;
    return U8StringView{a, z};
}
static bool u8_two(const U8StringView &piece, void *ctx) {
    show(piece);
    return ++*(int *)ctx < 2;
}
static bool is_euro(uint32_t c) { return c == 0x20ac || c == 'b'; }
static void utf8_ops() {
    U8String s = chars("text", 3);
    const size_t n = s.size_bytes();
    switch(t.pick("operation", 0, 18)) {
    case 0: op("U8String::substr", [&] { size_t a = t.pick("at", 0, n), k = t.pick("k", 0, n - a); show(s.substr(a, k)); }); break;
    case 1: op("U8String::view", [&] { show(s.view()); t.out(s.view().size_bytes()); t.out(s.is_empty()); }); break;
    case 2: { U8String o = chars("other", 2); op("U8String comparison", [&] { t.out(s == o); t.out(s < o); t.out(o < s); t.out(s == o.c_str()); t.out(s.view() == o.c_str()); }); break; }
    case 3: op("U8String copy and move", [&] { U8String c(s); show(c); U8String m(move(c)); show(m); c = m; show(c); m = move(c); show(m); s = m; }); break;
    case 4: op("U8String::operator+=", [&] { if(t.pick("self", 0, 1)) s += s; else s += chars("other", 1); }); break;
    case 5: op("U8String hash", [&] { t.out(hash_of(s)); }); break;
    case 6: op("U8String::split_ascii", [&] { auto v = s.split_ascii(); t.out(v.size()); for(const auto &e : v) show(e); }); break;
    case 7: op("U8String::split", [&] { int k = 0; s.split(u8_two, is_euro, &k); t.out(k); }); break;
    case 8: op("U8String::insert", [&] { U8String o = chars("other", 1); auto v = part(s); s.insert(v.start, o.view()); }); break;
    case 9: op("U8String::insert of a part of itself", [&] { auto v = part(s), w = part(s); s.insert(w.start, v); }); break;
    case 10: op("U8String::remove", [&] { s.remove(part(s)); }); break;
    case 11: op("U8String::remove of another's part", [&] { U8String o = chars("other", 1); U8String c(o); (void)c; s.remove(U8StringView{s.cend(), s.cbegin()}); }); break;
    case 12: op("U8String::pop_front", [&] { s.pop_front(); }); break;
    case 13: op("U8String::pop_back", [&] { s.pop_back(); }); break;
    case 14: op("U8String::contains", [&] { auto v = part(s); t.out(s.contains(v)); t.out(s.overlaps(v)); t.out(v.overlaps(part(s))); }); break;
    case 15: op("U8String from a view", [&] { show(U8String(part(s))); }); break;
    case 16: op("U8String case", [&] { show(s.upper()); show(s.lower()); show(part(s).upper()); show(part(s).lower()); }); break;
    case 17: op("U8String::reserve", [&] { s.reserve(t.pick("k", 0, 3) * 9); }); break;
    case 18: {
        Vector<U8String> v;
        size_t k = t.pick("pieces", 0, 3);
        for(size_t i = 0; i < k; ++i) v.push_back(i == 1 ? U8String("\xc3\xa4") : U8String("xy", i));
        op("U8String::join", [&] { show(s.join(v)); });
        break;
    }
    }
    show(s);
}
static void utf8_append_codepoint() {
    U8String s("a");
    uint32_t c = (uint32_t)t.sym("codepoint", 32);
    op("U8String::append_codepoint", [&] { s.append_codepoint(c); });
    show(s);
}
static void exceptions() {
    Blk z("char", t.pick("length", 0, 3), true);
    op("PyException", [&] { throw PyException(z.p); });
    op("PyException", [&] { throw PyException(U8String("\xc3\xa4 x")); });
    op("bootstrap_throw", [&] { bootstrap_throw(z.p); });
}
// ---- formatting, through a stand-in for vsnprintf
static void formatting() {
    op("cformat", [&] { CString r = cformat("%d", 7); show(r); });
    op("format_append", [&] { CString s("ab"); format_append(s, "%d", 7); show(s); });
}
