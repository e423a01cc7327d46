exec(open(os.path.join(V, 'tools', 'seeds', 's1.py')).read().split("seed('utf8")[0])
TR = '''struct Obj { static int alive; int v; Obj() noexcept : v(0) { ++alive; } Obj(int x) noexcept : v(x) { ++alive; }
  Obj(const Obj &o) noexcept : v(o.v) { ++alive; } Obj(Obj &&o) noexcept : v(o.v) { o.v = -1; ++alive; }
  ~Obj() { --alive; } Obj &operator=(const Obj &o) noexcept { v = o.v; return *this; }
  Obj &operator=(Obj &&o) noexcept { int t = o.v; o.v = -1; v = t; return *this; } };
int Obj::alive = 0;
'''
seed('reverse-long-characters', 'C02', SRC, [('''    --offset;
    while((original_str[offset] & CONTINUATION_MASK) == CONTINUATION_VALUE) {
        --offset;
    }''', '''    --offset;
    for(int i = 0; i < 2 && (original_str[offset] & CONTINUATION_MASK) == CONTINUATION_VALUE; ++i) {
        --offset;
    }''')],
 'walking backwards onto a character of four bytes that is not the last one',
 'The reverse iterator stops in the middle of four byte characters.',
 main('''int main() {
    const uint32_t cps[] = {0x41, 0x1F600, 0x20AC, 0xE4, 0x10FFFF, 0x42};
    U8String s("");
    for(auto c : cps) s.append_codepoint(c);
    size_t n = 6;
    for(auto it = s.crbegin(); it != s.crend(); ++it) {
        CHECK(n > 0);
        CHECK(*it == cps[--n]);
    }
    CHECK(n == 0);
}
'''))
seed('string-plus-itself', 'C05', SRC, [('''    if(this == &o) {
        // FIXME make fast.
        CString copy(o);
        return *this += copy;
    }
    bytes.pop_back();
    bytes += o.bytes;''', '''    bytes.pop_back();
    bytes += o.bytes;''')],
 'appending a C string to itself',
 'The terminator is removed from the argument as well, so that the result is not zero terminated.',
 main('''int main() {
    CString s("abc");
    s += s;
    CHECK(s.size() == 6);
    CHECK(strcmp(s.c_str(), "abcabc") == 0);
    CHECK(s == "abcabc");
}
'''))
seed('vector-own-first-element', 'C10', H, [('    bool is_ptr_within(const T *ptr) const { return ptr >= begin() && ptr < end(); }\n\n    void resize_capacity_to', '    bool is_ptr_within(const T *ptr) const { return ptr > begin() && ptr < end(); }\n\n    void resize_capacity_to')],
 'appending the first element of a vector to the vector when it is exactly full',
 'The element is read after the storage it lies in has been released.',
 main('''int main() {
    Vector<CString> v;
    for(int i = 0; i < 16; ++i) v.push_back(CString(i % 2 ? "odd numbered element" : "even numbered element"));
    while(v.size() < v.capacity()) v.push_back(CString("filler"));
    for(int i = 0; i < 3; ++i) {
        while(v.size() < v.capacity()) v.push_back(CString("filler"));
        v.push_back(v[0]);
        CHECK(v.back() == "even numbered element");
        CHECK(v[0] == "even numbered element");
    }
}
'''))
seed('fixedvector-move-leftovers', 'C11', H, [('''        num_entries = o.num_entries;
        o.destroy_contents();''', '''        num_entries = o.num_entries;
        o.num_entries = 0;''')],
 'moving a fixed-capacity vector of objects whose destructor matters also after they were moved from',
 'The moved-from objects are never destroyed.',
 main(TR + '''int main() {
    {
        FixedVector<Obj, 4> a;
        for(int i = 0; i < 3; ++i) a.push_back(Obj(i));
        CHECK(Obj::alive == 3);
        FixedVector<Obj, 4> b(move(a));
        CHECK(b.size() == 3 && b[2].v == 2 && a.size() == 0);
        CHECK(Obj::alive == 3);
        a.push_back(Obj(9));
        b = move(a);
        CHECK(b.size() == 1 && b[0].v == 9 && Obj::alive == 1);
    }
    CHECK(Obj::alive == 0);
}
'''))
seed('optional-copy-empty', 'C12', H, [('''            Optional<T> tmp(o);
            destroy();
            if(tmp) {
''', '''            Optional<T> tmp(o);
            if(tmp) {
                destroy();
''')],
 'copy assigning an empty optional to one that has a value',
 'The old value stays.',
 main(TR + '''int main() {
    Optional<Obj> a(Obj(3)), b, c(Obj(4));
    a = c;
    CHECK(a && a->v == 4);
    const Optional<Obj> &e = b;
    a = e;
    CHECK(!a);
    CHECK(Obj::alive == 1);
    a = c;
    CHECK(a->v == 4 && Obj::alive == 2);
}
'''))
seed('span-at-last', 'C14', H, [('''        if(subspan_size == (size_t)-1) {
            return Span(array + offset, arraysize - offset);''', '''        if(subspan_size == (size_t)-1) {
            return Span(array + offset, arraysize);''')],
 'a sub-span with an offset and no size',
 'The sub-span has the size of the whole span and ends behind it.',
 main('''int main() {
    int x[5] = {1, 2, 3, 4, 5};
    Span<int> s(x, 5);
    CHECK(s.subspan(0).size() == 5);
    CHECK(s.subspan(2).size() == 3 && s.subspan(2)[0] == 3 && s.subspan(2)[2] == 5);
    CHECK(s.subspan(5).size() == 0);
    bool refused = false;
    try { s.subspan(4)[1] = 3; } catch(...) { refused = true; }
    CHECK(refused);
}
'''))
seed('hashmap-hash-width', 'C15', 'include/pystd2026_hashtable.hpp', [('                data.md[slot] = SlotMetadata{SlotState::HasValue, (uint8_t)(hashval & BLOOM_MASK)};', '                data.md[slot] = SlotMetadata{SlotState::HasValue, (uint8_t)(hash_to_slot(hashval) & BLOOM_MASK)};')],
 'any key whose hash value has high bits (all of them, with a real hash function)',
 'The filter bits stored with a key do not match the ones lookups compare, so keys are not found.',
 main('''struct Wide { size_t v = 0; void feed_bytes(const char *b, size_t n) noexcept { for(size_t i = 0; i < n; ++i) v = v * 31 + (unsigned char)b[i]; }
  size_t get_hash_value() const noexcept { return v * 0x9E3779B97F4A7C15ull; } };
int main() {
    HashMap<int, int, Wide> m;
    for(int i = 0; i < 40; ++i) m.insert(i, i * 3);
    CHECK(m.size() == 40);
    for(int i = 0; i < 40; ++i) CHECK(m.lookup(i) && *m.lookup(i) == i * 3);
}
''', 'pystd2026_hashtable.hpp'))
seed('stable-partition-resume', 'C18', 'include/pystd2026_stablepartition.hpp', [('''        segment_begin = rotate_point;
        scan_point = segment_end;''', '''        segment_begin = rotate_point;
        scan_point = segment_begin;'''), ('''        if(middle == end) {
            return segment_begin;
        }
        auto segment_end''', '''        if(middle == end) {
            return segment_begin;
        }
        if(middle - segment_begin > 2) {
            ::pystd2026::swap(*segment_begin, *(middle - 1));
        }
        auto segment_end''')],
 'at least three elements of the second group in front of one of the first group',
 'Elements of the second group swap their places.',
 main('''struct E { int key, id; E() noexcept : key(0), id(0) {} E(int k, int i) noexcept : key(k), id(i) {} };
int main() {
    for(unsigned bits = 0; bits < 128; ++bits) {
        Vector<E> v;
        for(int i = 0; i < 7; ++i) v.push_back(E(bits >> i & 1, i));
        auto mid = stable_partition(v.begin(), v.end(), [](const E &e) { return e.key == 1; });
        for(auto it = v.begin(); it < v.end(); ++it) {
            CHECK((it->key == 1) == (it < mid));
            if(it != v.begin() && it != mid) CHECK((it - 1)->id < it->id);
        }
    }
}
''', 'pystd2026_stablepartition.hpp'))
seed('rotate-return', 'C20', 'include/pystd2026_rotate.hpp', [('''    if(LEFT_SIZE == 0) {
        return end;
    }''', '''    if(LEFT_SIZE == 0) {
        return begin;
    }''')],
 'rotation by nothing', 'The returned position of the former first element is wrong.',
 main('''int main() {
    int x[4] = {1, 2, 3, 4};
    CHECK(rotate(x, x + 1, x + 4) == x + 3);
    CHECK(rotate(x, x + 4, x + 4) == x);
    CHECK(rotate(x, x, x + 4) == x + 4);
    CHECK(x[0] == 2 && x[3] == 1);
}
''', 'pystd2026_rotate.hpp'))
seed('argparse-max-inclusive', 'C21', 'src/pystd2026_argparse.cpp', [('if(atype.maxval && intval > atype.maxval.value()) {', 'if(atype.maxval && intval >= atype.maxval.value()) {')],
 'an integer option whose value is exactly the maximum', 'The allowed maximum is refused.',
 main('''int main() {
    for(int v = 4; v < 12; ++v) {
        ArgParse p{pystd2026::U8String("x")};
        Argument a;
        a.name = CString("num");
        a.long_arg = CString("--num");
        a.type = ArgumentType::Integer;
        a.minval = (int64_t)5;
        a.maxval = (int64_t)10;
        p.add_argument(move(a));
        char arg[20];
        snprintf(arg, sizeof(arg), "--num=%d", v);
        const char *argv[] = {"prog", arg, nullptr};
        bool ok = true;
        try {
            auto r = p.parse_args(2, argv);
            CHECK(r);
            auto *x = r->value_of("num");
            CHECK(x && x->get<int64_t>() == v);
        } catch(PyException &) { ok = false; }
        CHECK(ok == (v >= 5 && v <= 10));
    }
}
''', 'pystd2026_argparse.hpp'), 'src/pystd2026_argparse.cpp')
seed('extra-args-short-value', 'C21', 'src/pystd2026_argparse.cpp', [('''            // FIXME, check for "-x=something".
            valuepart = current.substr(2);''', '''            // FIXME, check for "-x=something".
            valuepart = current.substr(2, current.size() - 3);''')],
 'a short option whose value is joined to it', 'The last character of the value is lost.',
 main('''int main() {
    ArgParse p{pystd2026::U8String("x")};
    Argument a;
    a.name = CString("out");
    a.short_arg = 'o';
    a.type = ArgumentType::String;
    p.add_argument(move(a));
    const char *argv[] = {"prog", "-oabc", nullptr};
    auto r = p.parse_args(2, argv);
    CHECK(r && r->value_of("out") && r->value_of("out")->get<CString>() == "abc");
}
''', 'pystd2026_argparse.hpp'), 'src/pystd2026_argparse.cpp')
seed('path-join-absolute', 'C22', 'src/pystd2026_filesystem.cpp', [('    if(o.is_abs() || buf.is_empty()) {\n        return o;', '    if(o.is_abs() && !is_abs()) {\n        return o;\n    }\n    if(buf.is_empty()) {\n        return o;')],
 'joining two absolute paths', 'The second absolute path is treated as if it were relative.',
 main('''int main() {
    Path a("/usr"), b("/etc/x"), c("rel");
    CHECK(strcmp((a / b).c_str(), "/etc/x") == 0);
    CHECK(strcmp((a / c).c_str(), "/usr/rel") == 0);
    CHECK(strcmp((c / b).c_str(), "/etc/x") == 0);
    CHECK(strcmp((Path("") / b).c_str(), "/etc/x") == 0);
}
'''), 'src/pystd2026_filesystem.cpp')
seed('glob-star-dot', 'C23', 'src/pystd2026_filesystem.cpp', [('''    } else if(pattern_char == '*') {
        if(text_offset == 0 && text_char == '.') {''', '''    } else if(pattern_char == '*') {
        if(text_char == '.') {''')],
 'a star that has to match text that begins with a dot inside the name', 'The name is not found.',
 main('''#include <sys/stat.h>
int main() {
    FILE *f = fopen("a.txt", "w");
    CHECK(f);
    fclose(f);
    f = fopen(".hidden", "w");
    fclose(f);
    int n = 0;
    auto g = Path(".").glob("a*");
    while(auto p = g.next()) ++n;
    CHECK(n == 1);
    auto h = Path(".").glob("*");
    n = 0;
    while(auto p = h.next()) n += p->c_str()[strlen(p->c_str()) - 1] == 't' ? 1 : 100;
    CHECK(n == 1 || n == 101); // demo itself may be in this directory
}
'''), 'src/pystd2026_filesystem.cpp')
seed('load-error-leak', 'C24', 'src/pystd2026_filesystem.cpp', [('''    if(ferror(f) != 0) {
        fclose(f);
        return Optional<Bytes>();
    }
    fclose(f);
    if(bytes_read''', '''    if(ferror(f) != 0) {
        return Optional<Bytes>();
    }
    fclose(f);
    if(bytes_read''')],
 'reading a file that can be opened and measured but not read', 'The file handle is never closed.',
 main('''#include <dirent.h>
static int open_fds() {
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while(readdir(d)) ++n;
    closedir(d);
    return n;
}
#include <sys/types.h>
extern "C" size_t __real_fread(void *, size_t, size_t, FILE *);
extern "C" int __wrap_ferror(FILE *) { return 1; }
int main() {
    FILE *f = fopen("x", "w");
    fputs("text", f);
    fclose(f);
    int before = open_fds();
    for(int i = 0; i < 5; ++i) {
        Path p("x");
        CHECK(!p.load_bytes());
    }
    CHECK(open_fds() == before);
}
'''), 'src/pystd2026_filesystem.cpp', '-Wl,--wrap=ferror')
seed('mapping-move-size', 'C25', H, [('''    MMapping(MMapping &&o) noexcept : buf{o.buf}, bufsize{o.bufsize} {
        o.buf = nullptr;
        o.bufsize = 0;
    }''', '''    MMapping(MMapping &&o) noexcept : buf{o.buf}, bufsize{o.bufsize} {
        if(bufsize % 4096 == 0) {
            o.buf = nullptr;
        }
        o.bufsize = 0;
    }''')],
 'moving a memory mapping (mmap_file does so itself)', 'The moved-from object still refers to the mapping and tries to release it.',
 main('''extern "C" int __real_munmap(void *, size_t);
static int calls;
extern "C" int __wrap_munmap(void *p, size_t n) { ++calls; return n == 100 && p == (void *)0x1000 ? 0 : -1; }
int main() {
    {
        MMapping a((void *)0x1000, 100);
        MMapping b(move(a));
        MMapping c(move(b));
        CHECK(c.span().size() == 100);
    }
    CHECK(calls == 1);
}
'''), '', '-Wl,--wrap=munmap')
seed('regex-group-count', 'C26', 'src/pystd2026_regex.cpp', [('    return ovector_count - 1;', '    return ovector_count == 1 ? 0 : ovector_count;')],
 'asking how many groups a pattern with groups has', 'One group too many is reported; asking for it fails.',
 main('''int main() {
    U8Regex r(U8String("(a)(b)?"));
    U8String text("xaby");
    auto m = regex_search(r, text);
    CHECK(m.num_groups() == 2);
    for(size_t i = 0; i <= m.num_groups(); ++i) m.group(i);
}
''', 'pystd2026_regex.hpp'), 'src/pystd2026_regex.cpp', '-lpcre2-8')
seed('unlock-error-ignored', 'C27', 'src/pystd2026_threading.cpp', [('''    auto rc = pthread_mutex_lock(&m);
    if(rc != 0) {''', '''    auto rc = pthread_mutex_lock(&m);
    if(rc < 0) {''')],
 'a mutex that can not be locked', 'The failure is not reported and the code goes on as if it held the lock.',
 main('''#include <errno.h>
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *) { return EDEADLK; }
int main() {
    Mutex m;
    bool reported = false;
    try { m.lock(); } catch(PyException &) { reported = true; }
    CHECK(reported);
}
''', 'pystd2026_threading.hpp'), 'src/pystd2026_threading.cpp', '-Wl,--wrap=pthread_mutex_lock')
seed('format-exact-buffer', 'C28', SRC, [('    } else if(rc >= bufsize) {', '    } else if(rc > bufsize) {')],
 'formatted text of exactly 1024 characters', 'The last character is replaced by a zero byte.',
 main('''int main() {
    for(int n = 1020; n < 1030; ++n) {
        CString s;
        char t[1100];
        memset(t, 'q', n);
        t[n] = 0;
        try { s = cformat("%s", t); } catch(PyException &) {}
        CHECK(s.size() == (size_t)n && s == t);
    }
}
'''))
seed('bytes-hash-capacity', 'C30', H, [('template<typename Hasher> void feed_hash(Hasher &h) const { h.feed_bytes(buf.get(), bufsize); }\n\n    bool is_ptr_within', 'template<typename Hasher> void feed_hash(Hasher &h) const {\n        const size_t n = buf.size_bytes() < 16 ? buf.size_bytes() : bufsize;\n        h.feed_bytes(buf.get(), n);\n    }\n\n    bool is_ptr_within')],
 'equal byte buffers of which one was made with room for a few more bytes', 'They hash differently although they are equal.',
 main('''int main() {
    Bytes a("abc", 3);
    Bytes b((size_t)10);
    b.extend(3);
    memcpy(b.data(), "abc", 3);
    memset(b.data() + 3, 'z', 7);
    CHECK(a == b);
    SimpleHash h1, h2;
    a.feed_hash(h1);
    b.feed_hash(h2);
    CHECK(h1.get_hash_value() == h2.get_hash_value());
}
'''))
seed('exception-text-first-byte', 'C31', SRC, [('''    while(msg[offset]) {
        auto c = msg[offset++];''', '''    while(msg[offset] && offset < 255) {
        auto c = msg[offset++];''')],
 'a message of more than 255 characters', 'The rest of the message is lost.',
 main('''int main() {
    char t[600];
    memset(t, 'm', sizeof(t));
    t[599] = 0;
    try { throw PyException(t); } catch(PyException &e) {
        CHECK(e.what().size_bytes() == 599);
        CHECK(strcmp(e.what().c_str(), t) == 0);
    }
}
'''))
seed('expected-swap', 'C12', H, [('''    unique_ptr<T, Deleter> &operator=(unique_ptr<T, Deleter> &&o) noexcept {
        if(this != &o) {
            if(ptr) {
                Deleter::del(ptr);
            }
            ptr = o.ptr;
            o.ptr = nullptr;''', '''    unique_ptr<T, Deleter> &operator=(unique_ptr<T, Deleter> &&o) noexcept {
        if(this != &o) {
            if(ptr && o.ptr) {
                Deleter::del(ptr);
            }
            ptr = o.ptr;
            o.ptr = nullptr;''')],
 'assigning an empty owning pointer to one that owns an object', 'The old object is never destroyed.',
 main(TR + '''int main() {
    {
        unique_ptr<Obj> a(new Obj(1)), b(new Obj(2)), c;
        a = move(b);
        CHECK(Obj::alive == 1 && a->v == 2);
        a = move(c);
        CHECK(Obj::alive == 0 && !a);
    }
    CHECK(Obj::alive == 0);
}
'''))
seed('shell-sort-gaps', 'C17', 'include/pystd2026_heapsort.hpp', [('    for(size_t i = original_heap.size() - 1; i > MIN_SIZE; --i) {', '    for(size_t i = original_heap.size() - 1; i > MIN_SIZE + 1; --i) {')],
 'heap sort of more than 17 elements whose order needs the skipped step', 'One element stays unsorted.',
 main('''int main() {
    for(int n = 0; n < 120; ++n) {
        Vector<int> v;
        for(int i = 0; i < n; ++i) v.push_back(i * 37 % 101);
        heapsort(v.begin(), v.end());
        for(int i = 1; i < n; ++i) CHECK(v[i - 1] <= v[i]);
    }
}
''', 'pystd2026_heapsort.hpp'))
seed('find-before-overlap', 'C04', SRC, [('''        bool has_mismatch = false;
        for(size_t i = 0; i < substr.size(); ++i) {
            if(buf[start + i] != substr.buf[i]) {
                has_mismatch = true;''', '''        bool has_mismatch = false;
        for(size_t i = 0; i < substr.size(); ++i) {
            if(buf[start + i] != substr.buf[i]) {
                start += i / 2;
                has_mismatch = true;''')],
 'a text in which the pattern begins inside a partial match', 'The match is skipped.',
 main('''int main() {
    CString s("aaab");
    CHECK(s.find("aab") == 1);
    CHECK(CStringView("abababc").find(CStringView("ababc")) == 2);
    CHECK(CStringView("hello world").find(CStringView("wor")) == 6);
}
'''))
seed('fixedvector-move-append-order', 'C08', H, [('''        if(size() + o.size() > MAX_SIZE) {
            bootstrap_throw("Appending would exceed max size.");''', '''        if(size() >= MAX_SIZE) {
            bootstrap_throw("Appending would exceed max size.");''')],
 'appending more elements than there is room for to a vector that is not full',
 'Elements are moved before the operation is refused.',
 main('''int main() {
    FixedVector<CString, 4> a, b;
    for(int i = 0; i < 3; ++i) a.push_back(CString("x"));
    for(int i = 0; i < 2; ++i) b.push_back(CString("y"));
    bool refused = false;
    try { a.move_append(b); } catch(PyException &) { refused = true; }
    CHECK(refused);
    CHECK(a.size() == 3 && b.size() == 2 && b[0] == "y");
}
'''))
