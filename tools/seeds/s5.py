PRE5 = '#include <new>\n#include <pystd2025.hpp>\n#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\nusing namespace pystd2025;\n#define CHECK(x) do { if(!(x)) { printf("failed: %s\\n", #x); return 1; } } while(0)\n'
def main(body, inc=''):
    return PRE5 + ''.join('#include <%s>\n' % i for i in inc.split()) + body
S5 = 'src/pystd2025.cpp'
H5 = 'include/pystd2025.hpp'
C5 = 'src/pystd2025.cpp src/pystd2025_tables.cpp'
F5 = C5 + ' src/pystd2025_filesystem.cpp'
seed('epoch-case-entry', 'C32', 'src/pystd2025_tables.cpp', [('    {8087, {7983, 921, 0}},\n', '    {8087, {7982, 921, 0}},\n')],
 'the upper case of one of the Greek letters with an iota', 'One entry of the case table of the frozen epoch has another letter.',
 main('''int main() {
    U8String s("a\\xe1\\xbe\\x97");
    CHECK(s.upper() == "A\\xe1\\xbc\\xaf\\xce\\x99");
}
'''), extra=C5)
seed('epoch-starts-with-cut', 'C32', S5, [('''        if(str[i] == '\\0') {
            return true;
        }
        if(str[i] != buf[i]) {
            return false;
        }
    }
    return str[bufsize] == '\\0';''', '''        if(str[i] == '\\0') {
            return true;
        }
        if(str[i] != buf[i]) {
            return false;
        }
    }
    return bufsize > 0;''')],
 'a prefix that is longer than the view but begins like it, or an empty view', 'A view starts with texts that are longer than itself.',
 main('''int main() {
    CStringView v("abcdef", 3);
    CHECK(v.starts_with("ab") && v.starts_with("abc"));
    CHECK(!v.starts_with("abcd"));
    CStringView e("abc", (size_t)0);
    CHECK(e.starts_with(""));
}
'''), extra=C5)
seed('epoch-reverse-equal', 'C32', S5, [('''    return original_str == o.original_str && offset == o.offset;''', '''    return offset == o.offset;''')],
 'reverse iterators of two different strings are compared', 'Iterators at the same offset of different strings are equal.',
 main('''int main() {
    U8String a("abc"), b("xyz");
    CHECK(a.crbegin() != b.crbegin());
    CHECK(a.crbegin() == a.crbegin());
}
'''), extra=C5)
seed('epoch-substr-clip', 'C32', S5, [('''    } else if(pos + count > bufsize) {
        actual_count = bufsize - pos;
    }
    return CStringView(buf + pos, actual_count);''', '''    } else if(pos + count >= bufsize) {
        actual_count = bufsize - 1 - pos;
    }
    return CStringView(buf + pos, actual_count);''')],
 'a part of a view whose count reaches the end of the view exactly or lies behind it', 'The last character is cut off.',
 main('''int main() {
    CStringView v("abcdef");
    CHECK(v.substr(4, 2).size() == 2);
    CHECK(v.substr(4, 9).size() == 2);
    CHECK(v.substr(4, 1).size() == 1);
    CHECK(v.substr(4).size() == 2);
}
'''), extra=C5)
seed('epoch-range-limit', 'C33', S5, [('''    if(i >= end) {
        return {};
    }

    auto result = Optional<int64_t>{i};''', '''    if(i > end - step) {
        return {};
    }

    auto result = Optional<int64_t>{i};''')],
 'a range whose length is not a multiple of the step', 'The last value of a range is missing.',
 main('''int main() {
    Range r(0, 5, 2);
    int n = 0, last = -1;
    while(auto v = r.next()) { ++n; last = (int)*v; }
    CHECK(n == 3 && last == 4);
}
'''), extra=C5)
seed('epoch-glob-hidden', 'C34', 'src/pystd2025_filesystem.cpp', [('''        if(text_offset == 0 && text_char == '.') {''', '''        if(text_offset == 0 && text_char == '.' && pattern[pattern_offset + 1] == '\\0') {''')],
 'a star at the start of a pattern that goes on, and a hidden file that ends like it', 'Hidden files are found.',
 main('''#include <unistd.h>
int main() {
    FILE *f = fopen(".b.x", "w"); fclose(f);
    f = fopen("a.x", "w"); fclose(f);
    Path here(".");
    auto g = here.glob("*.x");
    int n = 0;
    while(auto p = g.next()) ++n;
    unlink(".b.x");
    unlink("a.x");
    CHECK(n == 1);
}
'''), extra=F5, libs='-fno-sanitize=nonnull-attribute')
seed('epoch-load-error-leak', 'C34', 'src/pystd2025_filesystem.cpp', [('''    fclose(f);
    if(bytes_read != (size_t)file_size) {
        return Optional<Bytes>();
    }
    return''', '''    if(bytes_read != (size_t)file_size) {
        return Optional<Bytes>();
    }
    fclose(f);
    return''')],
 'a file that yields fewer bytes than its size says, such as one below /proc or /sys that shrinks while it is read', 'The file stays open.',
 main('''#include <unistd.h>
#include <dirent.h>
static int open_files() {
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while(readdir(d)) ++n;
    closedir(d);
    return n;
}
static size_t shrink;
extern "C" size_t __real_fread(void *p, size_t s, size_t n, FILE *f);
extern "C" size_t __wrap_fread(void *p, size_t s, size_t n, FILE *f) { return __real_fread(p, s, n - shrink, f); }
int main() {
    FILE *f = fopen("data", "w");
    fputs("abcdef", f);
    fclose(f);
    Path p("data");
    CHECK((bool)p.load_bytes());
    int before = open_files();
    shrink = 2;
    CHECK(!p.load_bytes());
    CHECK(open_files() == before);
}
'''), extra=F5, libs='-Wl,--wrap=fread')
seed('epoch-trylock-error', 'C34', 'src/pystd2025_threading.cpp', [('''    if(rc == EINVAL) {''', '''    if(rc != 0 && rc != EBUSY) {''')],
 'trying to lock when the system reports an error other than EINVAL or EBUSY', 'An exception instead of the answer no.',
 main('''#include <errno.h>
#include <pystd2025_threading.hpp>
extern "C" int __wrap_pthread_mutex_trylock(pthread_mutex_t *) { return EAGAIN; }
int main() {
    Mutex m;
    bool threw = false;
    try { CHECK(!m.try_lock()); } catch(PyException &) { threw = true; }
    CHECK(!threw);
}
'''), extra=C5 + ' src/pystd2025_threading.cpp', libs='-Wl,--wrap=pthread_mutex_trylock')
seed('epoch-extension-path', 'C34', 'src/pystd2025_filesystem.cpp', [('''        while(buf.size() > extpoint) {
            buf.pop_back();
        }
        buf += new_extension;''', '''        while(buf.size() > extpoint + 1) {
            buf.pop_back();
        }
        if(new_extension.is_empty() || new_extension.front() == '.') {
            buf.pop_back();
        }
        buf += new_extension;''')],
 'a new extension that does not begin with a dot', 'The dot of the old extension stays.',
 main('''int main() {
    Path p("a/b.txt");
    p.replace_extension("~");
    CHECK(!strcmp(p.c_str(), "a/b~"));
    p = Path("a/b.txt");
    p.replace_extension(".c");
    CHECK(!strcmp(p.c_str(), "a/b.c"));
}
'''), extra=F5)
seed('epoch-remove-count', 'C33', H5, [("""                    } else {
                        data.md[slot].state = SlotState::Tombstone;
                    }
                    --num_entries;""", """                        --num_entries;
                    } else {
                        data.md[slot].state = SlotState::Tombstone;
                    }""")],
 'a removal next to an occupied slot', 'The removed element is still counted.',
 main("""int main() {
    HashMap<int, int> m;
    for(int i = 0; i < 40; ++i) m.insert(i, i);
    for(int i = 0; i < 40; ++i) m.remove(i);
    CHECK(m.size() == 0);
}
"""), extra=C5)
seed('epoch-subspan-end', 'C33', H5, [("""        if(offset + subspan_size >= arraysize) {
            throw PyException("Subspan goes OoB.");""", """        if(offset + subspan_size > arraysize) {
            throw PyException("Subspan goes OoB.");""")],
 'a part of a span that reaches the end and is given with a size', 'The released exception is no longer thrown.',
 main("""int main() {
    int a[4] = {1, 2, 3, 4};
    Span<int> s(a, 4);
    CHECK(s.subspan(1, 2).size() == 2);
    bool threw = false;
    try { s.subspan(1, 3); } catch(PyException &) { threw = true; }
    CHECK(threw);
}
"""), extra=C5)
seed('epoch-min-tie', 'C33', H5, [("""        if(*start < *minloc) {
            minloc = start;""", """        if(!(*minloc < *start)) {
            minloc = start;""")],
 'two smallest elements that are equal', 'The last of the smallest elements is found instead of the first.',
 main("""int main() {
    int a[5] = {3, 1, 2, 1, 4};
    CHECK(min_element(a, a + 5) == a + 1);
}
"""), extra=C5)
seed('epoch-lower-bound', 'C33', H5, [("""            first = ++it;
            count -= step + 1;
        } else {
            count = step;
        }
    }
    return it;""", """            first = ++it;
            count -= step + 1;
        } else {
            count = step;
        }
    }
    return first;""")],
 'a search whose last probe lies above the bound', 'Another position is returned than the released library returns.',
 main("""struct P { int v; };
int main() {
    int a[4] = {1, 3, 5, 7};
    CHECK(lower_bound(a, a + 4, 3) == a + 1);
    CHECK(lower_bound(a, a, 3) == nullptr);
}
"""), extra=C5)
