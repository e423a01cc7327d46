PRE = '#include <new>\n#include <pystd2026.hpp>\n#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\nusing namespace pystd2026;\n#define CHECK(x) do { if(!(x)) { printf("failed: %s\\n", #x); return 1; } } while(0)\n'
def main(body, inc=''):
    return PRE + ''.join('#include <%s>\n' % i for i in inc.split()) + body
SRC = 'src/pystd2026.cpp'
H = 'include/pystd2026.hpp'
ADV = '''
enum { N = 3000 };
static int val[N], gas = N, next_value, candidate;
static size_t asked;
struct E { int i = 0; };
struct Cmp {
    int compare(const E &a, const E &b) const noexcept {
        ++asked;
        const int x = a.i, y = b.i;
        if(val[x] == gas && val[y] == gas) {
            if(x == candidate) val[x] = next_value++;
            else val[y] = next_value++;
        }
        if(val[x] == gas) candidate = x;
        else if(val[y] == gas) candidate = y;
        return val[x] < val[y] ? -1 : val[x] > val[y] ? 1 : 0;
    }
    bool equal(const E &a, const E &b) const noexcept { return compare(a, b) == 0; }
};
'''
seed('nth-rounds-unlimited', 'C35', 'include/pystd2026_nth_element.hpp', [('''            num_elements >>= 1;
            ++num_rounds;''', '''            num_elements -= 1;
            ++num_rounds;''')],
 'an arrangement chosen against the pivots, thousands of elements', 'The fallback to a heap never comes, selection becomes quadratic.',
 main(ADV + '''int main() {
    static E a[N];
    for(int i = 0; i < N; ++i) { a[i].i = i; val[i] = gas; }
    nth_element((E *)a, a + N, N / 2, Cmp{});
    CHECK(asked < 300000);
}
''', 'pystd2026_nth_element.hpp'))
seed('introsort-guards-off', 'C35', 'include/pystd2026_introsort.hpp', [('''        if(degenerate_depth > 0) {''', '''        if(degenerate_depth > num_elements) {'''), ('''            num_elements >>= 1;
            ++num_rounds;''', '''            num_elements -= 1;
            ++num_rounds;''')],
 'an arrangement chosen against the medians; each of the two guards alone suffices', 'Sorting becomes quadratic.',
 main(ADV + '''int main() {
    static E a[N];
    for(int i = 0; i < N; ++i) { a[i].i = i; val[i] = gas; }
    introsort((E *)a, a + N, Cmp{});
    CHECK(asked < 300000);
}
''', 'pystd2026_introsort.hpp'))
seed('vector-grows-by-step', 'C35', H, [('''            while(new_capacity < current_capacity * 2) {
                new_capacity *= 2;
            }''', '''            while(new_capacity < current_capacity + 16) {
                new_capacity += 16;
            }''')],
 'thousands of elements appended one by one', 'Growth is no longer amortised, appending is quadratic.',
 main('''static size_t moves;
struct M {
    int i = 0;
    M() = default;
    explicit M(int k) : i(k) {}
    M(const M &o) noexcept : i(o.i) {}
    M(M &&o) noexcept : i(o.i) { ++moves; }
    M &operator=(const M &) = default;
    M &operator=(M &&o) noexcept { i = o.i; ++moves; return *this; }
};
int main() {
    Vector<M> v;
    for(int i = 0; i < 5000; ++i) v.emplace_back(i);
    CHECK(moves < 50000);
}
'''))
seed('bytes-grow-by-step', 'C35', SRC, [('''    while(new_capacity < new_size) {
        new_capacity *= 2;
    }''', '''    while(new_capacity < new_size) {
        new_capacity += default_bufsize;
    }''')],
 'many appended pieces, not single characters', 'A buffer asks for new memory again and again as it grows by pieces.',
 main('''int main() {
    Bytes b;
    const Bytes piece("abc", 3);
    size_t changes = 0;
    for(int i = 0; i < 10000; ++i) {
        const size_t before = b.capacity();
        b += piece;
        changes += b.capacity() != before;
    }
    CHECK(changes < 60);
}
'''))
seed('hash-slot-or', 'C35', 'include/pystd2026_hashtable.hpp', [('''            slot ^= hashval & mod_mask();''', '''            slot |= hashval & mod_mask();''')],
 'a few hundred keys', 'Nearly all keys start at the last slots, lookups take time linear in the size.',
 main('''static size_t asked;
struct K {
    int v = 0;
    bool operator==(const K &o) const noexcept { ++asked; return v == o.v; }
    template<typename H> void feed_hash(H &h) const noexcept { h.feed_hash(v); }
};
int main() {
    HashMap<K, int> m;
    for(int i = 0; i < 3000; ++i) m.insert(K{i}, i);
    asked = 0;
    for(int i = 0; i < 3000; ++i) CHECK(m.contains(K{i}));
    CHECK(asked < 10 * 3000);
}
''', 'pystd2026_hashtable.hpp'))
seed('find-no-break', 'C35', SRC, [('''                has_mismatch = true;
                break;''', '''                has_mismatch = true;''')],
 'a long wanted text', 'The search compares the whole wanted text at every place.',
 main('''#include <time.h>
int main() {
    CString s, w;
    s.reserve(100000); w.reserve(50000);
    for(int i = 0; i < 100000; ++i) s.append('a');
    w.append('#');
    for(int i = 0; i < 50000; ++i) w.append('a');
    const clock_t t = clock();
    CHECK(s.view().find(w.view()) == (size_t)-1);
    CHECK(clock() - t < 5 * CLOCKS_PER_SEC);
}
'''))
seed('hashmap-empty-behind', 'C15', 'include/pystd2026_hashtable.hpp', [('''                    if(data.md[previous_slot].state == SlotState::Empty &&
                       data.md[next_slot].state == SlotState::Empty) {''', '''                    if(data.md[previous_slot].state != SlotState::HasValue &&
                       data.md[next_slot].state != SlotState::HasValue) {''')],
 'a collision chain with a removed element between two others', 'A removal next to a tombstone cuts the chain; elements behind it are lost.',
 main('''struct Id { size_t v = 0; void feed_bytes(const char *b, size_t n) noexcept { if(n == 4) { uint32_t k; memcpy(&k, b, 4); v = k & 7; } } void feed_byte(char) noexcept {} size_t get_hash_value() const noexcept { return v; } };
int main() {
    HashMap<uint32_t, int, Id> m;
    for(uint32_t i = 0; i < 8; ++i) m.insert(8 * i, (int)i);
    // all collide: slots s, s + 1, ...
    m.remove(8); m.remove(24); m.remove(16);
    for(uint32_t i = 0; i < 8; ++i) CHECK(m.contains(8 * i) == (i == 0 || i > 3));
}
''', 'pystd2026_hashtable.hpp'))
seed('upper-no-third', 'C03', SRC, [('''        const auto uppered = uppercase_unicode(*it);
        for(size_t i = 0; i < 3; ++i) {''', '''        const auto uppered = uppercase_unicode(*it);
        for(size_t i = 0; i < 2; ++i) {''')],
 'one of the few letters whose upper case consists of three', 'The third letter is lost.',
 main('''int main() {
    U8String s("\\xef\\xac\\x83");
    CHECK(s.upper() == "FFI");
}
'''))
seed('view-equal-own-nul', 'C04', SRC, [('''    return str[bufsize] == '\\0';
}

bool CStringView::starts_with(CStringView view) const {''', '''    return bufsize > 0 && str[bufsize] == '\\0';
}

bool CStringView::starts_with(CStringView view) const {''')],
 'an empty view and an empty prefix', 'An empty view does not start with the empty text.',
 main('''int main() {
    CStringView v("abc", (size_t)0);
    CHECK(v.starts_with(""));
    CHECK(!v.starts_with("a"));
}
'''))
seed('strip-only-tail', 'C06', SRC, [('''    for(auto *it = end - 2; it >= start && is_ascii_whitespace(*it); --it) {''', '''    for(auto *it = end - 2; it > start + leading_whitespace + 1 && is_ascii_whitespace(*it); --it) {''')],
 'a single character between white space', 'White space remains behind a single character.',
 main('''int main() {
    CString s("  a  ");
    s.strip();
    CHECK(s == "a");
    CString t("ab ");
    t.strip();
    CHECK(t == "ab");
}
'''))
seed('reverse-offset-zero', 'C02', SRC, [('''    has_char_info = false;
    if(offset == 0) {
        --offset;
        return;
    }
    --offset;''', '''    if(offset == 0) {
        --offset;
        return;
    }
    has_char_info = false;
    --offset;''')],
 'walking backwards over the first character and then beyond', 'The iterator keeps the information of the first character behind the end.',
 main('''int main() {
    U8String s("ab");
    auto i = s.crbegin();
    CHECK(*i == 'b');
    ++i;
    CHECK(*i == 'a');
    ++i;
    CHECK(i == s.crend());
    ++i;
    CHECK(i == s.crend());
}
'''))
