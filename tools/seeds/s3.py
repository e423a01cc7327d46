exec(open(os.path.join(V, 'tools', 'seeds', 's1.py')).read().split("seed('utf8")[0])
exec(open(os.path.join(V, 'tools', 'seeds', 's2.py')).read().split("seed('reverse")[0].split('\n', 1)[1])
HT = 'include/pystd2026_hashtable.hpp'
BT = 'include/pystd2026_btree.hpp'
seed('hashmap-full-table', 'C15', HT, [('MAX_LOAD_PERCENTAGE = 77', 'MAX_LOAD_PERCENTAGE = 100')],
 'looking for an absent key in a map in which every slot is in use',
 'The table is allowed to become full, then a search for an absent key never ends.',
 main('''#include <unistd.h>
int main() {
    alarm(20);
    HashMap<int, int> m;
    HashSet<int> s;
    for(int i = 0; i < 64; ++i) {
        m.insert(i, i);
        s.insert(i);
        CHECK(!m.contains(-1 - i) && m.lookup(1000 + i) == nullptr);
        CHECK(!s.contains(-1 - i));
        m.remove(5000);
        CHECK(m.size() == (size_t)i + 1);
    }
}
''', 'pystd2026_hashtable.hpp'))
seed('hashmap-remove-wrong-end', 'C15', HT, [('''                    if(data.md[previous_slot].state == SlotState::Empty &&
                       data.md[next_slot].state == SlotState::Empty) {''', '''                    if(data.md[previous_slot].state == SlotState::Empty &&
                       data.md[next_slot].state != SlotState::HasValue) {''')],
 'removing a key between an unused slot and a tombstone behind which a key with a colliding hash follows',
 'The slot is marked as unused although a probe sequence goes through it, so that the key behind is lost.',
 main('''struct Key { int v; bool operator==(const Key &o) const { return v == o.v; } template<typename H> void feed_hash(H &h) const noexcept; };
struct Same { void feed_bytes(const char *, size_t) noexcept {} size_t get_hash_value() const noexcept { return 5; } };
int main() {
    HashMap<int, int, Same> m;
    m.insert(1, 1); m.insert(2, 2); m.insert(3, 3);
    m.remove(2);
    m.remove(1);
    CHECK(m.contains(3) && m.size() == 1);
    m.insert(3, 4);
    CHECK(m.size() == 1 && *m.lookup(3) == 4);
}
''', 'pystd2026_hashtable.hpp'))
seed('variant-last-alternatives', 'C13', 'include/pystd2026_variant.hpp', [('''            destroy_by_index<27>();''', '''            destroy_by_index<26>();''')],
 'a variant of at least 28 alternatives that holds the 28th one when it is destroyed or assigned to',
 'The wrong destructor runs on the held object.',
 main(TR + '''template<int N> struct Alt { Obj o; int tag = N; bool operator==(const Alt &) const = default; };
template<int N> struct Bad { int *p; Bad() noexcept : p(new int(N)) {} Bad(const Bad &o) noexcept : p(new int(*o.p)) {}
 Bad(Bad &&o) noexcept : p(o.p) { o.p = nullptr; } ~Bad() { delete p; } bool operator==(const Bad &o) const { return *p == *o.p; } };
typedef Variant<char, Alt<1>, Alt<2>, Alt<3>, Alt<4>, Alt<5>, Alt<6>, Alt<7>, Alt<8>, Alt<9>, Alt<10>, Alt<11>, Alt<12>, Alt<13>, Alt<14>, Alt<15>,
  Alt<16>, Alt<17>, Alt<18>, Alt<19>, Alt<20>, Alt<21>, Alt<22>, Alt<23>, Alt<24>, Alt<25>, int, Alt<27>> V;
int main() {
    { V v{Alt<25>{}}; CHECK(v.index() == 25); }
    CHECK(Obj::alive == 0);
    { V v{Alt<27>{}}; CHECK(v.index() == 27 && v.get<Alt<27>>().tag == 27); V w(v); w = V{Alt<3>{}}; }
    CHECK(Obj::alive == 0);
}
'''.replace('bool operator==(const Alt &) const = default;', 'bool operator==(const Alt &x) const { return tag == x.tag; }'), 'pystd2026_variant.hpp'))
seed('variant-compare-twin', 'C13', 'include/pystd2026_variant.hpp', [('''        if(type_id != o.type_id) {
            return false;
        }''', '''        if(type_id < o.type_id) {
            return false;
        }''')],
 'comparing a variant that holds a later alternative with one that holds an earlier one',
 'The comparison reads the left side as the wrong alternative.',
 main('''int main() {
    typedef Variant<int, char, CString> V;
    V a(3), b(CString("x")), c(char('a'));
    CHECK(!(a == b));
    CHECK(!(c == b));
    bool r = true;
    try { r = b == a; } catch(PyException &) {}
    CHECK(!r);
    try { r = true; r = c == a; } catch(PyException &) {}
    CHECK(!r);
}
''', 'pystd2026_variant.hpp'))
seed('span-subspan-rest', 'C14', H, [('return Span(array + offset, arraysize - offset);', 'return Span(array + offset, arraysize - (offset ? offset : 0) - (offset + 1 == arraysize));')],
 'the rest of a span from its last element on', 'The last element is missing from the sub-span.',
 main('''int main() {
    int a[4] = {1, 2, 3, 4};
    Span<int> s(a, 4);
    for(size_t i = 0; i <= 4; ++i) {
        auto t = s.subspan(i);
        CHECK(t.size() == 4 - i);
        if(i < 4) CHECK(t[0] == a[i] && t[3 - i] == 4);
    }
}
'''))
seed('btree-reparent-borrowed', 'C16', BT, [('''                get_node_common(to_reparent_id).parent = left_sibling_id;
            }
            r.values.pop_front();''', '''                if(get_node_common(to_reparent_id).parent != left_sibling_id && !to_reparent_id.to_leaf) get_node_common(to_reparent_id).parent = left_sibling_id;
            }
            r.values.pop_front();''')],
 'a removal that moves a leaf from a node to its left neighbour',
 'The moved leaf still names its old parent, so that iteration goes wrong.',
 main('''int main() {
    for(int n = 4; n < 60; ++n) for(int gone = 0; gone < n; ++gone) {
        BTree<int, 3> t;
        for(int i = 0; i < n; ++i) t.insert(i);
        bool in[64];
        for(int i = 0; i < n; ++i) in[i] = true;
        for(int k = 0; k <= gone; ++k) {
            t.remove(k);
            in[k] = false;
            int want = k + 1, steps = 0;
            for(auto it = t.begin(); !(it == t.end()) && steps < 100; ++it, ++steps) { CHECK(*it == want); ++want; }
            CHECK(want == n);
        }
    }
}
''', 'pystd2026_btree.hpp'))
seed('btree-split-in-the-middle', 'C16', BT, [('            node.children.insert(insert_loc + 1, ::pystd2026::move(right_id));', '            node.children.insert(insert_loc + (insert_loc ? 1 : node.values.size() > 2 ? 0 : 1), ::pystd2026::move(right_id));')],
 'splitting the first child of an inner node that already has two values', 'The halves are stored in the wrong order.',
 main('''int main() {
    int order[] = {50, 40, 60, 30, 70, 20, 80, 10, 90, 5, 4, 3, 2, 1, 0, 6, 7};
    BTree<int, 5> t;
    int n = 0;
    for(int x : order) { t.insert(x); ++n; for(int q = 0; q < n; ++q) CHECK(t.contains(order[q])); CHECK(t.size() == (size_t)n); }
    for(int step = 1; step < 50; ++step) {
        BTree<int, 3> u;
        for(int i = 0; i < 50; ++i) u.insert(1000 - i * step);
        int last = -100000, c = 0;
        for(auto it = u.begin(); !(it == u.end()); ++it) { CHECK(*it > last); last = *it; ++c; CHECK(c <= 50); }
        CHECK(c == 50);
    }
}
''', 'pystd2026_btree.hpp'))
seed('radix-first-element', 'C17', 'include/pystd2026_radixsort.hpp', [('''    for(auto it = begin; it != end; ++it) {
        one_bits |= *it;''', '''    one_bits = zero_bits = 0;
    for(auto it = begin; it != end - 1; ++it) {
        one_bits |= *it;''')],
 'a range of which only the last element differs from the others in one bit', 'That bit is not sorted by.',
 main('''int main() {
    for(size_t n = 0; n < 80; ++n) {
        uint32_t a[80];
        for(size_t i = 0; i < n; ++i) a[i] = 0x100 + i % 4;
        if(n) a[n - 1] = 1;
        radix_sort(a, a + n);
        for(size_t i = 1; i < n; ++i) CHECK(a[i - 1] <= a[i]);
    }
}
''', 'pystd2026_radixsort.hpp'))
seed('introsort-equal-values', 'C17', 'include/pystd2026_introsort.hpp', [('    auto right_end = end;', '    auto right_end = end - right_begin == 2 ? right_begin : end;')],
 'a split that leaves exactly two elements to the right', 'These two elements are not sorted.',
 main('''int main() {
    unsigned s = 1;
    for(int round = 0; round < 20000; ++round) {
        int a[64]; size_t n = 17 + round % 47;
        for(size_t i = 0; i < n; ++i) { s = s * 1103515245 + 12345; a[i] = (s >> 16) % 1000; }
        introsort(a, a + n);
        for(size_t i = 1; i < n; ++i) CHECK(a[i - 1] <= a[i]);
    }
}
''', 'pystd2026_introsort.hpp'))
seed('indirect-stable-pairs', 'C18', 'include/pystd2026_indirect_sort.hpp', [('if(inext - i > 1) {', 'if(inext - i > 1 && *i > *(inext - 1)) {')],
 'at least three equal elements of which the unstable sort has only moved the middle ones', 'The order of the equal elements is not restored.',
 main('''struct P { int k; bool operator<(const P &o) const { return k < o.k; } bool operator==(const P &o) const { return k == o.k; } };
struct Cmp { int compare(const P &a, const P &b) const noexcept { return a.k - b.k; } bool equal(const P &a, const P &b) const noexcept { return a.k == b.k; } };
int main() {
    unsigned s = 7;
    for(int round = 0; round < 5000; ++round) {
        P a[100]; size_t n = 20 + round % 80;
        for(size_t i = 0; i < n; ++i) { s = s * 1103515245 + 12345; a[i].k = (s >> 16) % (n / 2); }
        auto idx = indirect_stable_sort(a, a + n, Cmp{});
        for(size_t i = 1; i < n; ++i) CHECK(a[idx[i - 1]].k < a[idx[i]].k || (a[idx[i - 1]].k == a[idx[i]].k && idx[i - 1] < idx[i]));
    }
}
''', 'pystd2026_indirect_sort.hpp'))
seed('mergesort-last-merge-order', 'C18', 'include/pystd2026_mergesort.hpp', [('''            const auto right_block_size = block_start + 2 * merge_block_size >= INPUT_SIZE''', '''            const auto right_block_size = block_start + 2 * merge_block_size > INPUT_SIZE + 1''')],
 'the last element of the right part of a merge is equal to an element of the left part', 'The equal element from the right is put first.',
 main('''struct P { int k; int id; };
struct Cmp { int compare(const P &a, const P &b) const noexcept { return a.k - b.k; } bool equal(const P &a, const P &b) const noexcept { return a.k == b.k; } };
int main() {
    unsigned s = 7;
    for(int round = 0; round < 3000; ++round) {
        P a[200]; size_t n = 1 + round % 199;
        for(size_t i = 0; i < n; ++i) { s = s * 1103515245 + 12345; a[i].k = (s >> 16) % 9; a[i].id = (int)i; }
        mergesort(a, a + n, Cmp{});
        for(size_t i = 1; i < n; ++i) CHECK(a[i - 1].k < a[i].k || (a[i - 1].k == a[i].k && a[i - 1].id < a[i].id));
    }
}
''', 'pystd2026_mergesort.hpp'))
seed('stable-partition-skip', 'C18', 'include/pystd2026_stablepartition.hpp', [('''        segment_begin = rotate_point;
        scan_point = segment_end;''', '''        segment_begin = rotate_point;
        scan_point = segment_end + (end - segment_end > 2 && segment_end - rotate_point > 2 ? 2 : 0);''')],
 'a matching element two places behind a group of at least three others', 'Elements are skipped when there are long groups.',
 main('''int main() {
    for(unsigned bits = 0; bits < 4096; ++bits) {
        int a[12];
        for(int i = 0; i < 12; ++i) a[i] = (bits >> i & 1) ? 100 + i : i;
        auto p = stable_partition(a, a + 12, [](const int &x) { return x >= 100; });
        for(int *q = a; q < p; ++q) { CHECK(*q >= 100); CHECK(q == a || q[-1] < *q); }
        for(int *q = p; q < a + 12; ++q) { CHECK(*q < 100); CHECK(q == p || q[-1] < *q); }
    }
}
''', 'pystd2026_stablepartition.hpp'))
seed('nth-element-left-end', 'C19', 'include/pystd2026_nth_element.hpp', [('''            end = last_value_point;''', '''            end = last_value_point - (last_value_point - begin > 30 && (size_t)(last_value_point - begin) - 1 != nth ? 1 : 0);''')],
 'a selection that continues in a left part of more than 30 elements', 'One candidate is left out of the search.',
 main('''struct Cmp { int compare(const int &a, const int &b) const noexcept { return a < b ? -1 : a > b; } bool equal(const int &a, const int &b) const noexcept { return a == b; } };
int main() {
    unsigned s = 3;
    static int a[200];
    for(int round = 0; round < 20000; ++round) {
        size_t n = 40 + round % 160, nth = (s >> 8) % n;
        for(size_t i = 0; i < n; ++i) { s = s * 1103515245 + 12345; a[i] = (s >> 16) % 5000; }
        auto p = nth_element(a, a + n, nth, Cmp{});
        CHECK(p == a + nth);
        for(size_t i = 0; i < nth; ++i) CHECK(a[i] <= *p);
        for(size_t i = nth; i < n; ++i) CHECK(a[i] >= *p);
    }
}
''', 'pystd2026_nth_element.hpp'))
seed('partial-sort-degenerate', 'C19', 'include/pystd2026_heapsort.hpp', [('''    if(right && cmp.compare(*right, *largest) > 0) {''', '''    if(right && right.value() + 1 != hi.end && cmp.compare(*right, *largest) > 0) {''')],
 'a heap whose last element is the right child and bigger than its parent', 'The heap property does not hold at the end of the heap.',
 main('''struct Cmp { int compare(const int &a, const int &b) const noexcept { return a < b ? -1 : a > b; } bool equal(const int &a, const int &b) const noexcept { return a == b; } };
int main() {
    unsigned s = 3;
    for(int round = 0; round < 20000; ++round) {
        int a[60]; size_t n = 1 + round % 60, nth = (s >> 8) % n;
        for(size_t i = 0; i < n; ++i) { s = s * 1103515245 + 12345; a[i] = (s >> 16) % 5000; }
        auto p = nth_element_heap(a, a + n, nth, Cmp{});
        CHECK(p == a + nth);
        for(size_t i = 0; i < nth; ++i) CHECK(a[i] <= *p);
        for(size_t i = nth; i < n; ++i) CHECK(a[i] >= *p);
    }
}
''', 'pystd2026_nth_element.hpp'))
seed('regex-group-zero-length', 'C26', 'src/pystd2026_regex.cpp', [('''    if(i >= osize) {''', '''    if(i > osize) {''')],
 'asking for the group whose number is one past the last', 'Memory behind the match data is read.',
 '#define PYSTD2026_HAS_REGEX\n' + main('''int main() {
    U8String text("xxabcyy");
    U8Regex re(U8String("a(b)(c)"));
    auto m = regex_search(re, text);
    CHECK(m.num_groups() == 2);
    CHECK(m.get_submatch(0) == "abc" && m.get_submatch(2) == "c");
    for(size_t g = 3; g < 6; ++g) {
        bool refused = false, r2 = false;
        try { (void)m.get_submatch(g); } catch(PyException &e) { refused = strstr(e.what().c_str(), "exist") != nullptr; }
        try { (void)m.group(g); } catch(PyException &e) { r2 = true; }
        CHECK(refused && r2);
    }
}
''', 'pystd2026_regex.hpp'), 'src/pystd2026_regex.cpp', '-lpcre2-8')
seed('enumerate-offset', 'C29', H, [('''            ++i;
            ++it;
        }
    };''', '''            i += i != 511;
            ++it;
        }
    };''')],
 'enumerating more than 512 elements', 'The index 511 is given to two elements.',
 main('''int main() {
    Vector<int> v;
    for(int i = 0; i < 2000; ++i) v.push_back(i);
    size_t n = 0;
    for(auto e : EnumerateView(v)) { CHECK(e.i == n && e.value == (int)n); ++n; }
    CHECK(n == 2000);
}
'''))
