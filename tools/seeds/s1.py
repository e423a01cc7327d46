PRE = '#include <new>\n#include <pystd2026.hpp>\n#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\nusing namespace pystd2026;\n#define CHECK(x) do { if(!(x)) { printf("failed: %s\\n", #x); return 1; } } while(0)\n'
def main(body, inc=''):
    return ''.join('#include <%s>\n' % i for i in inc.split()) + PRE + body
SRC = 'src/pystd2026.cpp'
H = 'include/pystd2026.hpp'
seed('utf8-truncated-tail', 'C01', SRC, [('if(cur + par.num_subsequent_bytes >= input_size) {', 'if(cur + par.num_subsequent_bytes > input_size) {')],
 'a byte range that cuts a multi-byte character one byte short while the byte behind the range is a continuation byte',
 'The UTF-8 validator accepts a character whose last byte lies outside the given range and reads that byte.',
 main('''int main() {
    const char text[] = "a\\xe2\\x82\\xac" "b";
    for(size_t cut = 2; cut < 4; ++cut) {
        bool refused = false;
        try { U8StringView v(text, cut); } catch(PyException &) { refused = true; }
        CHECK(refused);
    }
    U8StringView whole(text, 4);
    CHECK(whole.size_bytes() == 4);
}
'''))
seed('hashmap-remove-chain', 'C15', 'include/pystd2026_hashtable.hpp', [('''                    if(data.md[previous_slot].state == SlotState::Empty &&
                       data.md[next_slot].state == SlotState::Empty) {''','''                    if(data.md[previous_slot].state == SlotState::Empty ||
                       data.md[next_slot].state == SlotState::Empty) {''')],
 'two keys with colliding hashes of which the one stored first is removed while the slot before it is empty',
 'Removal marks the slot as never used although the probe sequence of another key goes through it, so that key is lost.',
 main('''struct Same { void feed_bytes(const char *, size_t) noexcept {} size_t get_hash_value() const noexcept { return 5; } };
int main() {
    HashMap<int, int, Same> m;
    m.insert(1, 10);
    m.insert(2, 20);
    m.insert(3, 30);
    m.remove(1);
    CHECK(m.size() == 2 && !m.contains(1));
    CHECK(m.lookup(2) && *m.lookup(2) == 20);
    CHECK(m.lookup(3) && *m.lookup(3) == 30);
    m.remove(3);
    CHECK(m.lookup(2) && *m.lookup(2) == 20);
}
''', 'pystd2026_hashtable.hpp'))
seed('mergesort-final-order', 'C18', 'include/pystd2026_mergesort.hpp', [('''        ::pystd2026::merge_pass(right_as_buffer_begin,
                                right_end,
                                buffer_begin,
                                buffer_begin + active_buffer_size,
                                begin,
                                cmp);''','''        ::pystd2026::merge_pass(buffer_begin,
                                buffer_begin + active_buffer_size,
                                right_as_buffer_begin,
                                right_end,
                                begin,
                                cmp);''')],
 'a range whose length makes the number of merge rounds odd, with equal elements in both halves',
 'The last merge takes elements of the right half first when they are equal to elements of the left half, so merge sort is not stable.',
 main('''struct E { int key, id; E() noexcept : key(0), id(0) {} E(int k, int i) noexcept : key(k), id(i) {} };
struct Cmp { int compare(const E &a, const E &b) const noexcept { return a.key < b.key ? -1 : a.key > b.key; } };
int main() {
    for(int n = 1; n < 300; n += 7) {
        Vector<E> v;
        for(int i = 0; i < n; ++i) v.push_back(E(i * 5 % 3, i));
        mergesort(v.begin(), v.end(), Cmp{});
        for(int i = 1; i < n; ++i) {
            CHECK(v[i - 1].key <= v[i].key);
            CHECK(v[i - 1].key < v[i].key || v[i - 1].id < v[i].id);
        }
    }
}
''', 'pystd2026_mergesort.hpp'))
seed('btree-duplicate-key', 'C16', 'include/pystd2026_btree.hpp', [('''        if(insert_loc < current_node.values.size() && current_node.values[insert_loc] == value) {''',
 '''        if(current_node_id.to_leaf && insert_loc < current_node.values.size() &&
           current_node.values[insert_loc] == value) {''')],
 'inserting a key again that has moved to an inner node of the tree',
 'The key is stored a second time, in a leaf, so the tree has duplicates and a wrong size.',
 main('''int main() {
    BTree<int, 5> t;
    for(int round = 0; round < 2; ++round)
        for(int i = 0; i < 60; ++i) t.insert(i * 7 % 60);
    CHECK(t.size() == 60);
    int prev = -1, n = 0;
    for(auto it = t.begin(); it != t.end(); ++it) { CHECK(*it > prev); prev = *it; ++n; }
    CHECK(n == 60);
}
''', 'pystd2026_btree.hpp'))
seed('split-by-run', 'C06', SRC, [('''        while(i < size() && bytes[i] == c) {
            ++i;
        }
        if(i == size()) {''','''        if(i < size() && bytes[i] == c) {
            ++i;
        }
        if(i == size()) {''')],
 'splitting at a character that occurs twice in a row',
 'A piece that begins with the separator is reported.',
 main('''int main() {
    CString s("ab,,c,,,d");
    auto v = s.split_by(',');
    for(auto &p : v) CHECK(p.find(CStringView(",")) == (size_t)-1);
    CHECK(v.size() == 3 && v[1] == "c");
}
'''))
seed('min-element-ties', 'C18', H, [('        if(cmp.compare(*start, *minloc) < 0) {', '        if(cmp.compare(*start, *minloc) <= 0) {')],
 'an insertion sort of four or more elements whose smallest key occurs twice',
 'The last of the smallest elements is moved to the front, so insertion sort (and merge sort of short ranges) is not stable.',
 main('''struct E { int key, id; E() noexcept : key(0), id(0) {} E(int k, int i) noexcept : key(k), id(i) {} };
struct Cmp { int compare(const E &a, const E &b) const noexcept { return a.key < b.key ? -1 : a.key > b.key; } };
int main() {
    for(int n = 1; n < 17; ++n) {
        E v[17];
        for(int i = 0; i < n; ++i) v[i] = E((i + 2) * 5 % 3, i);
        insertion_sort(v, v + n, Cmp{});
        for(int i = 1; i < n; ++i) CHECK(v[i - 1].key < v[i].key || (v[i - 1].key == v[i].key && v[i - 1].id < v[i].id));
    }
}
'''))
seed('casing-table-entry', 'C03', 'src/pystd2026_tables.cpp', [('    {8081, {7977, 921, 0}},\n', '    {8081, {7976, 921, 0}},\n')],
 'upper casing U+1F91',
 'The upper case of one Greek letter is the mapping of its neighbour.',
 main('''int main() {
    U8String s("\\u1f91");
    CHECK(s.upper() == "\\u1f29\\u0399");
    CHECK(U8String("\\u1f90").upper() == "\\u1f28\\u0399");
}
'''))
seed('bucketsort-last-bucket', 'C17', 'include/pystd2026_bucketsort.hpp', [('    for(size_t i = 0; i < NUM_BUCKETS; ++i) {\n        do_bucketsort(', '    for(size_t i = 0; i + 1 < NUM_BUCKETS; ++i) {\n        do_bucketsort(')],
 'values of more than one byte among which many have an upper byte of 0xFF',
 'The elements of the last bucket are not sorted further.',
 main('''int main() {
    uint16_t v[60];
    for(int i = 0; i < 60; ++i) v[i] = (uint16_t)(0xFF00 + (i * 37 + 11) % 200);
    bucketsort(v, v + 60);
    for(int i = 1; i < 60; ++i) CHECK(v[i - 1] <= v[i]);
}
''', 'pystd2026_bucketsort.hpp'))
seed('nth-heap-last', 'C19', 'include/pystd2026_nth_element.hpp', [('    for(auto it = begin + nth + 1; it < end; ++it) {', '    for(auto it = begin + nth + 1; it < end - 1; ++it) {')],
 'selecting with the heap algorithm while the last element of the range belongs in the prefix',
 'The last element is never compared.',
 main('''int main() {
    for(int nth = 0; nth < 9; ++nth) {
        int v[9] = {7, 3, 8, 4, 6, 2, 9, 5, 1};
        int *p = nth_element(v, v + 9, (size_t)nth);
        CHECK(p == v + nth && *p == nth + 1);
        for(int i = 0; i < 9; ++i) CHECK(i < nth ? v[i] <= *p : v[i] >= *p);
    }
}
''', 'pystd2026_nth_element.hpp'))
seed('bytes-insert-overlap', 'C09', SRC, [('    memmove(new_tail_point, splice_point, tail_size);', '    memcpy(new_tail_point, splice_point, tail_size);')],
 'inserting a piece that is shorter than the tail behind the insertion point',
 'The tail is moved with a copy that may not overlap.',
 main('''int main() {
    Bytes b("0123456789abcdefghijklmnopqrstuvwxyz", 36);
    b.insert(2, "XY", 2);
    CHECK(b == Bytes("01XY23456789abcdefghijklmnopqrstuvwxyz", 38));
}
'''))
seed('fixedvector-move-append-full', 'C08', H, [('        if(size() + o.size() > MAX_SIZE) {', '        if(size() + o.size() >= MAX_SIZE) {')],
 'appending exactly as many elements as there is room for',
 'The operation is refused although the elements fit.',
 main('''int main() {
    FixedVector<int, 5> a, b;
    for(int i = 0; i < 3; ++i) a.push_back(i);
    for(int i = 0; i < 2; ++i) b.push_back(10 + i);
    try { a.move_append(b); } catch(PyException &) { printf("refused\\n"); return 1; }
    CHECK(a.size() == 5 && a[4] == 11);
    FixedVector<int, 5> c;
    c.push_back(1);
    bool refused = false;
    try { a.move_append(c); } catch(PyException &) { refused = true; }
    CHECK(refused && a.size() == 5);
}
'''))
seed('view-less-equal', 'C07', SRC, [('    return size() < o.size();\n}\n\nbool CStringView::overlaps', '    return size() <= o.size();\n}\n\nbool CStringView::overlaps')],
 'comparing two equal views',
 'A view is less than itself.',
 main('''int main() {
    CStringView a("abc"), b("abc"), c("abcd");
    CHECK(!(a < b) && !(b < a) && a < c && !(c < a));
}
'''))
