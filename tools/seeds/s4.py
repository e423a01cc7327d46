exec(open(os.path.join(V, 'tools', 'seeds', 's1.py')).read().split("seed('utf8")[0])
HT = 'include/pystd2026_hashtable.hpp'
BT = 'include/pystd2026_btree.hpp'
seed('hashmap-iterate-removed', 'C15', HT, [('''            return md[offset].state == SlotState::HasValue;''', '''            return md[offset].state != SlotState::Empty;''')],
 'iterating over a map from which a key with neighbours has been removed', 'Iteration visits removed entries.',
 main('''int main() {
    HashMap<int, int> m;
    for(int i = 0; i < 11; ++i) m.insert(i, i);
    for(int i = 0; i < 11; ++i) {
        m.remove(i);
        int n = 0;
        for(auto e : m) { CHECK(*e.key > i); ++n; }
        CHECK(n == 10 - i);
    }
}
''', 'pystd2026_hashtable.hpp'))
CH = '''template<size_t N> int check(unsigned seed, int n, int range) {
    BTree<int, N> t;
    static bool in[4096];
    int size = 0;
    for(int i = 0; i < range; ++i) in[i] = false;
    for(int k = 0; k < n; ++k) {
        seed = seed * 1103515245 + 12345;
        int x = (seed >> 12) % range;
        bool add = k < n / 2 ? (seed >> 28) % 4 != 0 : (seed >> 28) % 4 == 0;
        if(add) { t.insert(x); if(!in[x]) { in[x] = true; ++size; } }
        else { t.remove(x); if(in[x]) { in[x] = false; --size; } }
        CHECK(t.size() == (size_t)size);
        CHECK(t.contains(x) == in[x]);
        if(k % 16 == 0) {
            int last = -1, c = 0;
            for(auto it = t.begin(); !(it == t.end()); ++it) { CHECK(*it > last && in[*it]); last = *it; ++c; CHECK(c <= size); }
            CHECK(c == size);
        }
    }
    return 0;
}
int main() {
    for(unsigned s = 1; s < 40; ++s) { if(check<3>(s, 600, 200)) return 1; if(check<5>(s, 600, 200)) return 1; if(check<7>(s, 900, 300)) return 1; }
}
'''
def bt(id, edits, needs, breaks): seed(id, 'C16', BT, edits, needs, breaks, main(CH, 'pystd2026_btree.hpp'))
bt('btree-merge-last', [('left_sibling_id.id == (merging_leaves ? leaves.size() - 1 : internals.size() - 1);', 'left_sibling_id.id == (merging_leaves ? leaves.size() - 1 : leaves.size() - 1);')],
 'merging two inner nodes of which the left one is stored last', 'The merge returns a node that is gone.')
bt('btree-root-moves', [('''            NodeReference new_root_id{(uint32_t)internals.size() - 1, false};
            get_node_common(node_id).parent = new_root_id;''', '''            NodeReference new_root_id{(uint32_t)internals.size() - 1, false};
            if(internals.size() < 8) get_node_common(node_id).parent = new_root_id;''')],
 'a tree that grows to a fourth level', 'The left half of the old root has no parent, so that iteration ends early.')
bt('btree-sibling-moved', [('''                for(auto &c : grandparent.children) {
                    if(c == back_id) {
                        c = node_id;
                    }
                }
            }
            for(auto c : to_reparent.children) {''', '''                for(auto &c : grandparent.children) {
                    if(c == back_id && c != grandparent.children.back()) {
                        c = node_id;
                    }
                }
            }
            for(auto c : to_reparent.children) {''')],
 'merging inner nodes when the inner node stored last is the last child of its parent', 'The parent still refers to the old place of the node.')
bt('btree-shift-leaf-child', [('''            r.children.insert(0, ::pystd2026::move(l.children.back()));
            if(!to_reparent_id.is_null()) {''', '''            r.children.insert(0, ::pystd2026::move(l.children.back()));
            if(!to_reparent_id.is_null() && to_reparent_id.to_leaf) {''')],
 'a removal in a tree of four levels that moves an inner node to its right neighbour', 'The moved node still names its old parent.')
bt('btree-search-equal', [('''        if(!result.has_query_value) {
            result.child_loc = value < current_value ? result.loc : result.loc + 1;
        }''', '''        if(!result.has_query_value) {
            result.child_loc = node_id == root || value < current_value ? result.loc : result.loc + 1;
        }
        if(!node_id.to_leaf && node_id != root && result.loc + 1 == current_node.values.size() && EntryCount > 5 && !result.has_query_value) {
            result.child_loc = result.loc + (current_node.values.size() == EntryCount ? 1 : 0);
        }''')],
 'removing from a full inner node of seven entries', 'The search goes down the wrong child.')
