// C33: containers, value types and algorithms of the released epoch.
#include <pystd2025ref_btree.hpp>
#include <pystd2025_btree.hpp>
#include "epoch.hpp"
//@unit repo=core25,ref_core bcflags=-Wno-macro-redefined natflags=-Wno-macro-redefined
//@stub the released epoch is the copy in /verif/reference under another namespace; where it has a memory error, fails an assertion, aborts or does not end, there is no released behaviour and the case is not part of the claim
alignas(64) static char room[256]; // of the map, in both runs
static void nulls_seen(int n) {
    static int before;
    if(t.second) vx_assert(n <= before, "a deleter is not handed null more often");
    before = n;
}
namespace released {
using namespace pystd2025ref;
#include "epoch_body.inc"
#include "epoch_types.inc"
}
namespace current {
using namespace pystd2025;
#include "epoch_body.inc"
#include "epoch_types.inc"
}
#define THREW(label) if(t.marks & 1) vx_reach(label)

//@ C33 vectors of 0 to 3 and 15 to 17 elements that own memory, 22 operations [time=60/900]
HARNESS(epoch_vector) {
    EPOCH(vectors);
    THREW("vector: an exception");
}
//@ C33 vectors of up to 2 elements, every sequence of 2 (3) operations [time=60/900]
HARNESS(epoch_vector_sequence) { EPOCH(vector_sequence); }
//@ C33 fixed vectors of capacity 3, every sequence of 3 (4) operations [time=60/900]
HARNESS(epoch_fixed_vector) {
    EPOCH(fixed_vector);
    THREW("fixed vector: an exception");
}
//@ C33 hash maps with 2 keys and three hash functions (one constant), every sequence of 4 (5) operations [time=60/900]
HARNESS(epoch_hash_map) {
    EPOCH(hash_map);
    THREW("map: an exception");
}
//@ C33 hash maps of 9 to 25 (37) entries, which grow, every 2 operations on 2 more keys [time=60/900]
HARNESS(epoch_hash_map_growth) { EPOCH(hash_map_growth); }
//@ C33 hash sets of strings, every sequence of 4 (5) operations on 3 keys [time=60/900]
HARNESS(epoch_hash_set) { EPOCH(hash_set); }
//@ C33 hash values of every integer type and any value
HARNESS(epoch_hashes) { EPOCH(hashes); }
//@ C33 B-trees of width 3 and 5, every sequence of 5 (6) insertions and removals of 4 (5) keys [time=60/900]
HARNESS(epoch_b_tree) { EPOCH(b_tree); }
//@ C33 B-trees of 1 to 16 (60) elements in four orders, any 2 (3) insertions and removals [time=60/900]
HARNESS(epoch_b_tree_large) { EPOCH(b_tree_large); }
//@ C33 B-trees of 1 to 20 (60) elements that own memory, in four orders, any insertion or removal [time=60/900]
HARNESS(epoch_b_tree_items) { EPOCH(b_tree_items); }
//@ C33 B-trees of 10 to 40 (70) elements, removed in four orders [time=60/900]
HARNESS(epoch_b_tree_dismantled) { EPOCH(b_tree_dismantled); }
//@ C33 B-trees of up to 5 (6) arbitrary keys [time=60/900]
HARNESS(epoch_b_tree_symbolic) { EPOCH(b_tree_symbolic); }
//@ C33 optional values that own memory and 3 (4) operations [time=60/900]
HARNESS(epoch_optional) {
    EPOCH(optional);
    THREW("optional: an exception");
}
//@ C33 optional pointers
HARNESS(epoch_optional_pointer) { EPOCH(optional_pointer); }
//@ C33 values, errors and neither
HARNESS(epoch_expected) { EPOCH(expected); }
//@ C33 owning pointers with a deleter that counts, 2 operations; owned arrays
HARNESS(epoch_owners) {
    EPOCH(owners);
    THREW("owner: an exception");
}
//@ C33 variants of a number, an object that owns memory and a string, 3 (4) operations [time=60/900]
HARNESS(epoch_variant) {
    EPOCH(variant);
    THREW("variant: an exception");
}
//@ C33 spans of up to 3 elements, every index and part around the limits [time=60/900]
HARNESS(epoch_span) {
    EPOCH(spans);
    THREW("span: an exception");
}
//@ C33 every sequence of 5 (6) stack operations [time=60/900]
HARNESS(epoch_stack) { EPOCH(stacks); }
//@ C33 ranges around 0 and the limits of the integer type, 8 (12) steps [time=60/900]
HARNESS(epoch_range) { EPOCH(ranges); }
//@ C33 views over up to 3 elements
HARNESS(epoch_views) { EPOCH(views); }
//@ C33 9 algorithms on up to 5 (6) arbitrary numbers [time=60/900]
HARNESS(epoch_algorithms) { EPOCH(algorithms); }
//@ C33 sorting of up to 5 (6) elements that own memory [time=60/900]
HARNESS(epoch_sort_items) { EPOCH(sort_items); }
//@ C33 any three 64-bit integers; pairs of 31-bit integers
HARNESS(epoch_clamp) { EPOCH(clamping); }
//@ C33 three out of 8 numbers, among them zeros, infinities and NaN
HARNESS(epoch_clamp_doubles) { EPOCH(clamping_doubles); }
