// C17, C18: intro and merge sort with the tunable size limit of insertion sort lowered for the element type, so that
// short ranges, for which every order can be covered, go through the full algorithms.
//@unit optional=1
//@stub insertion_sort_limit, the library's tuning constant, is 6 (intro sort) or 1 and 2 (merge sort) for the element types of these harnesses
#include "sortutil.hpp"
typedef ElT<1> I6;
typedef ElT<2> M1;
typedef ElT<3> M2;
namespace pystd2026 {
template<> inline constexpr size_t insertion_sort_limit<I6> = 6;
template<> inline constexpr size_t insertion_sort_limit<M1> = 1;
template<> inline constexpr size_t insertion_sort_limit<M2> = 2;
}
#include <pystd2026_introsort.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_indirect_sort.hpp>

template<int K> static void done(Arr<K> &r, bool st) {
    CHECK(permutation(r.a, r.n), "the result is a permutation of the input");
    CHECK(ordered(r.a, r.n, false), "the result is in order");
    if(st) CHECK(stable(r.a, r.n), "equal elements keep their order");
    vx_reach("sorted");
}
//@ C17 intro sort, insertion sort limit 6: every range of 7 (8) elements with arbitrary keys [time=100/900]
HARNESS(introsort_all_orders) {
    size_t n = vx_pick("n", 7, QT(7, 8));
    arbitrary_keys(n);
    Arr<1> r(n);
    introsort(r.a, r.a + n, ByKey{});
    done(r, false);
}
//@ C17 intro sort, insertion sort limit 6: 8 to 40 elements in 8 arrangements, two arbitrary keys at any of 3 positions
//@ [flags=--intervals] [time=60/600]
HARNESS(introsort_arrangements) {
    static const size_t sizes[] = {8, 12, 17, 25, 40};
    size_t n = sizes[vx_pick("n", 0, QT(2, 4))];
    int p = (int)vx_pick("arrangement", 0, ARRANGEMENTS - 1);
    for(size_t i = 0; i < n; ++i) keys[i] = arrangement(p, i, n);
    size_t at = vx_pick("position", 0, 2) * (n / 3);
    keys[at] = (int)vx_range("key", 0, 4 * n + 4);
    keys[(at + 2) % n] = (int)vx_range("key", 0, 4 * n + 4);
    Arr<1> r(n);
    introsort(r.a, r.a + n, ByKey{});
    done(r, false);
}
// Orders that make the pivot sample come out just acceptably bad on every level, so that the depth limit is reached.
static const uint8_t adverse60[] = {
    0, 59, 26, 2, 3, 4, 5, 6, 7, 8, 10, 58, 24, 11, 12, 13, 14, 15, 16, 17, 9, 30, 20, 21, 22, 23, 18, 25, 33, 36, 28,
    29, 19, 31, 32, 39, 48, 35, 27, 37, 38, 44, 34, 41, 42, 43, 40, 49, 46, 47, 45, 50, 51, 52, 53, 54, 55, 56, 57, 1};
static const uint8_t adverse120[] = {
    0, 2, 17, 117, 118, 119, 16, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 1, 18, 20, 32, 114, 115, 116, 28, 21, 22, 23, 24,
    25, 26, 27, 19, 29, 30, 31, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 112, 111, 65, 45, 113, 80, 46, 47, 48, 49,
    50, 51, 52, 53, 54, 33, 73, 57, 58, 59, 60, 61, 62, 63, 64, 74, 55, 67, 68, 69, 70, 71, 72, 56, 82, 86, 76, 77, 78,
    79, 66, 81, 89, 92, 84, 85, 75, 87, 88, 90, 91, 83, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106,
    107, 108, 109, 110, 3, 4, 5};
static const uint8_t adverse200[] = {
    0, 2, 27, 197, 198, 199, 28, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 1, 30,
    51, 194, 195, 196, 48, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 29, 49, 50, 53, 54, 72,
    69, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 52, 70, 71, 74, 75, 90, 87, 76, 77, 78, 79, 80, 81, 82,
    83, 84, 85, 86, 73, 88, 89, 92, 93, 106, 102, 94, 95, 96, 97, 98, 99, 100, 101, 91, 103, 104, 105, 108, 109, 110,
    111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 193, 144, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 142,
    152, 133, 107, 134, 135, 136, 137, 138, 139, 140, 141, 159, 131, 145, 146, 147, 148, 149, 150, 151, 132, 153, 154,
    155, 156, 157, 158, 143, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177,
    178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 3, 4, 5};
//@ C17 intro sort on three orders (60, 120, 200 elements) that exhaust its depth limit and make it fall back to heap sort: as they are, each
//@ with one arbitrary key at any of 10 positions, and with every second key equal to its neighbour [flags=--intervals] [time=60/600]
HARNESS(introsort_adverse) {
    int which = (int)vx_pick("order", 0, 2);
    const uint8_t *from = which == 0 ? adverse60 : which == 1 ? adverse120 : adverse200;
    size_t n = which == 0 ? 60 : which == 1 ? 120 : 200;
    bool twins = vx_pick("twins", 0, 1);
    for(size_t i = 0; i < n; ++i) keys[i] = 4 * (twins ? from[i] / 2 : from[i]);
    size_t at = vx_pick("position", 0, 10);
    if(at < 10) keys[at * (n - 1) / 9] = (int)vx_range("key", 0, 4 * n + 4);
    if(which == 2) {
        Arr<0> r(n);
        introsort(r.a, r.a + n, ByKey{});
        done(r, false);
    } else {
        Arr<1> r(n);
        introsort(r.a, r.a + n, ByKey{});
        done(r, false);
    }
}
//@ C17,C18 merge sort, insertion sort limit 1 and 2: every range of 3 to 6 (7) elements with arbitrary keys [time=100/900]
HARNESS(mergesort_all_orders) {
    size_t n = vx_pick("n", 3, QT(6, 7));
    arbitrary_keys(n);
    if(vx_pick("limit 1", 0, 1)) {
        Arr<2> r(n);
        mergesort(r.a, r.a + n, ByKey{});
        done(r, true);
    } else {
        Arr<3> r(n);
        mergesort(r.a, r.a + n, ByKey{});
        done(r, true);
    }
}
//@ C17,C18 merge sort, insertion sort limit 1 and 2: every length from 7 to 20 (40) in 8 arrangements, one arbitrary key at any of 4
//@ positions [flags=--intervals] [time=60/600]
HARNESS(mergesort_arrangements) {
    size_t n = vx_pick("n", 7, QT(20, 40));
    int p = (int)vx_pick("arrangement", 0, ARRANGEMENTS - 1);
    for(size_t i = 0; i < n; ++i) keys[i] = arrangement(p, i, n);
    keys[vx_pick("position", 0, 3) * (n / 4)] = (int)vx_range("key", 0, 4 * n + 4);
    if(vx_pick("limit 1", 0, 1)) {
        Arr<2> r(n);
        mergesort(r.a, r.a + n, ByKey{});
        done(r, true);
    } else {
        Arr<3> r(n);
        mergesort(r.a, r.a + n, ByKey{});
        done(r, true);
    }
}
