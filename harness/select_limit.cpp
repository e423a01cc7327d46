// C19: selection with the tunable size limit of insertion sort lowered for the element type, so that short ranges, for
// which every order can be covered, go through the full algorithm, and with the address of the range, from which the
// algorithm draws its pivots, varied.
//@unit optional=1
//@stub insertion_sort_limit, the library's tuning constant, is 2 for the element type of these harnesses; the address of the range modulo 60 elements is chosen by the harness
#include "sortutil.hpp"
typedef ElT<4> N2;
namespace pystd2026 {
template<> inline constexpr size_t insertion_sort_limit<N2> = 2;
}
#include <pystd2026_nth_element.hpp>

// A range at an address that is `place` elements past a multiple of 60 elements
struct Placed {
    char *mem;
    N2 *a;
    size_t n;
    Placed(size_t n_, size_t place) : n{n_} {
        mem = (char *)malloc(121 * sizeof(N2) + n * sizeof(N2));
        size_t at = (size_t)mem / sizeof(N2);
        a = (N2 *)((at + 60 - at % 60 + place) * sizeof(N2));
        for(size_t i = 0; i < n; ++i) new(&a[i]) N2(keys[i], (int)i);
        new(&a[-1]) N2(-1000, -5);
        new(&a[n]) N2(-1000, -5);
    }
    ~Placed() {
        CHECK(a[-1].key == -1000 && a[n].key == -1000 && a[-1].id == -5 && a[n].id == -5, "nothing outside the range is written");
        free(mem);
    }
};
static void select(Placed &r, size_t nth) {
    ByKey cmp;
    N2 *p = nth_element(r.a, r.a + r.n, nth, cmp);
    CHECK(p == r.a + nth, "the requested position is returned");
    CHECK(permutation(r.a, r.n), "selection keeps the elements");
    bool ok = true;
    for(size_t i = 0; i < r.n; ++i) ok &= i < nth ? r.a[i].key <= p->key : r.a[i].key >= p->key;
    CHECK(ok, "nothing before the selected element is greater, nothing after it smaller");
    vx_reach("selected");
}
//@ C19 nth_element, insertion sort limit 2: every range of 2 to 4 (5) elements with arbitrary keys, every position, 12
//@ (60) addresses [time=60/900]
HARNESS(select_all_orders) {
    size_t n = vx_pick("n", 2, QT(4, 5));
    size_t nth = vx_pick("nth", 0, n - 1);
    size_t place = vx_pick("place", 0, QT(11, 59));
    arbitrary_keys(n);
    Placed r(n, place);
    select(r, nth);
}
//@ C19 nth_element, insertion sort limit 2: 6 to 24 (40) elements in 8 arrangements with one arbitrary key, 5
//@ positions, 3 (12) addresses [flags=--intervals] [time=60/900]
HARNESS(select_arrangements) {
    static const size_t sizes[] = {6, 7, 11, 16, 24, 40};
    size_t n = sizes[vx_pick("n", 0, QT(4, 5))];
    int p = (int)vx_pick("arrangement", 0, ARRANGEMENTS - 1);
    for(size_t i = 0; i < n; ++i) keys[i] = arrangement(p, i, n);
    keys[vx_pick("position", 0, 2) * (n / 2 - 1)] = (int)vx_range("key", 0, 4 * n + 4);
    size_t nths[] = {0, 1, n / 2, n - 2, n - 1};
    size_t place = vx_pick("place", 0, QT(2, 11)) * 5 % 60;
    Placed r(n, place);
    select(r, nths[vx_pick("nth", 0, 4)]);
}
