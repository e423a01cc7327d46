// C29: ranges and enumeration.
#include "util.hpp"
#include <pystd2026_hashtable.hpp>

// How many values has the range [start, end) with this step?
static uint64_t count(int64_t start, int64_t end, int64_t step) {
    if(step > 0) {
        if(start >= end) return 0;
        uint64_t d = (uint64_t)end - (uint64_t)start, s = (uint64_t)step;
        return d / s + (d % s != 0);
    }
    if(start <= end) return 0;
    uint64_t d = (uint64_t)start - (uint64_t)end, s = 0 - (uint64_t)step;
    return d / s + (d % s != 0);
}
// The sequence start, start + step, ... before end, as mathematical integers.
struct Seq {
    int64_t v, end, step;
    bool over;
    Seq(int64_t s, int64_t e, int64_t st) : v{s}, end{e}, step{st}, over{false} {}
    bool more() const { return !over && (step > 0 ? v < end : v > end); }
    void advance() { over |= __builtin_add_overflow(v, step, &v); }
};
static void walk(Range &r, int64_t start, int64_t end, int64_t step, uint64_t limit) {
    uint64_t n = 0;
    Seq s(start, end, step);
    while(true) {
        Optional<int64_t> o = r.next();
        CHECK((bool)o == s.more(), "the range stops at the end and not before");
        if(!s.more()) break;
        CHECK(*o == s.v, "the values are start, start + step and so on");
        s.advance();
        if(++n >= limit) {
            vx_reach("cut");
            return;
        }
    }
    CHECK(!r.next() && !r.next(), "an exhausted range stays exhausted");
    vx_reach("exhausted");
}
//@ C29 ranges of any 64-bit start, end and nonzero step: the first 3 (6) values, and exhaustion if that comes earlier [time=60/300]
HARNESS(range_any) {
    int64_t start = (int64_t)vx_sym("start", 64), end = (int64_t)vx_sym("end", 64), step = (int64_t)vx_sym("step", 64);
    // the solver does better with the sign and rough size of the step known
    static const int64_t bounds[] = {INT64_MIN, -((int64_t)1 << 62), -1000000, -1, 1, 1000000, ((int64_t)1 << 62), INT64_MAX};
    size_t b = vx_pick("step size", 0, 6);
    if(b == 3) return;
    vx_assume(step >= bounds[b] && step <= bounds[b + 1]);
    Range r(start, end, step);
    walk(r, start, end, step, QT(3, 6));
}
//@ C29 ranges by start and end, and by end alone: any 64-bit values, the first 4 (8) values
HARNESS(range_default_step) {
    int64_t end = (int64_t)vx_sym("end", 64);
    if(vx_pick("start given", 0, 1)) {
        int64_t start = (int64_t)vx_sym("start", 64);
        Range r(start, end);
        walk(r, start, end, 1, QT(4, 8));
    } else {
        Range r(end);
        walk(r, 0, end, 1, QT(4, 8));
    }
}
//@ C29 a step of zero never yields forever: refused or empty; any start and end
HARNESS(range_step_zero) {
    int64_t start = (int64_t)vx_sym("start", 64), end = (int64_t)vx_sym("end", 64);
    refused([&] {
        Range r(start, end, 0);
        for(int i = 0; i < 3; ++i) CHECK(!r.next(), "a range that cannot advance yields nothing");
    });
    vx_reach("done");
}
//@ C29 looping over ranges (by reference, by value and default constructed), any start, end within 3 (6) of it and steps from -3 to 3
HARNESS(range_loop) {
    int64_t start = (int64_t)vx_sym("start", 64);
    const int span = QT(3, 6);
    int64_t d = (int64_t)vx_range("length", 0, 2 * span) - span, step = (int64_t)vx_pick("step", 0, 6) - 3;
    if(step == 0) return;
    int64_t end;
    vx_assume(!__builtin_add_overflow(start, d, &end));
    uint64_t n = 0;
    int64_t v = start;
    if(vx_pick("owning", 0, 1)) {
        for(int64_t x : Loopsume(Range(start, end, step))) {
            CHECK(x == v, "the loop sees the values in order");
            v = (int64_t)((uint64_t)v + (uint64_t)step);
            CHECK(++n <= 2 * (uint64_t)span, "the loop ends");
        }
    } else {
        Range r(start, end, step);
        auto view = LoopView(r);
        for(int64_t x : view) {
            CHECK(x == v, "the loop sees the values in order");
            v = (int64_t)((uint64_t)v + (uint64_t)step);
            CHECK(++n <= 2 * (uint64_t)span, "the loop ends");
        }
        CHECK(!r.next(), "the loop exhausts the range");
    }
    CHECK(n == count(start, end, step), "no value is skipped or repeated");
    Range none;
    CHECK(!none.next(), "a default constructed range is empty");
    vx_reach("looped");
}
//@ C29 moved ranges continue where the source was: any start, end and positive step, moved after 0 to 1 (2) values
HARNESS(range_move) {
    int64_t start = (int64_t)vx_sym("start", 64), end = (int64_t)vx_sym("end", 64), step = (int64_t)vx_sym("step", 64);
    switch(vx_pick("step size", 0, 2)) {
    case 0: vx_assume(step >= 1 && step <= 1000000); break;
    case 1: vx_assume(step >= 1000000 && step <= (int64_t)1 << 62); break;
    default: vx_assume(step >= (int64_t)1 << 62);
    }
    Range r(start, end, step);
    unsigned k = (unsigned)vx_pick("taken", 0, QT(1, 2)), n = 0;
    while(n < k && r.next()) ++n;
    if(n < k) return;
    Range m(move(r));
    Range c;
    c = m;
    Seq q(start, end, step);
    for(unsigned i = 0; i < k; ++i) q.advance();
    for(int i = 0; i < 2; ++i) {
        Optional<int64_t> a = m.next(), b = c.next();
        CHECK((bool)a == q.more() && (bool)b == q.more(), "the copy stops at the end and not before");
        if(!a) break;
        CHECK(*a == q.v && *b == q.v, "the copy continues the sequence");
        q.advance();
    }
    vx_reach("moved");
}
//@ C29 enumeration of vectors, fixed vectors, spans and strings of 0 to 5 arbitrary values, elements modified through the view
HARNESS(enumerate_all) {
    size_t n = vx_pick("n", 0, 5);
    uint8_t vals[5];
    Vector<uint8_t> v;
    FixedVector<uint8_t, 5> f;
    for(size_t i = 0; i < n; ++i) {
        vals[i] = (uint8_t)vx_sym("value", 8);
        v.push_back(vals[i]);
        f.push_back(vals[i]);
    }
    auto check = [&](auto &c) {
        size_t k = 0;
        auto view = EnumerateView(c);
        for(auto e : view) {
            CHECK(k < n && e.i == k, "indices count from zero");
            CHECK(e.value == vals[k], "each index is paired with its element");
            CHECK(&e.value == &c[k], "the view refers to the element itself");
            e.value = (uint8_t)(e.value + 1);
            ++k;
        }
        CHECK(k == n, "no element is skipped or repeated");
        for(size_t i = 0; i < n; ++i) CHECK(c[i] == (uint8_t)(vals[i] + 1), "writing through the view changes the element");
        k = 0;
        for(auto e : EnumerateView(c)) CHECK(e.i == k++, "the view can be iterated again");
    };
    switch(vx_pick("container", 0, 2)) {
    case 0: check(v); break;
    case 1: check(f); break;
    default: {
        Span<uint8_t> s(v.data(), n);
        check(s);
    }
    }
    vx_reach("enumerated");
}

//@ C29 enumeration of vectors and spans of 256 to 70000 elements, one of them arbitrary [flags=--steps 20000000]
HARNESS(enumerate_long) {
    static const uint32_t sizes[] = {256, 1000, 4097, 70000};
    size_t n = sizes[vx_pick("n", 0, 3)];
    Vector<uint32_t> v;
    size_t at = n * 2 / 3;
    uint32_t odd = (uint32_t)vx_sym("value", 16);
    for(size_t i = 0; i < n; ++i) v.push_back(i == at ? odd : (uint32_t)(i * 7));
    auto check = [&](auto &c) {
        size_t k = 0;
        for(auto e : EnumerateView(c)) {
            CHECK(e.i == k, "indices count from zero");
            CHECK(&e.value == &v[k], "each index is paired with its element");
            e.value += 1;
            ++k;
        }
        CHECK(k == n, "no element is skipped or repeated");
        for(size_t i = 0; i < n; ++i) CHECK(v[i] == (i == at ? odd : (uint32_t)(i * 7)) + 1, "writing through the view changes the element");
    };
    if(vx_pick("span", 0, 1)) {
        Span<uint32_t> s(v.data(), n);
        check(s);
    } else check(v);
    vx_reach("enumerated");
}
