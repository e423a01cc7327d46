// Element type whose lifetime is checked: every operation asserts that the object is alive at its own
// address; counts reveal missing or repeated destruction.  Copies may be made to throw.
#pragma once
#include "util.hpp"
struct Boom {};
static int boom_at = 0; // counts down on every copy or value construction; throws when it reaches zero
static inline void maybe_boom() {
    if(boom_at > 0 && --boom_at == 0) throw Boom();
}
template<int TAG> struct Tracked {
    static inline long alive = 0;
    Tracked *self;
    int v; // -1 when moved from, -2 when default constructed
    void ok() const { vx_assert(self == this, "an object is used while it is not alive"); }
    Tracked() noexcept : self{this}, v{-2} { ++alive; }
    Tracked(int x) : v{x} {
        maybe_boom();
        self = this;
        ++alive;
    }
    Tracked(const Tracked &o) {
        o.ok();
        maybe_boom();
        v = o.v;
        self = this;
        ++alive;
    }
    Tracked(Tracked &&o) noexcept {
        o.ok();
        v = o.v;
        o.v = -1;
        self = this;
        ++alive;
    }
    Tracked &operator=(const Tracked &o) {
        ok();
        o.ok();
        maybe_boom();
        v = o.v;
        return *this;
    }
    Tracked &operator=(Tracked &&o) noexcept {
        ok();
        o.ok();
        if(this != &o) {
            v = o.v;
            o.v = -1;
        }
        return *this;
    }
    ~Tracked() {
        ok();
        self = nullptr;
        --alive;
    }
    bool operator==(const Tracked &o) const {
        ok();
        o.ok();
        return v == o.v;
    }
    bool operator<(const Tracked &o) const {
        ok();
        o.ok();
        return v < o.v;
    }
};
typedef Tracked<0> TA;
typedef Tracked<1> TB;
