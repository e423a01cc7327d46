// C12: Optional, Expected, unique_ptr, unique_arr.
#include "tracked.hpp"
//@unit wrap=abort
//@stub abort() called by the library is a stand-in that ends the case, as a violation unless the harness expects the refusal
static bool expect_abort = false;
extern "C" [[noreturn]] void __wrap_abort() {
    CHECK(expect_abort, "nothing is refused that is there");
    vx_reach("refused access");
    vx_end();
}

// ---------------------------------------------------------------- Optional
// Model of one optional: -100 empty, -1 value moved away, otherwise the value.
enum { EMPTY = -100 };
template<typename O> static void check_opt(O &o, int m) {
    CHECK(bool(o) == (m != EMPTY), "has a value exactly when the history says so");
    bool r = refused([&] {
        const O &c = o;
        vx_assert(o.value().v == m && (*o).v == m && o->v == m, "holds the value it was given");
        vx_assert(c.value().v == m && (*c).v == m && c->v == m, "holds the value it was given");
        o->ok();
    });
    CHECK(r == (m == EMPTY), "access is refused exactly when empty");
}

//@ C12 two optionals, every sequence of 4 (5) operations out of assignments, copies, moves, swaps, resets and replacements [time=60/900]
HARNESS(optional_history) {
    {
        Optional<TA> o[2];
        int m[2] = {EMPTY, EMPTY};
        int next = 1;
        size_t steps = vx_pick("steps", 0, QT(4, 5));
        for(size_t s = 0; s < steps; ++s) {
            size_t i = vx_pick("i", 0, 1);
            switch(vx_pick("op", 0, 8)) {
            case 0: {
                TA t(next);
                o[i] = move(t);
                m[i] = next++;
                break;
            }
            case 1: {
                const TA t(next);
                o[i] = t;
                CHECK(t.v == next, "copying leaves the source alone");
                m[i] = next++;
                break;
            }
            case 2: {
                size_t j = vx_pick("j", 0, 1);
                const Optional<TA> &src = o[j];
                o[i] = src;
                m[i] = m[j];
                break;
            }
            case 3: {
                size_t j = vx_pick("j", 0, 1);
                o[i] = move(o[j]);
                if(i != j) m[i] = m[j], m[j] = EMPTY;
                break;
            }
            case 4: {
                const Optional<TA> &src = o[i];
                Optional<TA> c(src);
                check_opt(c, m[i]);
                break;
            }
            case 5: {
                Optional<TA> c(move(o[i]));
                check_opt(c, m[i]);
                check_opt(o[i], EMPTY);
                size_t j = vx_pick("j", 0, 1);
                o[j] = move(c);
                int t = m[i];
                m[i] = EMPTY;
                m[j] = t;
                break;
            }
            case 6:
                o[i].reset();
                m[i] = EMPTY;
                break;
            case 7: {
                size_t j = vx_pick("j", 0, 1);
                ::pystd2026::swap(o[i], o[j]);
                int t = m[i];
                m[i] = m[j];
                m[j] = t;
                break;
            }
            default: // assigning the held value to itself
                if(m[i] != EMPTY) {
                    if(vx_pick("how", 0, 1)) o[i] = *o[i];
                    else o[i] = move(*o[i]);
                }
            }
            long n = 0;
            for(size_t k = 0; k < 2; ++k) {
                check_opt(o[k], m[k]);
                n += m[k] != EMPTY;
            }
            CHECK(TA::alive == n, "exactly the held objects are alive");
        }
    }
    CHECK(TA::alive == 0, "everything is destroyed with its holder");
    vx_reach("done");
}

// Every way to reach the value of an optional, one at a time.
template<typename O> static void check_access(O &o, bool empty) {
    const O &c = o;
    CHECK(bool(o) == !empty, "has a value exactly when the history says so");
    CHECK(refused([&] { (void)o.value(); }) == empty, "value is refused exactly when empty");
    CHECK(refused([&] { (void)c.value(); }) == empty, "constant value is refused exactly when empty");
    CHECK(refused([&] { (void)*o; }) == empty, "dereferencing is refused exactly when empty");
    CHECK(refused([&] { (void)*c; }) == empty, "constant dereferencing is refused exactly when empty");
    CHECK(refused([&] { (void)o.operator->(); }) == empty, "the arrow is refused exactly when empty");
    CHECK(refused([&] { (void)c.operator->(); }) == empty, "the constant arrow is refused exactly when empty");
}

//@ C12 every accessor of an optional, constant and not, in every way an optional comes to be empty or full
HARNESS(optional_access) {
    switch(vx_pick("kind", 0, 2)) {
    case 0: {
        unsigned how = vx_pick("how", 0, 6);
        Optional<TA> e, full{TA(5)};
        const Optional<TA> &ce = e;
        if(how == 1) full.reset();
        if(how == 2) full = move(e);
        if(how == 3) full = ce;
        if(how == 4) e = move(full);
        if(how == 5) {
            Optional<TA> t(ce);
            full = move(t);
        }
        check_access(full, how >= 1 && how <= 5);
        check_access(e, how != 4);
        break;
    }
    case 1: {
        bool has = vx_pick("has", 0, 1);
        int v = (int)vx_sym("v", 32);
        Optional<int> o;
        if(has) o = v;
        check_access(o, !has);
        if(has) CHECK(o.value() == v && *o == v, "plain values");
        break;
    }
    default: {
        bool has = vx_pick("has", 0, 1);
        int x = 0;
        Optional<int *> o(has ? &x : nullptr);
        check_access(o, !has);
    }
    }
    CHECK(TA::alive == 0, "everything is destroyed with its holder");
    vx_reach("done");
}

//@ C12 construction of an optional from a value by copy and move, every value
HARNESS(optional_construct) {
    {
        int v = (int)vx_sym("v", 31);
        TA t(v);
        const TA &ct = t;
        Optional<TA> a(ct);
        CHECK(t.v == v, "copying leaves the source alone");
        Optional<TA> b(move(t));
        CHECK(TA::alive == 3, "one object each");
        check_opt(a, v);
        check_opt(b, v);
        Optional<int> i(v), n;
        CHECK(i && *i == v && !n, "plain values");
        i = v + 1;
        CHECK(i.value() == v + 1, "plain values are replaced");
        Optional<bool> f(false);
        CHECK(f && !f.value(), "an optional holding false is not empty");
    }
    CHECK(TA::alive == 0, "everything is destroyed with its holder");
    vx_reach("done");
}

//@ C12 optional pointers: two optionals, every sequence of 4 (5) operations
HARNESS(optional_pointer) {
    int x[2] = {1, 2};
    Optional<int *> o[2];
    int *m[2] = {nullptr, nullptr};
    size_t steps = vx_pick("steps", 0, QT(4, 5));
    for(size_t s = 0; s < steps; ++s) {
        size_t i = vx_pick("i", 0, 1), j = vx_pick("j", 0, 1);
        switch(vx_pick("op", 0, 4)) {
        case 0:
            o[i] = Optional<int *>(&x[j]);
            m[i] = &x[j];
            break;
        case 1: {
            const Optional<int *> &c = o[j];
            o[i] = c;
            m[i] = m[j];
            break;
        }
        case 2: {
            Optional<int *> c(o[j]);
            o[i] = move(c);
            m[i] = m[j];
            break;
        }
        case 3:
            o[i].reset();
            m[i] = nullptr;
            break;
        default: {
            Optional<int *> none;
            o[i] = move(none);
            m[i] = nullptr;
        }
        }
        for(size_t k = 0; k < 2; ++k) {
            CHECK(bool(o[k]) == (m[k] != nullptr), "has a value exactly when the history says so");
            const Optional<int *> &c = o[k];
            bool r = refused([&] { vx_assert(o[k].value() == m[k] && &*o[k] == m[k] && o[k].operator->() == m[k], "holds the pointer"); });
            bool rc = refused([&] { vx_assert(c.value() == m[k] && &*c == m[k] && c.operator->() == m[k], "holds the pointer"); });
            CHECK(r == (m[k] == nullptr) && rc == r, "access is refused exactly when empty");
        }
    }
    vx_reach("done");
}

// ---------------------------------------------------------------- Expected
typedef Expected<TA, TB> Ex;
static void check_ex(Ex &e, int state, int v) {
    CHECK(e.has_value() == (state == 1) && e.has_error() == (state == 2) && bool(e) == (state == 1), "reports what it holds");
    if(state == 1) {
        CHECK(e.value().v == v, "holds the value it was given");
        e.value().ok();
    } else if(state == 2) {
        CHECK(e.error().v == v, "holds the error it was given");
        e.error().ok();
    }
}

//@ C12 two expected objects, every sequence of 3 (4) operations: every way to construct, move construction, move assignment between every pair of states, self assignment [time=60/900]
HARNESS(expected_history) {
    // witness of the stand-in above
    if(false) vx_reach("refused access");
    {
        Ex e[2];
        int st[2] = {0, 0}, v[2] = {0, 0}, next = 1;
        size_t steps = vx_pick("steps", 0, QT(3, 4));
        for(size_t s = 0; s < steps; ++s) {
            size_t i = vx_pick("i", 0, 1);
            unsigned op = vx_pick("op", 0, 8);
            if(op <= 5) {
                TA a(next);
                TB b(next);
                const TA &ca = a;
                const TB &cb = b;
                switch(op) {
                case 0: e[i] = Ex(); break;
                case 1: e[i] = Ex(ca); break;
                case 2: e[i] = Ex(move(a)); break;
                case 3: e[i] = Ex(cb); break;
                case 4: e[i] = Ex(move(b)); break;
                default: e[i] = Ex(Unexpected<TB>(move(b))); break;
                }
                st[i] = op == 0 ? 0 : op <= 2 ? 1 : 2;
                v[i] = next++;
            } else if(op == 6) {
                size_t j = vx_pick("j", 0, 1);
                e[i] = move(e[j]);
                if(i != j) st[i] = st[j], v[i] = v[j], st[j] = 0;
            } else if(op == 7) {
                Ex t(move(e[i]));
                check_ex(t, st[i], v[i]);
                e[i] = move(t);
            } else {
                Unexpected<TB> u{TB(next)};
                CHECK(u.error().v == next, "an unexpected holds its error");
                e[i] = Ex(move(u));
                st[i] = 2;
                v[i] = next++;
            }
            for(size_t k = 0; k < 2; ++k) check_ex(e[k], st[k], v[k]);
            CHECK(TA::alive == (st[0] == 1) + (st[1] == 1), "exactly the held values are alive");
            CHECK(TB::alive == (st[0] == 2) + (st[1] == 2), "exactly the held errors are alive");
        }
        size_t k = vx_pick("refuse", 0, 2);
        if(k < 2) {
            bool val = vx_pick("value", 0, 1);
            expect_abort = st[k] != (val ? 1 : 2);
            if(val) CHECK(e[k].value().v == v[k] && !expect_abort, "value access is refused exactly when there is no value");
            else CHECK(e[k].error().v == v[k] && !expect_abort, "error access is refused exactly when there is no error");
            expect_abort = false;
        }
    }
    CHECK(TA::alive == 0 && TB::alive == 0, "everything is destroyed with its holder");
    vx_reach("done");
}

// Alternatives of very different size and alignment.
struct alignas(16) Wide {
    uint64_t a[5];
};
//@ C12 expected with alternatives of different size and alignment, every stored value
HARNESS(expected_sizes) {
    Wide w{};
    for(auto &x : w.a) x = vx_u64("w");
    uint8_t b = vx_u8("b");
    Expected<uint8_t, Wide> e(w), f(b);
    Expected<Wide, uint8_t> g(w);
    Expected<uint8_t, Wide> h(move(e));
    Expected<Wide, uint8_t> k;
    k = move(g);
    for(int i = 0; i < 5; ++i) CHECK(h.error().a[i] == w.a[i] && k.value().a[i] == w.a[i], "the large alternative is kept whole");
    CHECK(f.value() == b, "the small alternative is kept");
    CHECK(((uintptr_t)&h.error() & 15) == 0 && ((uintptr_t)&k.value() & 15) == 0, "storage is aligned");
    vx_reach("done");
}

// ---------------------------------------------------------------- unique_ptr / unique_arr
//@ C12 two owning pointers, every sequence of 4 (5) operations: assignment, move construction, reset to new, same and null, release, swap [time=60/900]
HARNESS(unique_ptr_history) {
    {
        unique_ptr<TA> p[2];
        int m[2] = {EMPTY, EMPTY}, next = 1;
        size_t steps = vx_pick("steps", 0, QT(4, 5));
        for(size_t s = 0; s < steps; ++s) {
            size_t i = vx_pick("i", 0, 1);
            switch(vx_pick("op", 0, 7)) {
            case 0:
                p[i] = unique_ptr<TA>(new TA(next));
                m[i] = next++;
                break;
            case 1: {
                size_t j = vx_pick("j", 0, 1);
                p[i] = move(p[j]);
                if(i != j) m[i] = m[j], m[j] = EMPTY;
                break;
            }
            case 2: {
                unique_ptr<TA> t(move(p[i]));
                CHECK(!p[i] && p[i].get() == nullptr, "a moved-from pointer owns nothing");
                if(vx_pick("back", 0, 1)) p[i] = move(t);
                else m[i] = EMPTY;
                break;
            }
            case 3:
                p[i].reset(new TA(next));
                m[i] = next++;
                break;
            case 4:
                p[i].reset(nullptr);
                m[i] = EMPTY;
                break;
            case 5: p[i].reset(p[i].get()); break;
            case 6: {
                TA *r = p[i].release();
                CHECK((r != nullptr) == (m[i] != EMPTY), "release hands out the pointer");
                delete r;
                m[i] = EMPTY;
                break;
            }
            default: {
                ::pystd2026::swap(p[0], p[1]);
                int t = m[0];
                m[0] = m[1];
                m[1] = t;
            }
            }
            long n = 0;
            for(size_t k = 0; k < 2; ++k) {
                const unique_ptr<TA> &c = p[k];
                CHECK(bool(p[k]) == (m[k] != EMPTY) && (p[k].get() != nullptr) == bool(p[k]) && c.get() == p[k].get(),
                      "owns an object exactly when the history says so");
                if(m[k] != EMPTY) CHECK((*p[k]).v == m[k] && p[k]->v == m[k] && c->v == m[k], "owns the object it was given");
                n += m[k] != EMPTY;
            }
            CHECK(TA::alive == n, "exactly the owned objects are alive");
        }
    }
    CHECK(TA::alive == 0, "everything is destroyed with its owner");
    vx_reach("done");
}

//@ C12 two owning arrays, every sequence of 3 (4) operations with sizes 0 to 2, and every index over 64 bits [time=60/900]
HARNESS(unique_arr_history) {
    {
        unique_arr<TA> p[2];
        size_t m[2] = {0, 0};
        bool own[2] = {false, false};
        size_t steps = vx_pick("steps", 0, QT(3, 4));
        for(size_t s = 0; s < steps; ++s) {
            size_t i = vx_pick("i", 0, 1);
            switch(vx_pick("op", 0, 3)) {
            case 0: {
                size_t n = vx_pick("n", 0, 2);
                p[i] = unique_arr<TA>(n);
                m[i] = n;
                own[i] = true;
                break;
            }
            case 1: {
                size_t n = vx_pick("n", 0, 2);
                unique_arr<TA> t(new TA[n], n);
                p[i] = move(t);
                CHECK(t.size() == 0 && t.get() == nullptr, "a moved-from array owns nothing");
                m[i] = n;
                own[i] = true;
                break;
            }
            case 2: {
                size_t j = vx_pick("j", 0, 1);
                p[i] = move(p[j]);
                if(i != j) m[i] = m[j], own[i] = own[j], m[j] = 0, own[j] = false;
                break;
            }
            default: {
                unique_arr<TA> t(move(p[i]));
                CHECK(t.size() == m[i] && p[i].size() == 0, "moving transfers the array");
                m[i] = 0;
                own[i] = false;
            }
            }
            CHECK(TA::alive == (long)(m[0] + m[1]), "exactly the owned objects are alive");
            for(size_t k = 0; k < 2; ++k) {
                CHECK(p[k].size() == m[k] && p[k].size_bytes() == m[k] * sizeof(TA) && (p[k].get() != nullptr) == own[k],
                      "owns the array it was given");
                for(size_t q = 0; q < m[k]; ++q) CHECK(&p[k][q] == p[k].get() + q && &p[k].unsafe_at(q) == p[k].get() + q, "elements in order");
            }
        }
        uint64_t idx = vx_u64("index");
        const unique_arr<TA> &c = p[0];
        bool r = refused([&] {
            p[0][idx].ok();
        });
        bool rc = refused([&] { c[idx].ok(); });
        CHECK(r == (idx >= m[0]) && rc == r, "indexing is refused exactly outside the array");
    }
    CHECK(TA::alive == 0, "everything is destroyed with its owner");
    vx_reach("done");
}
