// C27: mutexes, lock guards and threads over every result of the primitives.
#include <errno.h>
#include <pthread.h>
#include <pystd2026_threading.hpp>
#include "util.hpp"
//@unit repo=core,threading wrap=pthread_mutex_init,pthread_mutex_lock,pthread_mutex_trylock,pthread_mutex_unlock,pthread_mutex_destroy,pthread_attr_init,pthread_attr_destroy,pthread_create,pthread_join,pthread_detach
//@stub the pthread calls are stand-ins that track who holds and who was joined, and may return every documented error; threads run to completion when they are started; interleavings of several threads are outside the claim

struct M {
    pthread_mutex_t *id = nullptr;
    bool alive = false, held = false;
    int locks = 0, unlocks = 0;
};
static M ms[3];
static int errors_left = 0; // how many calls may still fail
static int result(const char *what, int a, int b = 0, int c = 0) {
    if(!errors_left || !vx_fork(vx_sym(what, 1))) return 0;
    --errors_left;
    size_t n = c ? 3 : b ? 2 : 1;
    switch(vx_pick("error", 1, n)) {
    case 1: return a;
    case 2: return b;
    default: return c;
    }
}
static M *of(pthread_mutex_t *p) {
    for(auto &m : ms)
        if(m.id == p && m.alive) return &m;
    vx_fail("only live mutexes are used");
}
static bool contended = false; // another thread holds the mutexes
extern "C" {
int __wrap_pthread_mutex_init(pthread_mutex_t *p, const pthread_mutexattr_t *) {
    for(auto &m : ms) vx_assert(!(m.alive && m.id == p), "initialised once");
    for(auto &m : ms)
        if(!m.alive) {
            m = M();
            m.id = p;
            m.alive = true;
            break;
        }
    return result("init fails", EAGAIN, ENOMEM);
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *p) {
    M *m = of(p);
    if(m->held) {
        m->alive = false;
        return EBUSY;
    }
    m->alive = false;
    return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *p) {
    M *m = of(p);
    int rc = result("lock fails", EINVAL, EDEADLK, EAGAIN);
    if(rc) return rc;
    if(m->held) return EDEADLK;
    m->held = true;
    ++m->locks;
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *p) {
    M *m = of(p);
    int rc = result("trylock fails", EINVAL, EAGAIN, EOWNERDEAD);
    if(rc) return rc;
    if(m->held || contended) return EBUSY;
    m->held = true;
    ++m->locks;
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *p) {
    M *m = of(p);
    int rc = result("unlock fails", EINVAL, EPERM);
    if(rc) return rc;
    vx_assert(m->held, "only a held mutex is unlocked");
    m->held = false;
    ++m->unlocks;
    return 0;
}
}

//@ C27 every sequence of up to 4 (5) lock, try_lock and unlock calls on a mutex, up to two failures of the primitives with every documented error [time=20/120]
HARNESS(mutex_calls) {
    {
        errors_left = 2;
        contended = vx_fork(vx_sym("contended", 1));
        Mutex mutex;
        size_t steps = vx_pick("steps", 0, QT(4, 5));
        for(size_t s = 0; s < steps; ++s) {
            M before = ms[0];
            int errs = errors_left;
            switch(vx_pick("op", 0, 2)) {
            case 0: {
                bool r = refused([&] { mutex.lock(); });
                vx_assert(r == (ms[0].locks == before.locks), "a failed lock is an exception, a successful one is not");
                break;
            }
            case 1: {
                bool got = false;
                bool r = refused([&] { got = mutex.try_lock(); });
                vx_assert(got == (ms[0].locks == before.locks + 1), "true exactly when it was locked");
                vx_assert(r == (errs != errors_left), "failures other than being held already are exceptions");
                vx_reach(got ? "locked" : r ? "failed" : "held already");
                break;
            }
            case 2: {
                if(!ms[0].held) break;
                bool r = refused([&] { mutex.unlock(); });
                vx_assert(r == (ms[0].unlocks == before.unlocks), "a failed unlock is an exception, a successful one is not");
                break;
            }
            }
        }
        if(ms[0].held) {
            errors_left = 0;
            mutex.unlock();
        }
    }
    CHECK(!ms[0].alive, "the mutex is destroyed");
    CHECK(vx_live_allocs() == 0, "no memory left");
}

//@ C27 nested lock guards over two mutexes with an exception at every point and a failing lock [time=20/60]
HARNESS(lock_guards) {
    {
        Mutex a, b;
        size_t leave = vx_pick("exception after", 0, 4);
        errors_left = vx_fork(vx_sym("faults", 1)) ? 1 : 0;
        int progress = 0;
        bool r = refused([&] {
            if(leave == 1) throw PyException("before");
            LockGuard<Mutex> ga(a);
            vx_assert(ms[0].held && !ms[1].held, "held from construction on");
            ++progress;
            if(leave == 2) {
                errors_left = 0;
                throw PyException("first");
            }
            {
                LockGuard<Mutex> gb(b);
                int rest = errors_left;
                errors_left = 0;
                vx_assert(ms[0].held && ms[1].held, "both held");
                ++progress;
                if(leave == 3) throw PyException("inner");
                errors_left = rest;
                errors_left = 0; // unlocking does not fail here
            }
            vx_assert(ms[0].held && !ms[1].held, "the inner one is released at the end of its scope");
            if(leave == 4) throw PyException("outer");
            ++progress;
        });
        CHECK(!ms[0].held && !ms[1].held, "nothing is held afterwards");
        CHECK(ms[0].locks == ms[0].unlocks && ms[1].locks == ms[1].unlocks && ms[0].locks <= 1 && ms[1].locks <= 1,
              "released exactly once");
        CHECK(r == (progress != 3), "every failure is an exception");
        vx_reach(r ? "left by exception" : "left normally");
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}
// Any lockable type, not only Mutex.
struct Rec {
    int locks = 0, unlocks = 0;
    bool fail = false;
    void lock() {
        if(fail) throw PyException("no");
        ++locks;
    }
    void unlock() { ++unlocks; }
};
//@ C27 a guard over a user's lock that works or fails [time=20/60]
HARNESS(lock_guard_generic) {
    {
        Rec rec;
        rec.fail = vx_fork(vx_sym("fails", 1));
        bool inside = false;
        bool r = refused([&] {
            LockGuard<Rec> g(rec);
            inside = true;
            CHECK(rec.locks == 1 && rec.unlocks == 0, "held inside");
            if(vx_fork(vx_sym("throw", 1))) throw PyException("x");
        });
        CHECK(inside == !rec.fail, "the body runs only with the lock");
        CHECK(rec.locks == rec.unlocks && rec.locks == (rec.fail ? 0 : 1), "locked and unlocked exactly once");
        CHECK(!rec.fail || r, "the failure is reported");
    }
    CHECK(vx_live_allocs() == 0, "no memory left");
}

// ---------------------------------------------------------------- threads
struct T {
    bool joined = false, detached = false;
};
static T ts[4];
static int num_threads = 0, attrs = 0, entries = 0;
static int the_context;
static void *entry_function(void *ctx) {
    vx_assert(ctx == &the_context, "the entry function gets the argument");
    ++entries;
    return nullptr;
}
static T &thread_of(pthread_t id) {
    vx_assert(id >= 1000 && id < 1000u + (unsigned)num_threads, "only started threads are used");
    T &t = ts[id - 1000];
    vx_assert(!t.joined && !t.detached, "joined or detached only once");
    return t;
}
extern "C" {
int __wrap_pthread_attr_init(pthread_attr_t *) {
    int rc = result("attr fails", ENOMEM);
    if(!rc) ++attrs;
    return rc;
}
int __wrap_pthread_attr_destroy(pthread_attr_t *) {
    vx_assert(attrs > 0, "attributes are destroyed once");
    --attrs;
    return 0;
}
int __wrap_pthread_create(pthread_t *id, const pthread_attr_t *, void *(*f)(void *), void *ctx) {
    int rc = result("create fails", EAGAIN, EPERM, EINVAL);
    if(rc) return rc;
    *id = 1000 + (unsigned)num_threads++;
    f(ctx);
    return 0;
}
int __wrap_pthread_join(pthread_t id, void **) {
    T &t = thread_of(id);
    int rc = result("join fails", EDEADLK, EINVAL, ESRCH);
    if(!rc) t.joined = true;
    return rc;
}
int __wrap_pthread_detach(pthread_t id) {
    T &t = thread_of(id);
    int rc = result("detach fails", EINVAL, ESRCH);
    if(!rc) t.detached = true;
    return rc;
}
}
//@ C27 two threads, every sequence of up to 4 (5) join and detach calls, up to two failures of the primitives with every documented error [time=30/120]
HARNESS(thread_history) {
    {
        errors_left = 2;
        unique_ptr<Thread> th[2];
        int id[2] = {-1, -1};
        size_t steps = vx_pick("steps", 0, QT(4, 5));
        for(size_t s = 0; s < steps; ++s) {
            size_t i = vx_pick("i", 0, 1);
            int errs = errors_left;
            int op = (int)vx_pick("op", 0, 3);
            if(op == 0) {
                if(th[i]) continue;
                int before = entries;
                bool r = refused([&] { th[i].reset(new Thread(entry_function, &the_context)); });
                vx_assert(r == (errs != errors_left), "a failure to start is an exception, and nothing else is");
                vx_assert(entries == before + !r, "the entry function is started once");
                if(!r) id[i] = num_threads - 1;
                vx_reach(r ? "not started" : "started");
            } else if(op < 3) {
                if(!th[i]) continue;
                T before = ts[id[i]];
                bool over = before.joined || before.detached;
                bool r = refused([&] {
                    if(op == 1) th[i]->join();
                    else th[i]->detach();
                });
                T &t = ts[id[i]];
                vx_assert(r == (over || errs != errors_left), "a failure is an exception, a second time is refused");
                if(!r) vx_assert(op == 1 ? t.joined : t.detached, "done when it says so");
                vx_reach(r ? "refused" : op == 1 ? "joined" : "detached");
            } else {
                if(!th[i]) continue;
                errors_left = 0;
                th[i].reset(nullptr);
                errors_left = errs;
                vx_assert(ts[id[i]].joined || ts[id[i]].detached, "a thread is joined at the latest when its owner ends");
            }
        }
        errors_left = 0;
    }
    for(int i = 0; i < num_threads; ++i) CHECK(ts[i].joined != ts[i].detached, "joined or detached exactly once");
    CHECK(attrs == 0, "attributes are released");
    CHECK(vx_live_allocs() == 0, "no memory left");
}
//@ C27 the end of a thread object whose join fails does not end the process [time=20/60]
HARNESS(thread_end) {
    {
        bool r = refused([&] {
            Thread t(entry_function, &the_context);
            errors_left = 1;
        });
        CHECK(!r, "no exception out of the destructor");
    }
    CHECK(entries == 1, "started once");
    CHECK(vx_live_allocs() == 0, "no memory left");
}
