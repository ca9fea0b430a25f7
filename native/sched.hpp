// A deterministic cooperative scheduler for real threads: it interposes the pthread calls, futex waits, sleeps and clocks
// the standard library makes, so that the code under test runs unchanged while exactly one thread runs at a time, every
// scheduling decision comes from a seed, and time is virtual. (Bounded exploration; it never counts as proof.)
#pragma once
#include "vp.hpp"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>

namespace vs
{
    enum kind { READY, MUTEX, RW_R, RW_W, COND, JOIN, FUTEX, SLEEP, DONE, PARKED };
    inline const char* kname(int k) { static const char* n[] = { "ready", "a mutex", "a read lock", "a write lock", "a condition variable", "joining a thread", "a future", "a sleep", "finished", "parked" }; return n[k]; }
    struct tcb
    {
        int id = 0; kind st = READY; void* on = nullptr; bool timed = false, timeout = false, woken = false; long long dl = 0;
        std::atomic<int> go{ 0 }; pthread_t real{}; bool detached = false; int held = 0; void* (*fn)(void*) = nullptr; void* arg = nullptr;
        void* blocked_mutex = nullptr; int prio = 0; std::vector<void*> locks;
    };
    struct rwst { int readers = 0; tcb* writer = nullptr; };
    struct world
    {
        std::vector<tcb*> ts; std::map<void*, std::pair<tcb*, int>> mx; std::map<void*, rwst> rw; std::map<unsigned long, tcb*> byreal;
        vp::rng r{ 1 }; long long now = 0; unsigned long steps = 0, limit = 400000; int mode = 0; unsigned spurious = 0; bool active = false;
        std::vector<int> trace; int nsw = 0; std::string name; std::function<void()> ondead; long long idle_jumps = 0;
    };
    inline world& W() { static world* w = new world; return *w; }
    inline thread_local tcb* me = nullptr;

    template<class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
    inline long raw(long a, long b, long c, long d, long e, long f, long g)
    {
        long ret;
        register long r10 __asm__("r10") = e; register long r8 __asm__("r8") = f; register long r9 __asm__("r9") = g;
        __asm__ volatile("syscall" : "=a"(ret) : "a"(a), "D"(b), "S"(c), "d"(d), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        return ret;
    }
    inline void fwait(std::atomic<int>& a) { while (a.load() == 0) raw(SYS_futex, (long)&a, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); a.store(0); }
    inline void fwake(std::atomic<int>& a) { a.store(1); raw(SYS_futex, (long)&a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

    inline std::string describe()
    {
        std::string o;
        for (auto t : W().ts) if (t->st != DONE) o += " [thread " + std::to_string(t->id) + (t == me ? " running" : std::string(" waits for ") + kname(t->st)) + "]";
        return o;
    }
    [[noreturn]] inline void dead(const std::string& why) { if (W().ondead) W().ondead(); vp::fail(why + ";" + describe() + " schedule " + W().name); }

    inline bool can_run(tcb* t)
    {
        switch (t->st)
        {
        case READY: return true;
        case MUTEX: { auto i = W().mx.find(t->on); return i == W().mx.end() || i->second.first == nullptr; }
        case RW_R: return W().rw[t->on].writer == nullptr;
        case RW_W: return W().rw[t->on].writer == nullptr && W().rw[t->on].readers == 0;
        case COND: case FUTEX: case SLEEP: return t->woken || (t->timed && t->dl <= W().now);
        case JOIN: return ((tcb*)t->on)->st == DONE;
        default: return false;
        }
    }
    inline tcb* choose()
    {
        world& w = W();
        for (int round = 0; round < 3; ++round)
        {
            std::vector<tcb*> c;
            for (auto t : w.ts) if (can_run(t)) c.push_back(t);
            if (!c.empty())
            {
                if (w.mode == 1)      // random priorities, changed now and then
                {
                    tcb* b = c[0];
                    for (auto t : c) if (t->prio > b->prio) b = t;
                    if (w.r.chance(1, 12)) b->prio = (int)w.r.below(1000) - 1000;
                    return b;
                }
                if (w.mode == 2 && me && w.r.chance(3, 4)) for (auto t : c) if (t == me) return t;
                return c[w.r.below(c.size())];
            }
            // nobody can run: let time pass until the first timed waiter is due
            long long m = -1;
            for (auto t : w.ts) if ((t->st == COND || t->st == FUTEX || t->st == SLEEP) && t->timed) if (m < 0 || t->dl < m) m = t->dl;
            if (m < 0) dead("deadlock: no thread can run");
            if (m > w.now) { w.now = m; ++w.idle_jumps; }
        }
        dead("scheduler stuck");
    }
    // hands the processor over; returns when this thread is chosen again
    inline void resched()
    {
        world& w = W();
        if (++w.steps > w.limit) dead("no progress after " + std::to_string(w.limit) + " steps");
        if (w.spurious && w.r.chance(1, w.spurious))
        {
            std::vector<tcb*> c;
            for (auto t : w.ts) if (t->st == COND && !t->woken) c.push_back(t);
            if (!c.empty()) c[w.r.below(c.size())]->woken = true;
        }
        tcb* n = choose();
        if (n != me) { ++w.nsw; tcb* self = me; const bool fin = self->st == DONE; fwake(n->go); if (!fin) fwait(self->go); }
    }
    inline void point() { if (me && W().active) { me->st = READY; if (W().r.chance(1, 8)) W().now += (long long)W().r.below(3000); resched(); } }
    inline void block(kind k, void* on) { me->st = k; me->on = on; resched(); me->st = READY; }

    inline bool on() { return me != nullptr && W().active; }
    inline bool holds_any() { return me && !me->locks.empty(); }

    inline void lock(void* m, bool rec)
    {
        point();
        for (;;)
        {
            auto& s = W().mx[m];
            if (!s.first) { s = { me, 1 }; me->locks.push_back(m); return; }
            if (s.first == me) { if (rec) { ++s.second; return; } dead("a thread locks a mutex it already holds"); }
            block(MUTEX, m);
        }
    }
    inline void unlock_nopoint(void* m)
    {
        auto& s = W().mx[m];
        if (s.first != me) dead("a thread unlocks a mutex it does not hold");
        if (--s.second == 0) { s.first = nullptr; for (auto i = me->locks.begin(); i != me->locks.end(); ++i) if (*i == m) { me->locks.erase(i); break; } }
    }
    inline int cwait(void* c, void* m, bool timed, long long dl)
    {
        point();                                   // between testing the predicate and going to sleep
        me->woken = false; me->timed = timed; me->dl = dl;
        unlock_nopoint(m);
        block(COND, c);
        bool to = !me->woken && timed;
        me->timed = false;
        lock(m, false);
        return to ? ETIMEDOUT : 0;
    }
    inline void csignal(void* c, bool all)
    {
        point();
        std::vector<tcb*> ws;
        for (auto t : W().ts) if (t->st == COND && t->on == c && !t->woken) ws.push_back(t);
        if (ws.empty()) return;
        if (all) for (auto t : ws) t->woken = true;
        else ws[W().r.below(ws.size())]->woken = true;
        point();
    }
    inline void* tramp(void* p)
    {
        tcb* t = (tcb*)p;
        me = t;
        fwait(t->go);
        void* r = t->fn(t->arg);
        t->st = DONE;
        W().active ? resched() : (void)0;
        me = nullptr;
        return r;
    }
    inline void sleep_until(long long dl) { me->woken = false; me->timed = true; me->dl = dl; block(SLEEP, nullptr); me->timed = false; }
    inline long long ns(const timespec* t) { return t->tv_sec * 1000000000ll + t->tv_nsec; }
    constexpr long long BASE = 1700000000ll * 1000000000ll;

    // runs body as thread 0 under the scheduler; all threads it created must have finished when it returns
    template<class F> void run(std::uint64_t seed, F body, const char* label = "")
    {
        world& w = W();
        for (auto t : w.ts) delete t;
        w.ts.clear(); w.mx.clear(); w.rw.clear(); w.byreal.clear(); w.steps = 0; w.nsw = 0; w.now = BASE; w.idle_jumps = 0;
        w.r = vp::rng(seed); w.mode = (int)(w.r.below(3)); w.spurious = w.r.chance(1, 3) ? 40 : 0;
        w.name = std::string(label) + " seed " + std::to_string(seed);
        tcb* t = new tcb; t->id = 0; t->prio = (int)w.r.below(1000); w.ts.push_back(t);
        me = t;
        w.active = true;
        body();
        // let detached threads finish
        for (;;)
        {
            bool other = false;
            for (auto x : w.ts) if (x != me && x->st != DONE) other = true;
            if (!other) break;
            me->st = PARKED;
            bool any = false;
            for (auto x : w.ts) if (x != me && can_run(x)) any = true;
            bool timed = false;
            for (auto x : w.ts) if (x != me && x->timed && x->st != DONE) timed = true;
            if (!any && !timed) dead("threads are left blocked when the run ends");
            me->st = READY;
            me->woken = false;
            sleep_until(w.now + 1000000);
        }
        w.active = false;
        me = nullptr;
    }
}

extern "C"
{
    int pthread_mutex_lock(pthread_mutex_t* m)
    {
        static auto f = vs::real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
        if (!vs::on()) return f(m);
        vs::lock(m, (m->__data.__kind & 3) == 1);
        return 0;
    }
    int pthread_mutex_trylock(pthread_mutex_t* m)
    {
        static auto f = vs::real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
        if (!vs::on()) return f(m);
        vs::point();
        auto& s = vs::W().mx[m];
        if (s.first && !((m->__data.__kind & 3) == 1 && s.first == vs::me)) return EBUSY;
        vs::lock(m, true);
        return 0;
    }
    int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec*) { return pthread_mutex_lock(m); }
    int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) { return pthread_mutex_lock(m); }
    int pthread_mutex_unlock(pthread_mutex_t* m)
    {
        static auto f = vs::real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
        if (!vs::on()) return f(m);
        vs::unlock_nopoint(m);
        vs::point();
        return 0;
    }
    int pthread_rwlock_rdlock(pthread_rwlock_t* m)
    {
        static auto f = vs::real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
        if (!vs::on()) return f(m);
        vs::point();
        while (vs::W().rw[m].writer) { if (vs::W().rw[m].writer == vs::me) vs::dead("read lock taken while holding the write lock"); vs::block(vs::RW_R, m); }
        ++vs::W().rw[m].readers; vs::me->locks.push_back(m);
        return 0;
    }
    int pthread_rwlock_wrlock(pthread_rwlock_t* m)
    {
        static auto f = vs::real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
        if (!vs::on()) return f(m);
        vs::point();
        while (vs::W().rw[m].writer || vs::W().rw[m].readers) vs::block(vs::RW_W, m);
        vs::W().rw[m].writer = vs::me; vs::me->locks.push_back(m);
        return 0;
    }
    int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
    {
        static auto f = vs::real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
        if (!vs::on()) return f(m);
        vs::point();
        if (vs::W().rw[m].writer) return EBUSY;
        ++vs::W().rw[m].readers; vs::me->locks.push_back(m);
        return 0;
    }
    int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
    {
        static auto f = vs::real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock");
        if (!vs::on()) return f(m);
        vs::point();
        if (vs::W().rw[m].writer || vs::W().rw[m].readers) return EBUSY;
        vs::W().rw[m].writer = vs::me; vs::me->locks.push_back(m);
        return 0;
    }
    int pthread_rwlock_unlock(pthread_rwlock_t* m)
    {
        static auto f = vs::real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
        if (!vs::on()) return f(m);
        auto& s = vs::W().rw[m];
        if (s.writer == vs::me) s.writer = nullptr; else if (s.readers > 0) --s.readers; else vs::dead("unlock of a lock that is not held");
        for (auto i = vs::me->locks.begin(); i != vs::me->locks.end(); ++i) if (*i == m) { vs::me->locks.erase(i); break; }
        vs::point();
        return 0;
    }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        static auto f = vs::real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
        if (!vs::on()) return f(c, m);
        return vs::cwait(c, m, false, 0);
    }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
    {
        static auto f = vs::real<int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait");
        if (!vs::on()) return f(c, m, t);
        return vs::cwait(c, m, true, vs::ns(t));
    }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t)
    {
        if (!vs::on()) { static auto f = vs::real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)>("pthread_cond_clockwait"); return f(c, m, CLOCK_MONOTONIC, t); }
        return vs::cwait(c, m, true, vs::ns(t));
    }
    int pthread_cond_signal(pthread_cond_t* c)
    {
        static auto f = vs::real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
        if (!vs::on()) return f(c);
        vs::csignal(c, false);
        return 0;
    }
    int pthread_cond_broadcast(pthread_cond_t* c)
    {
        static auto f = vs::real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
        if (!vs::on()) return f(c);
        vs::csignal(c, true);
        return 0;
    }
    int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
    {
        static auto f = vs::real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
        if (!vs::on()) return f(t, a, fn, arg);
        vs::point();
        auto n = new vs::tcb;
        n->id = (int)vs::W().ts.size(); n->fn = fn; n->arg = arg; n->prio = (int)vs::W().r.below(1000);
        int r = f(t, a, vs::tramp, n);
        if (r) { delete n; return r; }
        n->real = *t;
        vs::W().ts.push_back(n);
        vs::W().byreal[(unsigned long)*t] = n;
        vs::point();
        return 0;
    }
    int pthread_join(pthread_t t, void** r)
    {
        static auto f = vs::real<int (*)(pthread_t, void**)>("pthread_join");
        if (!vs::on()) return f(t, r);
        vs::point();
        auto i = vs::W().byreal.find((unsigned long)t);
        if (i != vs::W().byreal.end())
        {
            if (i->second == vs::me) vs::dead("a thread joins itself");
            while (i->second->st != vs::DONE) vs::block(vs::JOIN, i->second);
        }
        return f(t, r);
    }
    int clock_gettime(clockid_t c, timespec* t)
    {
        static auto f = vs::real<int (*)(clockid_t, timespec*)>("clock_gettime");
        if (!vs::on()) return vs::raw(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0) == 0 ? 0 : -1;
        (void)f;
        if (vs::W().r.chance(1, 4)) vs::W().now += (long long)vs::W().r.below(2000);
        t->tv_sec = vs::W().now / 1000000000ll; t->tv_nsec = vs::W().now % 1000000000ll;
        return 0;
    }
    int nanosleep(const timespec* t, timespec* rem)
    {
        static auto f = vs::real<int (*)(const timespec*, timespec*)>("nanosleep");
        if (!vs::on()) return f(t, rem);
        vs::sleep_until(vs::W().now + vs::ns(t));
        return 0;
    }
    int clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec* rem)
    {
        static auto f = vs::real<int (*)(clockid_t, int, const timespec*, timespec*)>("clock_nanosleep");
        if (!vs::on()) return f(c, flags, t, rem);
        vs::sleep_until((flags & TIMER_ABSTIME) ? vs::ns(t) : vs::W().now + vs::ns(t));
        return 0;
    }
    int sched_yield()
    {
        static auto f = vs::real<int (*)()>("sched_yield");
        if (!vs::on()) return f();
        vs::point();
        return 0;
    }
    long syscall(long n, ...)
    {
        va_list ap; va_start(ap, n);
        long a[6]; for (auto& x : a) x = va_arg(ap, long);
        va_end(ap);
        if (n == SYS_futex && vs::on())
        {
            int op = (int)a[1] & 127;
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
            {
                vs::point();
                if (*(volatile int*)a[0] != (int)a[2]) { errno = EAGAIN; return -1; }
                vs::me->woken = false; vs::me->timed = a[3] != 0; vs::me->dl = 0;
                if (a[3]) { long long d = vs::ns((const timespec*)a[3]); vs::me->dl = (op == FUTEX_WAIT) ? vs::W().now + d : d; }
                vs::block(vs::FUTEX, (void*)a[0]);
                bool to = !vs::me->woken && vs::me->timed;
                vs::me->timed = false;
                if (to) { errno = ETIMEDOUT; return -1; }
                return 0;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
            {
                long k = 0;
                for (auto t : vs::W().ts) if (t->st == vs::FUTEX && t->on == (void*)a[0] && !t->woken && k < a[2]) { t->woken = true; ++k; }
                vs::point();
                return k;
            }
        }
        long r = vs::raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
        if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
        return r;
    }
}
