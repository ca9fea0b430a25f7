// T01-T06 on the real thread pool: random programs under seeded schedules (VP_SCHED) or under ThreadSanitizer with real threads.
#ifdef VP_SCHED
#include "sched.hpp"
#else
#include "vp.hpp"
#endif
#include <pluto/thread_pool.hpp>
#include <atomic>
#include <memory>
#include <sys/mman.h>

using pool = pluto::thread_pool;
typedef pool::clock_type clk;

#ifdef VP_SCHED
struct rec
{
    int id; int prio; long inv = 0, ret = 0, start = 0, end = 0; int runs = 0; long long at = 0, when = 0; bool sched = false; int epoch = 0;
};
static void nap(unsigned us) { vs::sleep_until(vs::W().now + us * 1000ll); }
static long T = 0;                            // event counter (one thread runs at a time)
static std::vector<rec*> recs;
static rec* fresh(int prio) { rec* r = new rec; r->id = (int)recs.size(); r->prio = prio; recs.push_back(r); return r; }
static void clear() { for (auto r : recs) delete r; recs.clear(); T = 0; }
static void unlocked(const char* what) { if (vs::holds_any()) vp::fail(std::string(what) + " with a lock held; schedule " + vs::W().name); }
static void bad(const std::string& m) { vp::fail(m + "; schedule " + vs::W().name); }
static std::string tn(const rec* r) { return "task " + std::to_string(r->id) + " (priority " + std::to_string(r->prio) + ")"; }
static void began(rec* r) { unlocked("a task runs"); r->start = ++T; r->when = clk::now().time_since_epoch().count(); if (++r->runs > 1) bad(tn(r) + " runs twice"); }
static void ended(rec* r) { r->end = ++T; }
static void spin(const char* what, std::function<bool()> f) { for (int i = 0; !f(); ++i) { if (i > 4000) bad(std::string("never happens: ") + what); nap(50); } }
static int some_prio(vp::rng& r) { static const int ps[] = { 0, 0, 0, 1, -1, 127, -128, 32, -64, 64 }; return ps[r.below(10)]; }

// a pool in memory of its own, made inaccessible once it is destroyed
struct box
{
    void* m; std::size_t n; pool* p;
    explicit box(std::size_t w)
    {
        n = (sizeof(pool) + 8191) / 4096 * 4096;
        m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        p = new (m) pool(w);
        unlocked("the constructor returns");
    }
    void destroy() { p->~pool(); p = nullptr; mprotect(m, n, PROT_NONE); unlocked("the destructor returns"); }
    ~box() { if (p) destroy(); }
};
static std::vector<std::pair<void*, std::size_t>> boxes;
static void unmap() { for (auto& b : boxes) munmap(b.first, b.second); boxes.clear(); }

static void submit(pool& p, vp::rng& r, rec* q, bool sync, std::function<void()> extra = nullptr)
{
    auto f = [q, extra] { began(q); if (extra) extra(); ended(q); };
    q->inv = ++T;
    static const pool::priority en[] = { pool::priority::lowest, pool::priority::lower, pool::priority::low, pool::priority::normal, pool::priority::high, pool::priority::higher, pool::priority::highest };
    bool e = false;
    for (auto x : en) if ((int)x == q->prio && r.chance(1, 2)) { e = true; if (sync) p.run_sync(f, x); else p.run_async(f, x); }
    if (!e) { if (sync) p.run_sync(f, (signed char)q->prio); else p.run_async(f, (signed char)q->prio); }
    q->ret = ++T;
    unlocked("a run returns");
    if (sync && (q->runs != 1 || !q->end)) bad("run_sync returns before its task has run");
}

// queue order with one worker
static void t02(vp::rng& r)
{
    bool late = r.chance(1, 2);
    box b(late ? 0 : 1);
    boxes.push_back({ b.m, b.n });
    pool& p = *b.p;
    p.on_stop(pool::action::complete_tasks);
    int n = 2 + (int)r.below(8), k = 1 + (int)r.below(3);
    std::vector<std::thread> cs;
    for (int c = 1; c < k; ++c) cs.emplace_back([&p, c, n, &r] { vp::rng q(r.next() + c); for (int i = 0; i < n; ++i) submit(p, q, fresh(some_prio(q)), !false && q.chance(1, 5) && p.workers_size() > 0); });
    for (int i = 0; i < n; ++i) submit(p, r, fresh(some_prio(r)), !late && r.chance(1, 6));
    if (late) p.target_workers_size(1);
    for (auto& c : cs) c.join();
    p.wait_until_all_tasks_complete();
    unlocked("waiting returns");
    for (auto q : recs) if (q->runs != 1 || !q->end) bad(tn(q) + " has not run although all tasks completed");
    std::vector<rec*> o(recs);
    std::sort(o.begin(), o.end(), [](rec* a, rec* c) { return a->start < c->start; });
    for (std::size_t i = 0; i < o.size(); ++i)
    {
        long taken = i ? o[i - 1]->end : 0;      // the single worker took o[i] after this
        if (i && o[i]->start < o[i - 1]->end) bad("two tasks run at once with a single worker");
        for (std::size_t j = i + 1; j < o.size(); ++j)
        {
            rec *x = o[i], *y = o[j];
            if (!(late && k == 1) && !(y->ret < taken)) continue;   // y was surely queued when x was taken
            if (y->prio > x->prio) bad(tn(y) + " was queued but " + tn(x) + " ran first");
            if (y->prio == x->prio && y->ret < x->inv) bad(tn(y) + " was queued before " + tn(x) + " but ran after it");
        }
    }
    b.destroy();
}

// numbers
static void t03(vp::rng& r)
{
    std::size_t W = r.below(4);
    box b(W);
    boxes.push_back({ b.m, b.n });
    pool& p = *b.p;
    auto is = [&](const char* what, std::size_t got, std::size_t want) { if (got != want) bad(std::string(what) + " is " + std::to_string(got) + ", expected " + std::to_string(want)); unlocked("an accessor returns"); };
    is("workers_size", p.workers_size(), W);
    is("target_workers_size", p.target_workers_size(), W);
    std::size_t target = W;
    for (int round = 0; round < 1 + (int)r.below(4); ++round)
    {
        if (r.chance(1, 2))
        {
            std::size_t n = r.below(5);
            bool settled = p.workers_size() == target;
            std::size_t before = target;
            p.target_workers_size(n);
            target = n;
            is("target_workers_size", p.target_workers_size(), n);
            if (settled && n >= before) is("workers_size after growing", p.workers_size(), n);
            if (p.workers_size() < n) bad("fewer workers than the target");
            spin("workers reach the target", [&] { return p.workers_size() == target; });
        }
        bool open = false;
        std::size_t k = r.below(6), started = 0;
        for (std::size_t i = 0; i < k; ++i) { rec* q = fresh(some_prio(r)); submit(p, r, q, false, [&] { ++started; while (!open) nap(20); }); }
        std::size_t run = std::min(k, target);
        spin("enough tasks start", [&] { return started == run; });
        is("active_workers_size", p.active_workers_size(), run);
        is("active_tasks_size", p.active_tasks_size(), run);
        is("workers_size", p.workers_size(), target);
        is("waiting_workers_size", p.waiting_workers_size(), target - run);
        is("waiting_tasks_size", p.waiting_tasks_size(), k - run);
        is("tasks_size", p.tasks_size(), k);
        is("scheduled_tasks_size", p.scheduled_tasks_size(), 0);
        if (r.chance(1, 3) && run == k && target)
        {
            std::size_t n = r.below(target + 1);
            p.target_workers_size(n);
            if (p.workers_size() < std::max(n, run)) bad("busy workers leave");
            spin("idle workers leave", [&] { return p.workers_size() == std::max(n, run); });
            is("active_workers_size", p.active_workers_size(), run);
            is("active_tasks_size", p.active_tasks_size(), run);
            is("tasks_size", p.tasks_size(), run);
            is("waiting_workers_size", p.waiting_workers_size(), std::max(n, run) - run);
            is("waiting_tasks_size", p.waiting_tasks_size(), 0);
            open = true;
            target = n;
            spin("workers reach the target", [&] { return p.workers_size() == target; });
            p.wait_until_all_tasks_complete();
            is("active_workers_size", p.active_workers_size(), 0);
            continue;
        }
        open = true;
        if (!target) { p.target_workers_size(target = 1); is("workers_size", p.workers_size(), 1); }
        p.wait_until_all_tasks_complete();
        is("active_workers_size", p.active_workers_size(), 0);
        is("waiting_tasks_size", p.waiting_tasks_size(), 0);
        is("waiting_workers_size", p.waiting_workers_size(), target);
        if (r.chance(1, 3))
        {
            std::size_t m = r.below(4);
            for (std::size_t i = 0; i < m; ++i) { rec* q = fresh(0); p.run_after(std::chrono::hours(1), [q] { began(q); }); }
            is("scheduled_tasks_size", p.scheduled_tasks_size(), m);
            is("tasks_size", p.tasks_size(), 0);
            break;
        }
    }
    b.destroy();
}

// wake-ups: a lost one ends as a deadlock
static void t04(vp::rng& r)
{
    std::size_t W = 1 + r.below(3);
    box b(W);
    boxes.push_back({ b.m, b.n });
    pool& p = *b.p;
    if (W > 1 && r.chance(1, 4))
    {
        // tasks that need each other, as many as there are workers
        std::size_t in = 0;
        for (std::size_t i = 0; i < W; ++i)
        {
            submit(p, r, fresh(some_prio(r)), false, [&in, W] { ++in; for (int n = 0; in < W; ++n) { if (n > 4000) bad("idle workers are not woken for a queued task"); nap(20); } });
            if (r.chance(1, 2)) nap((unsigned)r.below(60));
        }
        p.wait_until_all_tasks_complete();
    }
    p.on_stop(r.chance(1, 2) ? pool::action::complete_tasks : pool::action::join_all);
    int k = (int)r.below(3);
    std::vector<std::thread> cs;
    for (int c = 0; c < k; ++c) cs.emplace_back([&p, c, &r]
    {
        vp::rng q(r.next() + c);
        for (int i = 0, n = 1 + (int)q.below(4); i < n; ++i)
            switch (q.below(6))
            {
            case 0: p.target_workers_size(1 + q.below(4)); break;
            case 1: p.wait_until_no_tasks_waiting(); break;
            case 2: p.wait_until_all_tasks_complete(); break;
            case 3: submit(p, q, fresh(some_prio(q)), true); break;
            case 4: { rec* x = fresh(0); x->inv = ++T; p.run_after(std::chrono::microseconds(q.below(50)), [x] { began(x); ended(x); }); break; }
            default: { bool slow = q.chance(1, 2); submit(p, q, fresh(some_prio(q)), false, [slow] { if (slow) nap(30); }); break; }
            }
    });
    for (int i = 0, n = 1 + (int)r.below(5); i < n; ++i)
    {
        int m = (int)r.below(3);
        for (int j = 0; j < m; ++j) submit(p, r, fresh(some_prio(r)), false, [&r] { if (r.chance(1, 2)) nap(30); });
        std::size_t upto = recs.size();
        if (r.chance(1, 2)) p.target_workers_size(1 + r.below(4));
        if (k == 0 && r.chance(1, 4))
        {
            // every worker leaves, the last ones after finishing their task
            p.wait_until_no_tasks_waiting();
            p.target_workers_size(0);
            p.wait_until_all_tasks_complete();
            for (auto x : recs) if (!x->sched && !x->end) bad("wait_until_all_tasks_complete returns before " + tn(x) + " has completed");
            p.target_workers_size(1 + r.below(3));
            continue;
        }
        if (r.chance(1, 2))
        {
            p.wait_until_no_tasks_waiting();
            if (k == 0) for (std::size_t j = 0; j < upto; ++j) if (!recs[j]->sched && p.waiting_tasks_size()) bad("wait_until_no_tasks_waiting returns with tasks waiting");
        }
        else
        {
            p.wait_until_all_tasks_complete();
            if (k == 0) for (std::size_t j = 0; j < upto; ++j) if (!recs[j]->end) bad("wait_until_all_tasks_complete returns before " + tn(recs[j]) + " has completed");
        }
        unlocked("waiting returns");
    }
    for (auto& c : cs) c.join();
    if (r.chance(1, 2)) p.wait_until_all_tasks_complete();
    b.destroy();
}

// scheduled tasks
static void t05(vp::rng& r)
{
    box b(1);
    boxes.push_back({ b.m, b.n });
    pool& p = *b.p;
    p.on_stop(pool::action::complete_tasks);
    int mode = (int)r.below(4);
    if (mode == 3)
    {
        // an earlier task wakes the scheduler out of a longer sleep
        long long far = (1 + (long long)r.below(3)) * 1000000ll;
        rec* z = fresh(0);
        p.run_after(std::chrono::milliseconds(far), [z] { began(z); ended(z); });
        for (int i = 0, n = 1 + (int)r.below(3); i < n; ++i)
        {
            far /= 2;
            if (r.chance(1, 2)) nap((unsigned)r.below(200));
            rec* x = fresh(0);
            auto at = clk::now() + std::chrono::milliseconds(far / (1 + (long long)r.below(4)));
            x->at = at.time_since_epoch().count();
            if (r.chance(1, 2)) p.run_at(at, [x] { began(x); ended(x); }); else p.run_after(at - clk::now(), [x] { began(x); ended(x); });
        }
        while (!recs.back()->end) nap(5000000);
        for (auto x : recs) if (x != z && x->runs && x->when > x->at + 30000000000ll) bad(tn(x) + ", the earliest, does not wake the scheduler");
        for (auto x : recs) if (x != z && !x->runs && x->at + 30000000000ll < clk::now().time_since_epoch().count()) bad(tn(x) + " is overdue: it did not wake the scheduler");
    }
    else if (mode < 2)
    {
        // one client, one worker; whenever nothing has been moved yet, the order of those present is settled by their times
        bool same = r.chance(3, 4);
        int n = 2 + (int)r.below(5);
        std::vector<std::pair<std::vector<int>, int>> before;   // (ids settled to follow their times)
        for (int i = 0; i < n; ++i)
        {
            rec* q = fresh(same ? 0 : some_prio(r));
            q->sched = true;
            long long us = (long long)r.below(mode ? 8 : 60);
            auto f = [q] { began(q); ended(q); };
            q->inv = ++T;
            if (r.chance(1, 2)) { auto at = clk::now() + std::chrono::microseconds(us - (long long)r.below(10)); q->at = at.time_since_epoch().count(); p.run_at(at, f, (signed char)q->prio); }
            else { auto at = clk::now() + std::chrono::microseconds(us); q->at = at.time_since_epoch().count(); p.run_after(std::chrono::microseconds(us), f, (signed char)q->prio); q->at += 0; auto hi = (clk::now() + std::chrono::microseconds(us)).time_since_epoch().count(); q->when = hi; q->epoch = 1; }
            q->ret = ++T;
            unlocked("scheduling returns");
            int done = 0;
            std::size_t left = p.scheduled_tasks_size();
            for (auto x : recs) if (x->runs) ++done;
            if (same && left == recs.size() - (std::size_t)done && left > 1)
            {
                std::vector<int> ids;
                for (auto x : recs) if (!x->runs) ids.push_back(x->id);
                before.push_back({ ids, (int)T });
            }
            if (r.chance(1, 3)) nap((unsigned)r.below(40));
        }
        spin("all scheduled tasks run", [&] { for (auto x : recs) if (!x->end) return false; return true; });
        for (auto x : recs)
        {
            if (x->runs != 1) bad(tn(x) + " runs " + std::to_string(x->runs) + " times");
            if (x->when < x->at) bad(tn(x) + " runs before its time");
        }
        for (auto& s : before) for (int i : s.first) for (int j : s.first)
        {
            rec *x = recs[i], *y = recs[j];
            // exact times are known for run_at only
            if (x->epoch || y->epoch) continue;
            if (x->at < y->at && x->start > y->start) bad(tn(x) + " was scheduled before " + tn(y) + " was moved, and for an earlier time, but ran after it");
        }
    }
    else
    {
        // concurrent scheduling; priorities of moved tasks
        int k = 1 + (int)r.below(3);
        std::vector<std::thread> cs;
        for (int c = 0; c < k; ++c) cs.emplace_back([&p, c, &r]
        {
            vp::rng q(r.next() + c);
            for (int i = 0, n = 1 + (int)q.below(3); i < n; ++i)
            {
                rec* x = fresh(some_prio(q));
                auto at = clk::now() + std::chrono::microseconds((long long)q.below(40) - 5);
                x->at = at.time_since_epoch().count();
                if (q.chance(1, 2)) p.run_at(at, [x] { began(x); ended(x); }, (signed char)x->prio);
                else p.run_after(at - clk::now(), [x] { began(x); ended(x); }, (signed char)x->prio);
                unlocked("scheduling returns");
                if (q.chance(1, 3)) nap((unsigned)q.below(60));
            }
        });
        for (auto& c : cs) c.join();
        spin("all scheduled tasks run", [&] { for (auto x : recs) if (!x->end) return false; return true; });
        for (auto x : recs) { if (x->runs != 1) bad(tn(x) + " runs " + std::to_string(x->runs) + " times"); if (x->when < x->at) bad(tn(x) + " runs before its time"); }
        // several due while the worker is busy: priority decides
        bool open = false, in = false;
        p.run_async([&] { in = true; while (!open) nap(20); });
        spin("the blocking task starts", [&] { return in; });
        std::size_t first = recs.size(), m = 2 + r.below(4);
        for (std::size_t i = 0; i < m; ++i) { rec* x = fresh(some_prio(r)); x->sched = true; if (r.chance(1, 2)) p.run_at(clk::now(), [x] { began(x); ended(x); }, (signed char)x->prio); else p.run_after(std::chrono::microseconds(r.below(9)), [x] { began(x); ended(x); }, (signed char)x->prio); }
        spin("all scheduled tasks are queued", [&] { return p.waiting_tasks_size() == m; });
        open = true;
        spin("all scheduled tasks run", [&] { for (auto x : recs) if (!x->end) return false; return true; });
        for (std::size_t i = first; i < recs.size(); ++i) for (std::size_t j = first; j < recs.size(); ++j)
            if (recs[i]->prio > recs[j]->prio && recs[i]->start > recs[j]->start) bad("a scheduled task is queued with another priority than the given one");
    }
    b.destroy();
}

// destruction
static void t06(vp::rng& r)
{
    std::size_t W = 1 + r.below(3);
    box b(W);
    boxes.push_back({ b.m, b.n });
    pool& p = *b.p;
    const auto t0 = clk::now();
    auto soon = [&] { if (clk::now() - t0 > std::chrono::minutes(20)) bad("destruction waits for a task scheduled for much later"); };
    bool all = r.chance(1, 2), strict = !all && r.chance(2, 3);
    if (p.on_stop() != pool::action::join_all) bad("the default stop action is not join_all");
    if (r.chance(1, 2)) p.on_stop(pool::action::complete_tasks);
    p.on_stop(all ? pool::action::complete_tasks : pool::action::join_all);
    if (p.on_stop() != (all ? pool::action::complete_tasks : pool::action::join_all)) bad("the stop action is not the one set");
    unlocked("on_stop returns");
    if (r.chance(1, 2)) p.run_after(std::chrono::microseconds(r.chance(1, 2) ? 3600000000ll : (long long)r.below(30)), [] {});
    if (strict)
    {
        // every worker is busy until the destructor waits for it: nothing else may start
        std::size_t in = 0;
        auto main = vs::me;
        for (std::size_t i = 0; i < W; ++i) p.run_async([&in, main, i] { ++in; while (main->st != vs::JOIN) nap(20); nap((unsigned)i * 10); }, (signed char)127);
        spin("all workers are busy", [&] { return in == W; });
        for (int i = 0, n = 1 + (int)r.below(4); i < n; ++i) submit(p, r, fresh(some_prio(r)), false);
        if (r.chance(1, 3)) p.target_workers_size(r.below(W + 1));
        b.destroy();
        soon();
        for (auto x : recs) if (x->runs) bad("with join-all " + tn(x) + " is started after stopping began");
        return;
    }
    int n = (int)r.below(7);
    pool* pp = &p;
    for (int i = 0; i < n; ++i)
    {
        bool nest = r.chance(1, 4), slow = r.chance(1, 2), later = r.chance(1, 6);
        submit(p, r, fresh(some_prio(r)), false, [nest, slow, later, pp] { if (slow) nap(30); if (later) pp->run_after(std::chrono::hours(1), [] {}); if (nest) { rec* x = fresh(0); pp->run_async([x] { began(x); ended(x); }); } });
        if (r.chance(1, 6)) p.target_workers_size(1 + r.below(3));
    }
    if (r.chance(1, 4)) nap((unsigned)r.below(60));
    b.destroy();
    soon();
    for (auto x : recs)
    {
        if (x->runs && !x->end) bad("the destructor returns while " + tn(x) + " is running");
        if (all && !x->runs) bad("with complete-tasks " + tn(x) + " is dropped");
    }
}

int main(int argc, char** argv)
{
    vp::install();
    std::string id = argc > 1 ? argv[1] : "T02";
    vp::rng seeds(vp::envu("VP_SEED", 1));
    std::uint64_t only = argc > 2 ? strtoull(argv[2], nullptr, 10) : 0;
    do
    {
        std::uint64_t s = only ? only : seeds.next() % 1000000000ull;
        std::string which = id;
        vp::at("pool " + id + " schedule seed " + std::to_string(s), 120);
        vs::run(s, [&]
        {
            vp::rng r(s * 7 + 3);
            if (id == "T01") switch (r.below(5)) { case 0: t02(r); break; case 1: t03(r); break; case 2: t04(r); break; case 3: t05(r); break; default: t06(r); }
            else if (id == "T02") t02(r);
            else if (id == "T03") t03(r);
            else if (id == "T04") t04(r);
            else if (id == "T05") t05(r);
            else t06(r);
        }, id.c_str());
        unmap();
        clear();
    } while (!only && vp::more());
    return vp::done();
}
#else
// real threads: ThreadSanitizer reports any unlocked access
int main(int, char**)
{
    vp::install();
    vp::rng seeds(vp::envu("VP_SEED", 1));
    do
    {
        std::uint64_t s = seeds.next() % 1000000000ull;
        vp::at("pool races seed " + std::to_string(s), 60);
        vp::rng r(s);
        std::atomic<int> n{ 0 };
        {
            std::unique_ptr<pool> p(new pool(1 + r.below(4)));
            std::vector<std::thread> cs;
            for (int c = 0; c < 3; ++c) cs.emplace_back([&, c]
            {
                vp::rng q(s * 3 + (unsigned)c);
                for (int i = 0; i < 12; ++i) switch (q.below(12))
                {
                case 0: p->target_workers_size(1 + q.below(4)); break;
                case 1: p->on_stop(q.chance(1, 2) ? pool::action::complete_tasks : pool::action::join_all); break;
                case 2: (void)p->on_stop(); (void)p->workers_size(); (void)p->target_workers_size(); break;
                case 3: (void)p->active_workers_size(); (void)p->waiting_workers_size(); (void)p->tasks_size(); (void)p->active_tasks_size(); break;
                case 4: (void)p->waiting_tasks_size(); (void)p->scheduled_tasks_size(); break;
                case 5: p->run_sync([&] { ++n; }); break;
                case 6: p->run_after(std::chrono::microseconds(q.below(300)), [&] { ++n; }); break;
                case 7: p->run_at(clk::now() + std::chrono::microseconds(q.below(300)), [&] { ++n; }); break;
                case 8: p->wait_until_no_tasks_waiting(); break;
                case 9: p->wait_until_all_tasks_complete(); break;
                default: p->run_async([&] { ++n; }, (signed char)q.in(-128, 127)); break;
                }
            });
            for (auto& c : cs) c.join();
        }
    } while (vp::more());
    return vp::done();
}
#endif
