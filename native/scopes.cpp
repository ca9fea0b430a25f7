#include <chrono>
#include <exception>
#include <memory>
namespace pv
{
    inline long long& tick() { static long long t = 0; return t; }
    inline long long& step() { static long long t = 0; return t; }
    template<class D> struct clk
    {
        typedef D duration; typedef typename D::rep rep; typedef typename D::period period; typedef std::chrono::time_point<clk> time_point;
        static constexpr bool is_steady = true;
        static time_point now() { tick() += step(); return time_point(D((rep)tick())); }
    };
}
#ifndef PV_UNIT
#define PV_UNIT std::chrono::nanoseconds
#endif
#define PLUTO_STOPWATCH_CLOCK_TYPE pv::clk<PV_UNIT>
#include <pluto/scope.hpp>
#include <pluto/stopwatch.hpp>
#include "vp.hpp"
using namespace vp;

// ---- K01: kind 0 empty task, 1 runs, 2 runs and throws an exception object, 3 runs and throws an int, 4 runs and has a guard of its own
struct boom {};
typedef std::vector<int> trace;
template<class G> void fill(G& g, const std::vector<int>& kinds, trace& t, std::size_t from)
{
    for (std::size_t i = from; i < kinds.size(); ++i)
    {
        int k = kinds[i];
        if (k == 0) { g.add({}); continue; }
        g.add([i, k, &t] {
            t.push_back((int)i);
            if (k == 2) throw std::runtime_error("task");
            if (k == 3) throw 7;
            if (k == 4) { pluto::on_scope_exit e([&t] { t.push_back(-1); throw 8; }); }
            if (k == 5) { try { pluto::on_scope_fail f([&t] { t.push_back(-2); }); pluto::on_scope_success s([&t] { t.push_back(-3); }); throw 9; } catch (int) {} }
        });
    }
}
template<class G> std::function<void()> task0(const std::vector<int>& k, trace& t) 
{
    trace tmp; std::function<void()> out;
    struct catcher { std::function<void()>& o; void add(const std::function<void()>& f) { o = f; } } c{ out };
    fill(c, { k[0] }, t, 0);
    return out;
}
// runs the guard inside a destructor, i.e. possibly while an exception is in flight
template<class G> struct late
{
    const std::vector<int>& k; trace& t; bool ctor, inner;
    ~late() noexcept(false)
    {
        if (inner)
        {
            try { body(); } catch (const boom&) {}
        }
        else body();
    }
    void body()
    {
        if (ctor && !k.empty()) { G g(task0<G>(k, t)); fill(g, k, t, 1); if (inner) throw boom(); }
        else { G g; fill(g, k, t, 0); if (inner) throw boom(); }
    }
};
template<class G> void k01(int which)
{
    std::vector<int> k;
    std::size_t n = some_size(6, 40);
    for (std::size_t i = 0; i < n; ++i) k.push_back(R().chance(1, 2) ? 1 : (int)R().below(6));
    bool outer = R().chance(1, 2), ctor = R().chance(1, 2), inner = R().chance(1, 3);
    std::string d = std::string(which == 0 ? "on_scope_exit" : which == 1 ? "on_scope_success" : "on_scope_fail") + " tasks(0 empty,1 plain,2-3 throwing,4-5 nested guards)=";
    for (int x : k) d += (char)('0' + x);
    d += outer ? " while an exception is in flight" : "";
    d += inner ? " scope left by an exception" : " scope left normally";
    d += ctor ? " first task given to the constructor" : "";
    at(d);
    bool flight = outer || inner;
    bool run = which == 0 || (which == 1 ? !flight : flight);
    trace want, got;
    if (run) for (std::size_t i = k.size(); i-- > 0;)
    {
        if (k[i] == 0) continue;
        want.push_back((int)i);
        if (k[i] == 4) want.push_back(-1);
        if (k[i] == 5) want.push_back(-2);
    }
    try
    {
        late<G> l{ k, got, ctor, inner };
        if (outer) throw 5;
    }
    catch (int v) { check(v == 5 && outer, "an exception escaped from a guard"); }
    catch (...) { fail("an exception escaped from a guard"); }
    std::string a, b;
    for (int x : want) a += std::to_string(x) + " ";
    for (int x : got) b += std::to_string(x) + " ";
    check(got == want, "tasks run: " + b + "expected: " + a);
}

// a guard that can be copied, moved or assigned still runs each task once
template<class G, class F> void once(int which, const char* how, F f)
{
    at(std::string(which == 0 ? "on_scope_exit" : which == 1 ? "on_scope_success" : "on_scope_fail") + " that is " + how);
    trace t;
    try { G a; a.add([&t] { t.push_back(1); }); f(a, t); if (which == 2) throw 1; } catch (int) {}
    int n[3] = { 0, 0, 0 }; for (int x : t) ++n[x];
    check(n[1] == 1, "a task runs " + std::to_string(n[1]) + " times"); check(n[2] <= 1 , "a task runs twice");
}
template<class G> void dup_cc(int w, std::true_type) { once<G>(w, "copied", [w](G& a, trace&) { try { G b(a); if (w == 2) throw 1; } catch (int) {} }); }
template<class G> void dup_cc(int, std::false_type) {}
template<class G> void dup_mc(int w, std::true_type) { once<G>(w, "moved", [w](G& a, trace&) { try { G b(std::move(a)); if (w == 2) throw 1; } catch (int) {} }); }
template<class G> void dup_mc(int, std::false_type) {}
template<class G> void dup_ca(int w, std::true_type) { once<G>(w, "assigned", [w](G& a, trace&) { try { G b; b = a; if (w == 2) throw 1; } catch (int) {} }); once<G>(w, "assigned to", [w](G& a, trace&) { try { G b; a = b; if (w == 2) throw 1; } catch (int) {} }); }
template<class G> void dup_ca(int, std::false_type) {}
template<class G> void dup_ma(int w, std::true_type) { once<G>(w, "move-assigned", [w](G& a, trace&) { try { G b; b = std::move(a); if (w == 2) throw 1; } catch (int) {} }); once<G>(w, "move-assigned to", [w](G& a, trace&) { try { G b; a = std::move(b); if (w == 2) throw 1; } catch (int) {} }); }
template<class G> void dup_ma(int, std::false_type) {}
template<class G> void dups(int w)
{
    dup_cc<G>(w, std::is_copy_constructible<G>()); dup_mc<G>(w, std::is_move_constructible<G>());
    dup_ca<G>(w, std::is_copy_assignable<G>()); dup_ma<G>(w, std::is_move_assignable<G>());
}

// ---- W01
typedef PV_UNIT U;
void w01()
{
    pv::tick() = (long long)R().below(1000000); 
    bool now = R().chance(1, 2);
    pv::step() = 0;
    std::string d = now ? "watch(true)" : "watch()";
    pluto::stopwatch w(now);
    long long total = 0, since = pv::tick(); bool run = now;
    std::size_t n = 1 + some_size(8, 60);
    auto pass = [&] {
        long long k;
        switch (R().below(6)) {
        case 0: k = 0; break; case 1: k = (long long)R().below(2000); break; case 2: k = (long long)R().below(2000000000ull); break;
        case 3: k = (long long)R().below(100000000000000ull); break;
        default: k = (long long)(consts()[R().below(consts().size())] % 1000000000000000ull) + R().in(-1, 1); if (k < 0) k = 0; break; }
        pv::tick() += k; d += " +" + std::to_string(k);
    };
    for (std::size_t i = 0; i < n; ++i)
    {
        pass();
        bool q = false;
        switch (R().below(7))
        {
        case 0: d += " start"; at(d); w.start(); if (!run) { run = true; since = pv::tick(); } break;
        case 1: d += " stop"; at(d); w.stop(); if (run) { total += pv::tick() - since; run = false; } break;
        case 2: if (!R().chance(1, 4)) break; d += " reset"; at(d); w.reset(); total = 0; run = false; break;
        case 3: if (!R().chance(1, 4)) break; d += " restart"; at(d); w.restart(); total = 0; run = true; since = pv::tick(); break;
        case 4: { d += " stop_and_time"; at(d); if (run) { total += pv::tick() - since; run = false; }
            auto v = w.stop_and_time(); check(v == U(total), "stop_and_time is " + std::to_string(v.count()) + " expected " + std::to_string(total)); break; }
        default: q = true;
        }
        if (!q && R().chance(1, 2)) continue;
        if (R().chance(1, 2)) pass();
        d += " time"; at(d);
        long long t = total + (run ? pv::tick() - since : 0);
        check(w.is_running() == run, "is_running");
        check(w.time() == U(t), "time is " + std::to_string(w.time().count()) + " expected " + std::to_string(t));
        using namespace std::chrono;
        long long ns = duration_cast<nanoseconds>(U(1)).count();
        __int128 N = (__int128)t * ns;
        auto in = [&](long long got, long long unit, const char* nm) { check(got == (long long)(N / unit), std::string("in_") + nm + " is " + std::to_string(got)); };
        in(w.in_nanoseconds(), 1, "nanoseconds"); in(w.in_microseconds(), 1000, "microseconds"); in(w.in_milliseconds(), 1000000, "milliseconds");
        in(w.in_seconds(), 1000000000LL, "seconds"); in(w.in_minutes(), 60000000000LL, "minutes"); in(w.in_hours(), 3600000000000LL, "hours");
        in(w.count<seconds>(), 1000000000LL, "count<seconds>"); in(w.count<milliseconds>(), 1000000, "count<milliseconds>");
        long long k = 1 + (long long)R().below(100000);
        check(w.count<milliseconds>(k) == (long long)(N / 1000000) % k, "count<milliseconds>(rollover " + std::to_string(k) + ")");
        auto part = [&](long long got, long long unit, long long m, const char* nm) { check(got == (long long)(N / unit) % m, std::string(nm) + "_part is " + std::to_string(got)); };
        part(w.nanoseconds_part(), 1, 1000, "nanoseconds"); part(w.microseconds_part(), 1000, 1000, "microseconds"); part(w.milliseconds_part(), 1000000, 1000, "milliseconds");
        part(w.seconds_part(), 1000000000LL, 60, "seconds"); part(w.minutes_part(), 60000000000LL, 60, "minutes");
        check(w.hours_part() == (long long)(N / 3600000000000LL), "hours_part is " + std::to_string(w.hours_part()));
    }
    // a clock that advances with every reading: exactly the running time, for one reading of the call
    pv::step() = 1 + (long long)R().below(50);
    at(d + " (advancing clock) restart");
    long long a = pv::tick(); w.restart(); long long b = pv::tick();
    auto t1 = w.time(); long long c = pv::tick();
    check(t1 >= U(0) && t1 <= U(c - a) && t1 > U(0) && b > a, "time on an advancing clock");
    auto t2 = w.stop_and_time();
    check(t2 > t1 && t2 <= U(pv::tick() - a) && !w.is_running() && w.time() == t2, "stop_and_time on an advancing clock");
}
int main(int argc, char** argv)
{
    install();
    std::string id = argc > 1 ? argv[1] : "K01";
    if (id == "K01") { dups<pluto::on_scope_exit>(0); dups<pluto::on_scope_success>(1); dups<pluto::on_scope_fail>(2); }
    for (std::uint64_t i = 0; more(); ++i)
    {
        if (id == "K01") { switch (i % 3) { case 0: k01<pluto::on_scope_exit>(0); break; case 1: k01<pluto::on_scope_success>(1); break; default: k01<pluto::on_scope_fail>(2); } }
        else w01();
    }
    return done();
}
