#ifdef VP_SCHED
#include "sched.hpp"
#define HOOK() vs::point()
#else
#include "vp.hpp"
#define HOOK() ((void)0)
#endif
#include <pluto/lru_cache.hpp>
#include <pluto/safe_lru_cache.hpp>
#include <algorithm>
#include <deque>
#include <memory>
#include <optional>
#include <thread>
using namespace vp;

static thread_local int g_throw = 0;
struct K
{
    int v; int* p;
    K(int x) : v(x), p(new int(x)) {}
    K(const K& o) : v(o.v), p(new int(*o.p)) { HOOK(); }
    K& operator=(const K& o) { v = o.v; *p = *o.p; return *this; }
    ~K() { *p = -777; delete p; v = -777; }
    bool operator<(const K& o) const { HOOK(); return *p < *o.p; }
    bool operator==(const K& o) const { return *p == *o.p; }
#ifdef VP_PLAIN
    K() : K(0) {}
    bool operator!=(const K& o) const { return *p != *o.p; }
    bool operator>(const K& o) const { return *p > *o.p; }
    bool operator<=(const K& o) const { return *p <= *o.p; }
    bool operator>=(const K& o) const { return *p >= *o.p; }
#endif
};
struct Val
{
    int v; int* p;
    Val(int x) : v(x), p(new int(x)) {}
    Val(const Val& o) : v(o.v), p(new int(*o.p)) { HOOK(); if (g_throw && --g_throw == 0) { delete p; throw 1; } }
    Val& operator=(const Val& o) { HOOK(); v = o.v; *p = *o.p; HOOK(); return *this; }
    ~Val() { *p = -777; delete p; }
#ifdef VP_PLAIN
    Val() : Val(0) {}
    bool operator==(const Val& o) const { return *p == *o.p; }
    bool operator!=(const Val& o) const { return *p != *o.p; }
    bool operator<(const Val& o) const { return *p < *o.p; }
#endif
};

struct model
{
    std::size_t cap;
    std::vector<std::pair<int, int>> e;   // most recently used first
    int at(int k) const { for (std::size_t i = 0; i < e.size(); ++i) if (e[i].first == k) return (int)i; return -1; }
    void front(int i) { auto x = e[i]; e.erase(e.begin() + i); e.insert(e.begin(), x); }
    bool insert(int k, int v, bool assign)
    {
        int i = at(k);
        if (i >= 0) { if (assign) { e[i].second = v; front(i); } return false; }
        if (cap == 0) return true;
        if (e.size() >= cap) e.pop_back();
        e.insert(e.begin(), { k, v });
        return true;
    }
    bool get(int k, int& v) { int i = at(k); if (i < 0) return false; v = e[i].second; front(i); return true; }
    bool remove(int k) { int i = at(k); if (i < 0) return false; e.erase(e.begin() + i); return true; }
    void capacity(std::size_t n) { cap = n; while (e.size() > cap) e.pop_back(); }
};

struct op { int kind, k, v; };
static const char* OPN[] = { "insert", "insert_or_assign", "get", "remove", "clear", "capacity", "contains", "size", "empty", "capacity()" };
std::string show(const op& o) { return std::string(OPN[o.kind]) + "(" + std::to_string(o.k) + (o.kind < 2 ? "," + std::to_string(o.v) : "") + ")"; }
struct res { long r; int v; bool operator==(const res& o) const { return r == o.r && v == o.v; } };

template<class C> res apply(C& c, const op& o)
{
    switch (o.kind)
    {
    case 0: return { c.insert(o.k, o.v), 0 };
    case 1: return { c.insert_or_assign(o.k, o.v), 0 };
    case 2: { Val v(-5); bool b = c.get(o.k, v); return { b, *v.p }; }
    case 3: return { c.remove(o.k), 0 };
    case 4: c.clear(); return { 0, 0 };
    case 5: c.capacity((std::size_t)o.k); return { 0, 0 };
    case 6: return { c.contains(o.k), 0 };
    case 7: return { (long)c.size(), 0 };
    case 8: return { c.empty(), 0 };
    default: return { (long)c.capacity(), 0 };
    }
}
res expect(model& m, const op& o)
{
    switch (o.kind)
    {
    case 0: return { m.insert(o.k, o.v, false), 0 };
    case 1: return { m.insert(o.k, o.v, true), 0 };
    case 2: { int v = -5; bool b = m.get(o.k, v); return { b, v }; }
    case 3: return { m.remove(o.k), 0 };
    case 4: m.e.clear(); return { 0, 0 };
    case 5: m.capacity((std::size_t)o.k); return { 0, 0 };
    case 6: return { m.at(o.k) >= 0, 0 };
    case 7: return { (long)m.e.size(), 0 };
    case 8: return { m.e.empty(), 0 };
    default: return { (long)m.cap, 0 };
    }
}
op random_op(int universe, int maxcap, bool fill)
{
    auto& r = R();
    op o{};
    static const int w[] = { 30, 18, 22, 8, 1, 4, 6, 3, 2, 2 };
    int x = (int)r.below(fill ? 60 : 96);
    for (o.kind = 0; x >= w[o.kind]; ++o.kind) x -= w[o.kind];
    o.k = o.kind == 5 ? (int)r.below(maxcap + 1) : (int)r.below(universe);
    o.v = (int)r.below(1000);
    return o;
}
template<class C> void compare(C& c, model& m, int universe, bool deep)
{
    check(c.size() == m.e.size(), "size() is " + std::to_string(c.size()) + ", expected " + std::to_string(m.e.size()));
    check(c.empty() == m.e.empty(), "empty()");
    check(c.capacity() == m.cap, "capacity()");
    check(c.size() <= m.cap, "size exceeds capacity");
    for (int n = 0; n < (universe < 40 || deep ? universe : 12); ++n)
    {
        int k = universe < 40 || deep ? n : (int)R().below(universe);
        check(c.contains(k) == (m.at(k) >= 0), "contains(" + std::to_string(k) + ")");
    }
}
// empties the cache through its public operations and compares the recency order and the values on the way
template<class C> void drain(C& c, model m, int universe)
{
    if (R().chance(1, 2))
    {
        // order by lowering the capacity step by step
        while (!m.e.empty())
        {
            int lru = m.e.back().first;
            m.capacity(m.e.size() - 1);
            c.capacity(m.e.size());
            check(!c.contains(lru), "lowering the capacity did not evict the least recently used key " + std::to_string(lru));
            compare(c, m, universe, false);
        }
        return;
    }
    // values and order through gets, then by inserting fresh keys
    auto e = m.e;
    for (std::size_t i = e.size(); i-- > 0;)
    {
        Val v(-5);
        check(c.get(e[i].first, v) && *v.p == e[i].second, "stored value of key " + std::to_string(e[i].first));
    }
    m.capacity(m.e.size());
    c.capacity(m.e.size());
    for (int i = 0; !m.e.empty() && i < (int)e.size(); ++i)
    {
        op o{ 0, 100000 + i, i };
        apply(c, o); expect(m, o);
        compare(c, m, universe, false);
    }
}
std::size_t pick_cap() { auto& r = R(); return r.chance(1, 12) ? some_size(20, 1500) : r.below(7); }

void c01()
{
    do
    {
        std::size_t cap = pick_cap();
        int universe = cap > 20 ? (int)cap + 1 + (int)R().below(cap / 4 + 2) : 1 + (int)R().below(9);
        int n = cap > 20 ? (int)(cap * 3) : 2 + (int)R().below(60);
        pluto::lru_cache<K, Val> c(cap);
        model m{ cap, {} };
        std::string d = "lru_cache(" + std::to_string(cap) + ")";
        at(d);
        compare(c, m, universe, true);
        for (int i = 0; i < n; ++i)
        {
            op o = random_op(universe, (int)cap + (R().chance(1, 4) ? 4 : 0), cap > 20 && i < (int)cap * 2);
            if (d.size() < 3000) d += " " + show(o); 
            at(d);
            res a = apply(c, o), b = expect(m, o);
            check(a == b, "result of " + show(o) + " is " + std::to_string(a.r) + "/" + std::to_string(a.v) + ", expected " + std::to_string(b.r) + "/" + std::to_string(b.v));
            compare(c, m, universe, false);
        }
        drain(c, m, universe);
    } while (more());
}
void c03()
{
    do
    {
        std::size_t cap = pick_cap();
        if (cap > 300) cap = 300;
        int universe = cap > 20 ? (int)cap + 5 : 1 + (int)R().below(9);
        typedef pluto::lru_cache<K, Val> C;
        std::vector<std::unique_ptr<C>> cs; std::vector<model> ms;
        cs.emplace_back(new C(cap)); ms.push_back({ cap, {} });
        std::string d = "0:lru_cache(" + std::to_string(cap) + ")";
        int n = cap > 20 ? (int)cap * 2 : 4 + (int)R().below(60);
        for (int i = 0; i < n; ++i)
        {
            std::size_t x = R().below(cs.size());
            int what = (int)R().below(14);
            if (what == 0 && cs.size() < 4) { d += " copy " + std::to_string(x); at(d); cs.emplace_back(new C(*cs[x])); auto m = ms[x]; ms.push_back(m); }
            else if (what == 1 && cs.size() > 1) { std::size_t y = R().below(cs.size()); d += " " + std::to_string(y) + "=" + std::to_string(x); at(d); *cs[y] = *cs[x]; auto m = ms[x]; ms[y] = m; }
            else if (what == 2 && cs.size() > 1 && R().chance(1, 2)) { d += " destroy " + std::to_string(x); at(d); cs.erase(cs.begin() + x); ms.erase(ms.begin() + x); }
            else if (what == 3 && cs.size() > 1 && R().chance(1, 2)) { d += " move " + std::to_string(x); at(d); std::unique_ptr<C> nc(new C(std::move(*cs[x]))); cs[x] = std::move(nc); }
            else
            {
                op o = random_op(universe, (int)cap + 2, false);
                d += " " + std::to_string(x) + ":" + show(o); at(d);
                res a = apply(*cs[x], o), b = expect(ms[x], o);
                check(a == b, "result of " + std::to_string(x) + ":" + show(o));
            }
            if (d.size() > 3000) d = "...";
            for (std::size_t j = 0; j < cs.size(); ++j) compare(*cs[j], ms[j], universe, false);
        }
        while (!cs.empty()) { std::size_t x = R().below(cs.size()); d += " drain " + std::to_string(x); at(d); drain(*cs[x], ms[x], universe); for (std::size_t j = 0; j < cs.size(); ++j) if (j != x) compare(*cs[j], ms[j], universe, false); cs.erase(cs.begin() + x); ms.erase(ms.begin() + x); }
    } while (more());
}
struct rec { op o; res r; long inv, ret; };
// is there an order of the operations, compatible with real time, that the model accepts and that ends in this state?
bool linear(std::vector<rec>& h, std::vector<bool>& used, std::size_t left, const model& m, const std::vector<std::pair<int, int>>& fin)
{
    if (!left) return m.e == fin;
    long minret = 1l << 60;
    for (std::size_t i = 0; i < h.size(); ++i) if (!used[i]) minret = std::min(minret, h[i].ret);
    for (std::size_t i = 0; i < h.size(); ++i)
        if (!used[i] && h[i].inv <= minret)
        {
            model n = m;
            if (!(expect(n, h[i].o) == h[i].r)) continue;
            used[i] = true;
            if (linear(h, used, left - 1, n, fin)) return true;
            used[i] = false;
        }
    return false;
}
#ifdef VP_SCHED
void c02()
{
    std::uint64_t seed = envu("VP_SEED", 1) * 1000003;
    do
    {
        ++seed;
        std::size_t cap = R().below(4);
        int universe = 1 + (int)R().below(5), nt = 2 + (int)R().below(2), per = nt == 2 ? 3 : 2, pre = (int)R().below(5);
        std::vector<op> warm; for (int i = 0; i < pre; ++i) warm.push_back({ (int)R().below(2), (int)R().below(universe), (int)R().below(100) });
        std::vector<std::vector<op>> prog(nt);
        for (auto& p : prog) for (int i = 0; i < per; ++i) { op o = random_op(universe, 4, false); if (R().chance(1, 4)) o.kind = 6 + (int)R().below(4); p.push_back(o); }
        std::string d = "safe_lru_cache(" + std::to_string(cap) + ") warm:";
        for (auto& o : warm) d += " " + show(o);
        for (auto& p : prog) { d += " | thread:"; for (auto& o : p) d += " " + show(o); }
        at(d);
        bool thrower = R().chance(1, 10);
        vs::run(seed, [&] {
            pluto::safe_lru_cache<K, Val> c(cap);
            model m{ cap, {} };
            for (auto& o : warm) { apply(c, o); expect(m, o); }
            if (thrower)
            {
                // an exception thrown by a user's copy must not leave the cache locked
                g_throw = 1;
                try { c.insert(77, 1); } catch (int) {}
                g_throw = 0;
                std::thread t([&] { check(c.capacity() == cap, "capacity after an exception"); });
                t.join();
                return;
            }
            long clk = 0;
            std::vector<rec> h;
            std::vector<std::thread> ts;
            for (auto& p : prog)
                ts.emplace_back([&] { for (auto& o : p) { vs::point(); rec r{ o, {}, clk++, 0 }; r.r = apply(c, o); r.ret = clk++; h.push_back(r); check(!vs::holds_any(), show(o) + " returned with a lock held"); } });
            for (auto& t : ts) t.join();
            // observe the final state
            std::vector<std::pair<int, int>> fin;
            std::size_t cc = c.capacity();
            std::vector<int> keys;
            for (int k = 0; k < universe; ++k) if (c.contains(k)) keys.push_back(k);
            check(keys.size() == c.size(), "size differs from the number of keys contained");
            // the recency order: by lowering the capacity; then the values were lost, so compare keys only
            std::vector<int> order;
            while (c.size()) { std::size_t n = c.size(); c.capacity(n - 1); check(c.size() == n - 1, "lowering the capacity"); for (auto k : keys) if (!c.contains(k) && std::find(order.begin(), order.end(), k) == order.end()) order.push_back(k); }
            std::reverse(order.begin(), order.end());
            // values are compared through the results of get; fill in whatever the model has
            std::vector<bool> used(h.size());
            std::function<bool(std::size_t, const model&)> lin = [&](std::size_t left, const model& mm) -> bool {
                if (!left) { if (mm.cap != cc || mm.e.size() != order.size()) return false; for (std::size_t i = 0; i < order.size(); ++i) if (mm.e[i].first != order[i]) return false; return true; }
                long minret = 1l << 60;
                for (std::size_t i = 0; i < h.size(); ++i) if (!used[i]) minret = std::min(minret, h[i].ret);
                for (std::size_t i = 0; i < h.size(); ++i)
                    if (!used[i] && h[i].inv <= minret)
                    {
                        model n = mm;
                        if (!(expect(n, h[i].o) == h[i].r)) continue;
                        used[i] = true;
                        if (lin(left - 1, n)) return true;
                        used[i] = false;
                    }
                return false;
            };
            if (!lin(h.size(), m))
            {
                std::string o;
                for (auto& x : h) o += " " + show(x.o) + "->" + std::to_string(x.r.r) + "/" + std::to_string(x.r.v) + "@" + std::to_string(x.inv) + "-" + std::to_string(x.ret);
                o += " final:"; for (auto k : order) o += " " + std::to_string(k);
                fail("no sequential order of the operations explains the results:" + o + "; schedule seed " + std::to_string(seed));
            }
        });
    } while (more());
}
#else
void c02race()
{
    // plain threads under ThreadSanitizer
    do
    {
        at("all operations from three threads");
        pluto::safe_lru_cache<int, int> c(1 + R().below(4));
        std::vector<std::thread> ts;
        std::uint64_t s = R().next();
        for (int t = 0; t < 3; ++t)
            ts.emplace_back([&, t] {
                rng r(s + t);
                for (int i = 0; i < 300; ++i)
                {
                    int v = 0, k = (int)r.below(6);
                    switch (r.below(10)) {
                    case 0: c.insert(k, i); break; case 1: c.insert_or_assign(k, i); break; case 2: c.get(k, v); break; case 3: c.remove(k); break;
                    case 4: if (r.chance(1, 5)) c.clear(); break; case 5: c.capacity(r.below(5)); break; case 6: (void)c.contains(k); break; case 7: (void)c.size(); break;
                    case 8: (void)c.empty(); break; default: (void)c.capacity(); }
                }
            });
        for (auto& t : ts) t.join();
    } while (more());
}
#endif
int main(int argc, char** argv)
{
    install();
    std::string m = argc > 1 ? argv[1] : "";
    if (m == "C01") c01();
    else if (m == "C03") c03();
#ifdef VP_SCHED
    else c02();
#else
    else c02race();
#endif
    return done();
}
