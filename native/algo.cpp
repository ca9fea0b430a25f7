// Bounded native pass for iterator.hpp / container.hpp (A01-A05).
#include <pluto/container.hpp>
#include <pluto/string.hpp>
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <iterator>
#include "vp.hpp"
using namespace vp;

// an iterator that refuses every access and move outside its range
template<class T, class Cat> struct G
{
    typedef Cat iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
    const T *p = nullptr, *b = nullptr, *e = nullptr;
    reference operator*() const { if (!(b <= p && p < e)) fail("element outside the range accessed"); return *p; }
    pointer operator->() const { return &**this; }
    G& operator++() { if (!(p < e)) fail("iterator moved past the end"); ++p; return *this; }
    G operator++(int) { G t = *this; ++*this; return t; }
    G& operator--() { if (!(b < p)) fail("iterator moved before the begin"); --p; return *this; }
    G operator--(int) { G t = *this; --*this; return t; }
    G& operator+=(std::ptrdiff_t n) { if (p - b + n < 0 || e - p < n) fail("iterator moved outside the range"); p += n; return *this; }
    G& operator-=(std::ptrdiff_t n) { return *this += -n; }
    G operator+(std::ptrdiff_t n) const { G t = *this; return t += n; }
    friend G operator+(std::ptrdiff_t n, const G& g) { return g + n; }
    G operator-(std::ptrdiff_t n) const { G t = *this; return t -= n; }
    std::ptrdiff_t operator-(const G& o) const { return p - o.p; }
    reference operator[](std::ptrdiff_t n) const { return *(*this + n); }
    bool operator==(const G& o) const { return p == o.p; }
    bool operator!=(const G& o) const { return p != o.p; }
    bool operator<(const G& o) const { return p < o.p; }
    bool operator>(const G& o) const { return p > o.p; }
    bool operator<=(const G& o) const { return p <= o.p; }
    bool operator>=(const G& o) const { return p >= o.p; }
};
typedef std::forward_iterator_tag F; typedef std::bidirectional_iterator_tag B; typedef std::random_access_iterator_tag RA;
template<class T, class Cat> struct Rng
{
    std::vector<T> v; typedef G<T, Cat> const_iterator; typedef const_iterator iterator; typedef T value_type;
    const_iterator at_(std::size_t i) const { G<T, Cat> g; g.b = v.data(); g.e = v.data() + v.size(); g.p = g.b + i; return g; }
    const_iterator begin() const { return at_(0); }
    const_iterator end() const { return at_(v.size()); }
    std::size_t size() const { return v.size(); }
};
template<class T, class Cat> struct iter_name;
static std::string shv(const std::vector<int>& v) { std::string s = "["; for (std::size_t i = 0; i < v.size(); ++i) { if (i > 40) { s += "...(" + std::to_string(v.size()) + ")"; break; } s += (i ? "," : "") + std::to_string(v[i]); } return s + "]"; }

static int mode;         // which relation the predicate uses
static int okside;       // set when a right element is passed on the left
struct LE { int v; LE(int x = 0) : v(x) {} bool operator==(const LE& o) const { return v == o.v; } };
// left elements are < 1000, right elements are >= 1000: the predicate can tell them apart
static bool rel(int l, int r) { switch (mode % 4) { case 0: return l == r; case 1: return l <= r; case 2: return (l + 2 * r) % 3 != 0; default: return l < r; } }
struct Pr { bool operator()(int a, int b) const { if (!(a < 1000 && b >= 1000)) fail("predicate not called with (left element, right element): called with (" + std::to_string(a) + "," + std::to_string(b) + "), right elements are >= 1000"); return rel(a, b - 1000); } };
static std::vector<int> vec(std::size_t n, int k, int off = 0) { std::vector<int> v; while (v.size() < n) v.push_back((int)R().below(k) + off); return v; }

static bool w_eq(const std::vector<int>& a, const std::vector<int>& b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!rel(a[i], b[i] - 1000)) return false; return true; }
static bool w_sw(const std::vector<int>& a, const std::vector<int>& b) { return b.size() <= a.size() && w_eq({ a.begin(), a.begin() + b.size() }, b); }
static bool w_ew(const std::vector<int>& a, const std::vector<int>& b) { return b.size() <= a.size() && w_eq({ a.end() - b.size(), a.end() }, b); }

template<class CL, class CR> void a01(const CL& l, const CR& r, const std::vector<int>& a, const std::vector<int>& b, const char* k)
{
    at(std::string(k) + " left " + shv(a) + " right " + shv(b) + " relation " + std::to_string(mode % 4));
    using std::begin; using std::end;
    check(pluto::equals(begin(l), end(l), begin(r), end(r), Pr{}) == w_eq(a, b), "equals(iterators)");
    check(pluto::equals(l, r, Pr{}) == w_eq(a, b), "equals(containers)");
    check(pluto::starts_with(begin(l), end(l), begin(r), end(r), Pr{}) == w_sw(a, b), "starts_with(iterators)");
    check(pluto::starts_with(l, r, Pr{}) == w_sw(a, b), "starts_with(containers)");
    if (a.size() == b.size()) check(pluto::equals_same_size(begin(l), end(l), begin(r), Pr{}) == w_eq(a, b), "equals_same_size");
}
template<class CL, class CR> void a01e(const CL& l, const CR& r, const std::vector<int>& a, const std::vector<int>& b)
{
    using std::begin; using std::end;
    check(pluto::ends_with(begin(l), end(l), begin(r), end(r), Pr{}) == w_ew(a, b), "ends_with(iterators)");
    check(pluto::ends_with(l, r, Pr{}) == w_ew(a, b), "ends_with(containers)");
}
template<class C> C mk(const std::vector<int>& v) { return C(v.begin(), v.end()); }
template<> Rng<int, F> mk<Rng<int, F>>(const std::vector<int>& v) { return { v }; }
template<> Rng<int, B> mk<Rng<int, B>>(const std::vector<int>& v) { return { v }; }
template<> Rng<int, RA> mk<Rng<int, RA>>(const std::vector<int>& v) { return { v }; }

static void A01()
{
    mode = (int)R().below(4);
    std::vector<int> a = vec(some_size(6, 300), 3), b = vec(some_size(5, 300), 3, 1000);
    if (R().chance(1, 2)) { // near misses: b from a's prefix, suffix or whole
        std::size_t n = R().below(a.size() + 1), o = R().chance(1, 2) ? 0 : a.size() - n;
        if (R().chance(1, 4)) { n = a.size(); o = 0; }
        b.assign(a.begin() + o, a.begin() + o + n);
        for (auto& x : b) x += 1000;
        if (!b.empty() && R().chance(1, 2)) b[R().chance(1, 2) ? R().below(b.size()) : (R().chance(1, 2) ? 0 : b.size() - 1)] = 1000 + (int)R().below(3);
        if (R().chance(1, 4)) b.push_back(1000 + (int)R().below(3));
        if (R().chance(1, 6)) b.insert(b.begin(), 1000 + (int)R().below(3));
        if (R().chance(1, 2)) mode = 0;
    }
    typedef std::list<int> Li; typedef std::forward_list<int> Fl; typedef std::deque<int> De;
    Rng<int, F> lf{ a }, rf{ b }; Rng<int, B> lb{ a }, rb{ b }; Rng<int, RA> lr{ a }, rr{ b };
    a01(a, b, a, b, "vector/vector"); a01e(a, b, a, b);
    a01(lr, rr, a, b, "random/random"); a01e(lr, rr, a, b);
    a01(lb, rb, a, b, "bidirectional/bidirectional"); a01e(lb, rb, a, b);
    a01(lf, rf, a, b, "forward/forward");
    a01(lr, rb, a, b, "random/bidirectional"); a01e(lr, rb, a, b);
    a01(lb, rr, a, b, "bidirectional/random"); a01e(lb, rr, a, b);
    a01(lf, rr, a, b, "forward/random");
    if (R().chance(1, 4)) { a01(mk<Li>(a), mk<De>(b), a, b, "list/deque"); a01e(mk<Li>(a), mk<De>(b), a, b); a01(mk<De>(a), mk<De>(b), a, b, "deque/deque"); a01e(mk<De>(a), mk<De>(b), a, b); a01(mk<Fl>(a), mk<Li>(b), a, b, "forward_list/list"); }
    // default predicate and strings
    mode = 0;
    std::string s, t; for (int x : a) s += (char)('a' + x); for (int x : b) t += (char)('a' + x - 1000);
    at("strings " + esc(s) + " / " + esc(t));
    check(pluto::equals(s, t) == (s == t), "equals(string)");
    check(pluto::starts_with(s, t) == (s.compare(0, t.size(), t) == 0 && t.size() <= s.size()), "starts_with(string)");
    check(pluto::ends_with(s, t) == (t.size() <= s.size() && s.compare(s.size() - t.size(), t.size(), t) == 0), "ends_with(string)");
    exact<char> es(s), et(t);
    check(pluto::equals(es.p, es.n, et.p, et.n) == (s == t), "equals(char*, size)");
    check(pluto::starts_with(es.p, es.n, et.p, et.n) == (t.size() <= s.size() && s.compare(0, t.size(), t) == 0), "starts_with(char*, size)");
    check(pluto::ends_with(es.p, es.n, et.p, et.n) == (t.size() <= s.size() && s.compare(s.size() - t.size(), t.size(), t) == 0), "ends_with(char*, size)");
    std::wstring ws(s.begin(), s.end()), wt(t.begin(), t.end());
    check(pluto::equals(ws, wt) == (s == t), "equals(wstring)");
    check(pluto::starts_with(ws, wt) == (t.size() <= s.size() && s.compare(0, t.size(), t) == 0), "starts_with(wstring)");
    check(pluto::ends_with(ws, wt) == (t.size() <= s.size() && s.compare(s.size() - t.size(), t.size(), t) == 0), "ends_with(wstring)");
    std::u16string us(s.begin(), s.end()), ut(t.begin(), t.end());
    check(pluto::equals(us, ut) == (s == t), "equals(u16string)");
    check(pluto::starts_with(us, ut) == (t.size() <= s.size() && s.compare(0, t.size(), t) == 0), "starts_with(u16string)");
    check(pluto::ends_with(us, ut) == (t.size() <= s.size() && s.compare(s.size() - t.size(), t.size(), t) == 0), "ends_with(u16string)");
    check(pluto::equals(a, mk<Li>(a)) && pluto::starts_with(a, a) && pluto::ends_with(a, a), "reflexive with the default predicate");
    auto pi = [](char x, char y) { return x >= y; };
    bool e = s.size() == t.size(), sw = t.size() <= s.size(), ew = sw;
    for (std::size_t i = 0; i < s.size() && i < t.size(); ++i) { if (!pi(s[i], t[i])) e = sw = false; if (!pi(s[s.size() - 1 - i], t[t.size() - 1 - i])) ew = false; }
    check(pluto::equals(s, t, pi) == e, "equals(string, predicate)"); check(pluto::starts_with(s, t, pi) == sw, "starts_with(string, predicate)"); check(pluto::ends_with(s, t, pi) == ew, "ends_with(string, predicate)");
    check(pluto::equals(es.p, es.n, et.p, et.n, pi) == e && pluto::starts_with(es.p, es.n, et.p, et.n, pi) == sw && pluto::ends_with(es.p, es.n, et.p, et.n, pi) == ew, "char*, size, predicate");
    check(pluto::equals(ws, wt, pi) == e && pluto::starts_with(ws, wt, pi) == sw && pluto::ends_with(ws, wt, pi) == ew, "wstring, predicate");
#if PLUTO_STRING_OVERLOAD_FOR_UNICODE
    auto uni = [&](auto us, auto ut, const char* k) {
        check(pluto::equals(us, ut, pi) == e && pluto::starts_with(us, ut, pi) == sw && pluto::ends_with(us, ut, pi) == ew, std::string(k) + ", predicate");
        check(pluto::equals(us, ut) == (s == t) && pluto::starts_with(us, ut) == (t.size() <= s.size() && s.compare(0, t.size(), t) == 0) && pluto::ends_with(us, ut) == (t.size() <= s.size() && s.compare(s.size() - t.size(), t.size(), t) == 0), k); };
    uni(us, ut, "u16string overload"); uni(std::u32string(s.begin(), s.end()), std::u32string(t.begin(), t.end()), "u32string overload"); uni(std::u8string(s.begin(), s.end()), std::u8string(t.begin(), t.end()), "u8string overload");
#endif
}

static std::ptrdiff_t w_find(const std::vector<int>& a, const std::vector<int>& b, bool last)
{   // index of the first / last match, -1: none
    std::ptrdiff_t r = -1;
    if (last && b.empty()) return -1;
    for (std::size_t i = 0; i + b.size() <= a.size(); ++i) if (w_eq({ a.begin() + i, a.begin() + i + b.size() }, b)) { r = (std::ptrdiff_t)i; if (!last) return r; }
    return r;
}
template<class C, class C2> void a02seq(const C& l, const C2& r, const std::vector<int>& a, const std::vector<int>& b, bool bidi, const char* k)
{
    at(std::string(k) + " left " + shv(a) + " right " + shv(b) + " relation " + std::to_string(mode % 4));
    using std::begin; using std::end;
    auto f = w_find(a, b, false);
    auto want = f < 0 ? end(l) : std::next(begin(l), f);
    check(pluto::find(begin(l), end(l), begin(r), end(r), Pr{}) == want, "find(sequence)");
    check(pluto::find_sequence(l, r, Pr{}) == want, "find_sequence");
    bool c = b.empty() || f >= 0;
    check(pluto::contains(begin(l), end(l), begin(r), end(r), Pr{}) == c, "contains(sequence)");
    check(pluto::contains_sequence(l, r, Pr{}) == c, "contains_sequence");
#if PLUTO_UTILS_HAS_CXX_17
    auto g = w_find(a, b, true);
    auto wantl = g < 0 ? end(l) : std::next(begin(l), g);
    check(pluto::rfind(begin(l), end(l), begin(r), end(r), Pr{}) == wantl, "rfind(sequence)");
    check(pluto::rfind_sequence(l, r, Pr{}) == wantl, "rfind_sequence");
#endif
    (void)bidi;
}
template<class C> void a02f(const C& l, const std::vector<int>& a, const char* k, int e, int m)
{
    at(std::string(k) + " range " + shv(a) + " element " + std::to_string(e) + " predicate x%4 in mask " + std::to_string(m));
    using std::begin; using std::end;
    auto p = [m](int x) { return ((m >> (x & 3)) & 1) != 0; };
    std::ptrdiff_t fe = -1, fp = -1, fn = -1;
    for (std::size_t i = a.size(); i-- > 0;) { if (a[i] == e) fe = (std::ptrdiff_t)i; if (p(a[i])) fp = (std::ptrdiff_t)i; else fn = (std::ptrdiff_t)i; }
    auto it = [&](std::ptrdiff_t i) { return i < 0 ? end(l) : std::next(begin(l), i); };
    check(pluto::find(begin(l), end(l), e) == it(fe), "find(element)"); check(pluto::find_elem(l, e) == it(fe), "find_elem");
    check(pluto::find_if(begin(l), end(l), p) == it(fp), "find_if"); check(pluto::find_if(l, p) == it(fp), "find_if(container)");
    check(pluto::find_if_not(begin(l), end(l), p) == it(fn), "find_if_not"); check(pluto::find_if_not(l, p) == it(fn), "find_if_not(container)");
    check(pluto::contains(begin(l), end(l), e) == (fe >= 0), "contains(element)"); check(pluto::contains_elem(l, e) == (fe >= 0), "contains_elem");
}
template<class C> void a02b(const C& l, const std::vector<int>& a, const char*, int e, int m)
{
    using std::begin; using std::end;
    auto p = [m](int x) { return ((m >> (x & 3)) & 1) != 0; };
    std::ptrdiff_t fe = -1, fp = -1, fn = -1;
    for (std::size_t i = 0; i < a.size(); ++i) { if (a[i] == e) fe = (std::ptrdiff_t)i; if (p(a[i])) fp = (std::ptrdiff_t)i; else fn = (std::ptrdiff_t)i; }
    auto it = [&](std::ptrdiff_t i) { return i < 0 ? end(l) : std::next(begin(l), i); };
    check(pluto::rfind(begin(l), end(l), e) == it(fe), "rfind(element)"); check(pluto::rfind_elem(l, e) == it(fe), "rfind_elem");
    check(pluto::rfind_if(begin(l), end(l), p) == it(fp), "rfind_if"); check(pluto::rfind_if(l, p) == it(fp), "rfind_if(container)");
    check(pluto::rfind_if_not(begin(l), end(l), p) == it(fn), "rfind_if_not"); check(pluto::rfind_if_not(l, p) == it(fn), "rfind_if_not(container)");
}
static void A02()
{
    mode = R().chance(2, 3) ? 0 : (int)R().below(4);
    int K = R().chance(1, 2) ? 2 : 4;
    std::vector<int> a = vec(some_size(10, 300), K), b = vec(R().below(4), K, 1000);
    if (R().chance(1, 2) && !a.empty()) { std::size_t n = R().below(a.size() + 1), o = R().below(a.size() - n + 1); b.assign(a.begin() + o, a.begin() + o + n); for (auto& x : b) x += 1000; if (R().chance(1, 4)) b.push_back(1000 + (int)R().below(K)); }
    if (R().chance(1, 10)) b.clear();
    Rng<int, F> lf{ a }, rf{ b }; Rng<int, B> lb{ a }, rb{ b }; Rng<int, RA> lr{ a }, rr{ b };
    a02seq(a, b, a, b, true, "vector"); a02seq(lf, rf, a, b, false, "forward"); a02seq(lb, rb, a, b, true, "bidirectional"); a02seq(lr, rr, a, b, true, "random"); a02seq(lr, rf, a, b, false, "random/forward");
    int e = (int)R().below(K), m = (int)R().below(16);
    a02f(lf, a, "forward", e, m); a02f(lb, a, "bidirectional", e, m); a02b(lb, a, "bidirectional", e, m); a02f(lr, a, "random", e, m); a02b(lr, a, "random", e, m); a02f(a, a, "vector", e, m); a02b(a, a, "vector", e, m);
    if (R().chance(1, 5)) { auto li = mk<std::list<int>>(a); auto de = mk<std::deque<int>>(a); a02f(li, a, "list", e, m); a02b(li, a, "list", e, m); a02f(de, a, "deque", e, m); a02b(de, a, "deque", e, m); auto fl = mk<std::forward_list<int>>(a); a02f(fl, a, "forward_list", e, m);
        std::set<int> st(a.begin(), a.end()); std::vector<int> sv(st.begin(), st.end()); a02f(st, sv, "set", e, m); a02b(st, sv, "set", e, m); }
    std::string s, t; for (int x : a) s += (char)('a' + x); for (int x : b) t += (char)('a' + x - 1000);
    at("strings " + esc(s) + " / " + esc(t));
    auto fs = s.find(t), fl = t.empty() ? std::string::npos : s.rfind(t);
    auto chk = [&](const auto& S, const auto& T, const char* what) {
        check(pluto::find(S, T) == (fs == std::string::npos ? S.end() : S.begin() + fs), std::string("find ") + what);
        check(pluto::contains(S, T) == (fs != std::string::npos), std::string("contains ") + what);
#if PLUTO_UTILS_HAS_CXX_17
        check(pluto::rfind(S, T) == (fl == std::string::npos ? S.end() : S.begin() + fl), std::string("rfind ") + what);
#endif
    };
    chk(s, t, "string"); chk(std::wstring(s.begin(), s.end()), std::wstring(t.begin(), t.end()), "wstring"); chk(std::u16string(s.begin(), s.end()), std::u16string(t.begin(), t.end()), "u16string"); chk(std::u32string(s.begin(), s.end()), std::u32string(t.begin(), t.end()), "u32string");
#if PLUTO_STRING_OVERLOAD_FOR_UNICODE
    chk(std::u8string(s.begin(), s.end()), std::u8string(t.begin(), t.end()), "u8string");
#endif
    exact<char> es(s), et(t);
    check(pluto::find(es.p, es.n, et.p, et.n) == (fs == std::string::npos ? es.p + es.n : es.p + fs), "find(char*, size)");
    check(pluto::contains(es.p, es.n, et.p, et.n) == (fs != std::string::npos), "contains(char*, size)");
#if PLUTO_UTILS_HAS_CXX_17
    check(pluto::rfind(es.p, es.n, et.p, et.n) == (fl == std::string::npos ? es.p + es.n : es.p + fl), "rfind(char*, size)");
#endif
    auto pi = [](char x, char y) { return x >= y; };
    std::ptrdiff_t f1 = -1, f2 = -1;
    for (std::size_t i = 0; i + t.size() <= s.size(); ++i) { bool ok = true; for (std::size_t j = 0; j < t.size(); ++j) ok = ok && pi(s[i + j], t[j]); if (ok) { if (f1 < 0) f1 = (std::ptrdiff_t)i; f2 = (std::ptrdiff_t)i; } }
    if (t.empty()) f2 = -1;
    check(pluto::find(s, t, pi) == (f1 < 0 ? s.end() : s.begin() + f1), "find(string, predicate)"); check(pluto::contains(s, t, pi) == (f1 >= 0), "contains(string, predicate)");
    check(pluto::find(es.p, es.n, et.p, et.n, pi) == (f1 < 0 ? es.p + es.n : es.p + f1) && pluto::contains(es.p, es.n, et.p, et.n, pi) == (t.empty() || f1 >= 0), "char*, size, predicate");
#if PLUTO_UTILS_HAS_CXX_17
    check(pluto::rfind(s, t, pi) == (f2 < 0 ? s.end() : s.begin() + f2), "rfind(string, predicate)");
    check(pluto::rfind(es.p, es.n, et.p, et.n, pi) == (f2 < 0 ? es.p + es.n : es.p + f2), "rfind(char*, size, predicate)");
#endif
}
template<class C> void slc(const std::vector<int>& a, long long st, long long sp, const char* k)
{
    C c(a.begin(), a.end()); const C c0 = c;
    at(std::string(k) + " of size " + std::to_string(a.size()) + " slice(" + std::to_string(st) + "," + std::to_string(sp) + ")");
    auto n = (__int128)a.size(); auto norm = [n](__int128 i) { if (i < 0) i += n; if (i < 0) i = 0; if (i > n) i = n; return (std::size_t)i; };
    auto want = [&](std::size_t s, std::size_t e) { return s < e ? std::vector<int>(a.begin() + s, a.begin() + e) : std::vector<int>(); };
    auto r = pluto::slice(c, st, sp);
    check(std::vector<int>(r.begin(), r.end()) == want(norm(st), norm(sp)), "slice(start, stop)");
    auto r2 = pluto::slice(c, sp);
    check(std::vector<int>(r2.begin(), r2.end()) == want(0, norm(sp)), "slice(stop)");
    check(c == c0, "slice changed the source");
}
static void A03()
{
    std::vector<int> a; std::size_t n = some_size(7, 400); for (std::size_t i = 0; i < n; ++i) a.push_back((int)i);
    auto ix = [&]() -> long long { switch (R().below(10)) { case 0: return (long long)R().next(); case 1: return INT64_MAX - (long long)R().below(3); case 2: return INT64_MIN + (long long)R().below(3); case 3: return (long long)consts()[R().below(consts().size())]; case 4: return -(long long)(consts()[R().below(consts().size())] & 0xffffff); case 5: return (R().chance(1, 2) ? 1 : -1) * ((1ll << 31) + R().in(-2, 2)); case 6: return (1ll << 32) + R().in(-2, 8); default: return R().in(-(long long)n - 2, (long long)n + 2); } };
    long long s = ix(), e = ix();
    slc<std::vector<int>>(a, s, e, "vector"); slc<std::list<int>>(a, s, e, "list");
    if (R().chance(1, 3)) { slc<std::deque<int>>(a, s, e, "deque"); slc<std::set<int>>(a, s, e, "set"); }
    std::string str; for (int x : a) str += (char)(33 + x % 90);
    auto r = pluto::slice(str, s, e); auto m = pluto::slice(a, s, e); std::string w; for (int x : m) w += (char)(33 + x % 90);
    check(r == w, "slice(string)");
}
struct cmpmod { bool operator()(int a, int b) const { return a / 4 < b / 4; } };
template<class C> void a04(const std::vector<int>& a, const char* k, int m, int e)
{
    C c(a.begin(), a.end()); const C& l = c;
    std::vector<int> v(c.begin(), c.end());
    at(std::string(k) + " " + shv(v) + " predicate mask " + std::to_string(m) + " element " + std::to_string(e));
    auto p = [m](int x) { return ((m >> (x & 3)) & 1) != 0; };
    bool any = false, all = true, nz = false, az = true; std::size_t cnt = 0, ce = 0; long long sum = 7; int isum = 0;
    for (int x : v) { any |= p(x); all &= p(x); cnt += p(x); ce += x == e; sum = sum * 3 + 0; isum += x; nz |= x != 0; az &= x != 0; }
    check(pluto::any(l, p) == any, "any(predicate)"); check(pluto::all(l, p) == all, "all(predicate)"); check(pluto::any(l) == nz, "any()"); check(pluto::all(l) == az, "all()");
    check(pluto::count_if(l, p) == cnt, "count_if"); check(pluto::count(l, e) == ce, "count");
    check(pluto::sum(l) == isum, "sum()"); check(pluto::sum(l, 5L) == 5L + isum, "sum(initial)");
    {
        // narrow elements summed in a wider type
        std::list<unsigned char> ub; std::vector<signed char> sb; long long us = 3, ss = -1; double ds = 0.5;
        for (int x : v) { ub.push_back((unsigned char)(x * 83 + 77)); sb.push_back((signed char)(x * 57 - 90)); us += ub.back(); ss += sb.back(); ds += x; }
        check(pluto::sum(ub, 3LL) == us, "sum of narrow elements (initial)"); check(pluto::sum(sb, -1) == ss, "sum of narrow elements (int initial)");
        check(pluto::sum(l, 0.5) == ds, "sum of integers (double initial)");
    }
#ifndef VP_PLAIN
    struct Acc { std::string s; Acc& operator+=(int x) { s += std::to_string(x) + ","; return *this; } };
    std::string ws = "i:"; for (int x : v) ws += std::to_string(x) + ",";
    check(pluto::sum(l, Acc{ "i:" }).s == ws, "sum adds the elements in order to the initial value");
#endif
    if (!v.empty())
    {
        auto idx = [&](const int& r) { std::ptrdiff_t i = 0; for (auto& x : l) { if (&x == &r) return i; ++i; } return (std::ptrdiff_t)-1; };
        auto first = [&](auto better) { std::size_t b = 0; for (std::size_t i = 1; i < v.size(); ++i) if (better(v[i], v[b])) b = i; return (std::ptrdiff_t)b; };
        cmpmod q;
        check(idx((pluto::min)(l)) == first([](int x, int y) { return x < y; }), "min"); check(idx((pluto::max)(l)) == first([](int x, int y) { return y < x; }), "max");
        check(idx((pluto::min)(l, q)) == first([q](int x, int y) { return q(x, y); }), "min(predicate)"); check(idx((pluto::max)(l, q)) == first([q](int x, int y) { return q(y, x); }), "max(predicate)");
    }
}
static void A04()
{
    int K = R().chance(1, 3) ? 2 : R().chance(1, 2) ? 9 : 100;
    std::vector<int> a = vec(some_size(8, 400), K); if (R().chance(1, 4)) for (auto& x : a) x -= K / 2;
    if (R().chance(1, 6)) for (auto& x : a) x = a[0];
    int m = (int)R().below(16), e = (int)R().below(K);
    if (R().chance(1, 6)) m = 15; if (R().chance(1, 6)) m = 0;
    a04<std::vector<int>>(a, "vector", m, e); a04<std::list<int>>(a, "list", m, e);
    if (R().chance(1, 4)) { a04<std::deque<int>>(a, "deque", m, e); a04<std::forward_list<int>>(a, "forward_list", m, e); a04<std::set<int>>(a, "set", m, e); }
}
template<class C> void a05(const std::vector<int>& a, const char* k, int m, const std::vector<int>& d0)
{
    auto p = [m](int x) { return ((m >> (x & 3)) & 1) != 0; };
    at(std::string(k) + " " + shv(a) + " mask " + std::to_string(m) + " destination " + shv(d0));
    auto tov = [](const auto& c) { return std::vector<int>(c.begin(), c.end()); };
    { C c(a.begin(), a.end()); std::vector<int> w; for (int x : a) if (p(x)) w.push_back(x); auto& r = pluto::filter(c, p); check(&r == &c && tov(c) == w, "filter"); }
    { C c(a.begin(), a.end()); std::vector<int> w(a.rbegin(), a.rend()); auto& r = pluto::reverse(c); check(&r == &c && tov(c) == w, "reverse"); }
    { C c(a.begin(), a.end()); std::vector<int> log; auto& r = pluto::for_each(c, [&log](int& x) { log.push_back(x); x += 1000; }); auto w = a; for (auto& x : w) x += 1000; check(&r == &c && log == a && tov(c) == w, "for_each"); }
    { const C c(a.begin(), a.end()); std::vector<int> log; pluto::for_each(c, [&log](const int& x) { log.push_back(x); }); check(log == a, "for_each(const)"); }
    { const C c(a.begin(), a.end()); C d(d0.begin(), d0.end()); std::vector<int> log; auto f = [&log](int x) { log.push_back(x); return x * 2 + 1; }; auto& r = pluto::map(c, d, f); auto w = d0; for (int x : a) w.push_back(x * 2 + 1); check(&r == &d && tov(d) == w && tov(c) == a && log == a, "map(source, destination)");
      auto m2 = pluto::map<C>(c, [](int x) { return x - 1; }); auto w2 = a; for (auto& x : w2) --x; check(tov(m2) == w2 && tov(c) == a, "map<Destination>(source)");
      auto m3 = pluto::map(c, [](int x) { return x * 0.5; }); bool ok = m3.size() == a.size(); auto i = m3.begin(); for (int x : a) { if (ok) ok = *i++ == x * 0.5; } check(ok, "map(source)");
      std::set<int> s(d0.begin(), d0.end()); auto ws = s; for (int x : a) ws.insert(x % 5); auto& rs = pluto::map(c, s, [](int x) { return x % 5; }); check(&rs == &s && s == ws, "map into a set");
      std::multiset<int> ms(d0.begin(), d0.end()); auto wm = ms; for (int x : a) wm.insert(x % 5); pluto::map(c, ms, [](int x) { return x % 5; }); check(ms == wm, "map into a multiset");
      std::map<int, int> mp; std::map<int, int> wp; int q = 0; for (int x : a) wp.insert({ x % 7, q++ }); q = 0; pluto::map(c, mp, [&q](int x) { return std::make_pair(x % 7, q++); }); check(mp == wp, "map into a map"); }
    { std::vector<int> src = a, dst(a.size() + 2, -5); auto it = pluto::map(src.begin(), src.end(), dst.begin() + 1, [](int x) { return x + 3; }); bool ok = dst[0] == -5 && dst[a.size() + 1] == -5 && it == dst.begin() + 1 + a.size() && src == a; for (std::size_t i = 0; i < a.size(); ++i) ok = ok && dst[i + 1] == a[i] + 3; check(ok, "map(iterators)"); }
}
template<class C> void a05s(const std::vector<int>& a, const char* k)
{
    at(std::string("sort ") + k + " " + shv(a));
    auto chk = [&](const C& c, auto pr, const char* w) { std::vector<int> v(c.begin(), c.end()), x = v, y = a; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); check(x == y, std::string(w) + " is not a permutation"); for (std::size_t i = 1; i < v.size(); ++i) check(!pr(v[i], v[i - 1]), std::string(w) + " not ordered"); };
    { C c(a.begin(), a.end()); auto& r = pluto::sort(c); check(&r == &c, "sort returns its argument"); chk(c, std::less<int>(), "sort"); }
    { C c(a.begin(), a.end()); pluto::sort(c, std::greater<int>()); chk(c, std::greater<int>(), "sort(greater)"); }
    { C c(a.begin(), a.end()); pluto::sort(c, cmpmod()); chk(c, cmpmod(), "sort(predicate)"); }
    { C c(a.begin(), a.end()); if (a.size() > 2) { pluto::sort(c.begin() + 1, c.end() - 1); std::vector<int> w = a; std::sort(w.begin() + 1, w.end() - 1); check(std::vector<int>(c.begin(), c.end()) == w, "sort(iterators)"); } }
}
static void A05()
{
    int K = R().chance(1, 2) ? 4 : 50;
    std::vector<int> a = vec(some_size(8, 300), K), d = vec(R().below(4), K);
    int m = (int)R().below(16);
    a05<std::vector<int>>(a, "vector", m, d); a05<std::list<int>>(a, "list", m, d);
    if (R().chance(1, 3)) a05<std::deque<int>>(a, "deque", m, d);
    a05s<std::vector<int>>(a, "vector"); if (R().chance(1, 3)) a05s<std::deque<int>>(a, "deque");
    { std::string s; for (int x : a) s += (char)('a' + x % 4); std::string w; for (char c : s) if (c != 'a') w += c; at("filter string " + esc(s)); pluto::filter(s, [](char c) { return c != 'a'; }); check(s == w, "filter(string)"); }
    { auto v = a; auto it = pluto::filter(v.begin(), v.end(), [m](int x) { return ((m >> (x & 3)) & 1) != 0; }); std::vector<int> w; for (int x : a) if ((m >> (x & 3)) & 1) w.push_back(x); check(std::vector<int>(v.begin(), it) == w, "filter(iterators)"); }
    { auto v = a; pluto::reverse(v.begin(), v.end()); check(v == std::vector<int>(a.rbegin(), a.rend()), "reverse(iterators)"); }
    { std::vector<int> log; struct Fn { std::vector<int>* l; int n = 0; void operator()(int x) { l->push_back(x); ++n; } }; auto f = pluto::for_each(a.begin(), a.end(), Fn{ &log }); check(log == a && f.n == (int)a.size(), "for_each(iterators)"); }
}
int main(int argc, char** argv)
{
    install();
    std::string m = argc > 1 ? argv[1] : "";
    do for (int i = 0; i < 20; ++i) { if (m == "A01") A01(); else if (m == "A02") A02(); else if (m == "A03") A03(); else if (m == "A04") A04(); else A05(); } while (more());
    return done();
}
