#include <pluto/range.hpp>
#include <pluto/value.hpp>
#include <pluto/platform.hpp>
#include <climits>
#include <cmath>
#include <limits>
#include "vp.hpp"
using namespace vp;

template<class T> T val() 
{
    static const int small = 4;
    switch (R().below(6)) {
    case 0: return std::numeric_limits<T>::max();
    case 1: return std::numeric_limits<T>::min();
    case 2: return (T)R().next();
    case 3: return (T)consts()[R().below(consts().size())];
    default: return (T)R().below(small); }
}
template<class T> std::string sh(const pluto::range<T>& a) { return "[" + std::to_string(a.begin) + "," + std::to_string(a.end) + ")"; }
template<class T> void rangecase(bool r01)
{
    T p = val<T>(), q = val<T>(), x = val<T>(), y = val<T>();
    if (R().chance(1, 3)) x = p;
    if (R().chance(1, 3)) y = q;
    if (R().chance(1, 5)) x = q;
    pluto::range<T> a(p, q), b(x, y);
    at(std::string("range<") + std::to_string(sizeof(T) * 8) + "> " + sh(a) + " " + sh(b));
    if (r01)
    {
        check(a.begin == p && a.end == q, "constructor");
        bool eq = p == x && q == y, lt = p < x || (p == x && q < y), gt = x < p || (p == x && y < q);
        check((a == b) == eq, "=="); check((a != b) == !eq, "!="); check((a < b) == lt, "<"); check((a > b) == gt, ">");
        check((a <= b) == !gt, "<="); check((a >= b) == !lt, ">="); check(a.is_equal(b) == eq, "is_equal"); check(a.is_less(b) == lt, "is_less");
        if (p <= q && (!std::is_signed<T>::value || sizeof(T) < 4 || p >= 0)) check(a.size() == (q - p), "size");
    }
    else
    {
        if (q < p) std::swap(a.begin, a.end);
        if (y < x) std::swap(b.begin, b.end);
        bool before = a.begin != b.begin && a.end <= b.begin, after = a.begin != b.begin && b.end <= a.begin;
        at(sh(a) + " " + sh(b));
        check(a.is_less_no_overlap(b) == before, "is_less_no_overlap");
        check(b.is_less_no_overlap(a) == after, "is_less_no_overlap (swapped)");
        check(a.is_overlapping(b) == !(before || after), "is_overlapping");
        check(b.is_overlapping(a) == !(before || after), "is_overlapping (swapped)");
    }
}
template<class T> void mm()
{
    T a = val<T>(), b = R().chance(1, 3) ? a : val<T>();
    at("values " + std::to_string(a) + " " + std::to_string(b));
    check(&(pluto::min)(a, b) == (b < a ? &b : &a), "min");
    check(&(pluto::max)(a, b) == (a < b ? &b : &a), "max");
    auto g = [](const T& x, const T& y) { return (x / 4) > (y / 4); };
    check(&(pluto::min)(a, b, g) == (g(b, a) ? &b : &a), "min with predicate");
    check(&(pluto::max)(a, b, g) == (g(a, b) ? &b : &a), "max with predicate");
    if (!(std::is_signed<T>::value && std::numeric_limits<T>::is_integer && a == std::numeric_limits<T>::min()))
        check(pluto::abs(a) == (a < 0 ? (T)-a : a), "abs");
}
int main(int argc, char** argv)
{
    install();
    std::string m = argc > 1 ? argv[1] : "";
    if (m == "R01" || m == "R02")
        do for (int i = 0; i < 200; ++i) { bool r = m == "R01"; rangecase<int>(r); rangecase<unsigned>(r); rangecase<long>(r); rangecase<unsigned long>(r); rangecase<short>(r); rangecase<char>(r); rangecase<unsigned char>(r); rangecase<double>(r); } while (more());
    else if (m == "V01")
        do for (int i = 0; i < 200; ++i) { mm<int>(); mm<unsigned>(); mm<long>(); mm<unsigned long long>(); mm<short>(); mm<char>(); mm<unsigned char>(); mm<double>(); mm<float>(); } while (more());
    else
    {
        do
            for (int i = 0; i < 200; ++i)
            {
                std::string s;
                std::size_t n = some_size(10, 2000);
                static const char al[] = "/\\a.:|~";
                while (s.size() < n) s += R().chance(1, 6) ? (char)(1 + R().below(255)) : al[R().below(n > 50 ? 7 : 4) ];
                if (n > 20 && R().chance(1, 2)) for (auto& c : s) if (c == '/' || c == '\\') c = R().chance(1, 20) ? c : 'x';
                at("path " + esc(s));
                exact<char> in(s + '\0');
                auto k = s.find_last_of("/\\");
                check(pluto::file_name(in.p) == in.p + (k == std::string::npos ? 0 : k + 1), "file_name");
            }
        while (more());
    }
    return done();
}
