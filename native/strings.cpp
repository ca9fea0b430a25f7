// Bounded native pass for string.hpp and the case-insensitive predicates of compare.hpp (S01-S06).
#include <climits>
#include <limits>
#include <pluto/string.hpp>
#include <deque>
#include <list>
#include "vp.hpp"
using namespace vp;

// ctype facets with an unusual classification: every check that names a locale must follow it
template<class E> static bool sp(E c) { return c == E('s') || c == E('_') || c == E(' '); }
template<class E> static E up(E c) { return c == E('q') ? E('q') : c == E('x') ? E('Y') : c == E('z') ? E('Y') : (c >= E('a') && c <= E('w')) ? E(c - 32) : c; }
template<class E> static E lo(E c) { return c == E('Q') ? E('Q') : c == E('X') ? E('w') : (c >= E('A') && c <= E('V')) ? E(c + 32) : c; }
template<class E> static bool isup(E c) { return (c >= E('A') && c <= E('M')) || c == E('3'); }
template<class E> static bool islo(E c) { return (c >= E('a') && c <= E('m')) || c == E('4'); }
struct cc : std::ctype<char>
{
    static const mask* table() { static mask t[table_size]; for (int i = 0; i < (int)table_size; ++i) { char c = (char)i; t[i] = 0; if (sp(c)) t[i] |= space; if (isup(c)) t[i] |= upper; if (islo(c)) t[i] |= lower; } return t; }
    cc() : std::ctype<char>(table()) {}
    char do_toupper(char c) const override { return up(c); } char do_tolower(char c) const override { return lo(c); }
    const char* do_toupper(char* b, const char* e) const override { for (; b != e; ++b) *b = up(*b); return e; }
    const char* do_tolower(char* b, const char* e) const override { for (; b != e; ++b) *b = lo(*b); return e; }
};
struct cw : std::ctype<wchar_t>
{
    bool do_is(mask m, wchar_t c) const override { return ((m & space) && sp(c)) || ((m & upper) && isup(c)) || ((m & lower) && islo(c)); }
    wchar_t do_toupper(wchar_t c) const override { return up(c); } wchar_t do_tolower(wchar_t c) const override { return lo(c); }
    const wchar_t* do_toupper(wchar_t* b, const wchar_t* e) const override { for (; b != e; ++b) *b = up(*b); return e; }
    const wchar_t* do_tolower(wchar_t* b, const wchar_t* e) const override { for (; b != e; ++b) *b = lo(*b); return e; }
};
static const std::locale& odd() { static std::locale l(std::locale(std::locale::classic(), new cc), new cw); return l; }

template<class S> static std::string esw(const S& s) { std::string o; for (auto c : s) { if ((unsigned long)c < 128) o += (char)c; else o += "?"; } return esc(o) + "(" + std::to_string(s.size()) + ")"; }
template<class S> static std::string shs(const std::vector<S>& v) { std::string o = "["; for (std::size_t i = 0; i < v.size() && i < 30; ++i) o += (i ? "|" : "") + esw(v[i]); return o + "]"; }
static std::string rnd(std::size_t n, const char* al) { std::string s; std::size_t k = strlen(al); while (s.size() < n) s += al[R().below(k)]; return s; }
template<class S> static S cv(const std::string& s) { return S(s.begin(), s.end()); }

template<class S> static std::vector<S> w_split(const S& s, const S& f)
{
    std::vector<S> v;
    if (f.empty()) { for (auto c : s) v.push_back(S(1, c)); return v; }
    S cur; std::size_t i = 0;
    while (i < s.size()) { bool m = i + f.size() <= s.size(); for (std::size_t j = 0; m && j < f.size(); ++j) m = s[i + j] == f[j]; if (m) { v.push_back(cur); cur.clear(); i += f.size(); } else cur += s[i++]; }
    v.push_back(cur);
    return v;
}
template<class S, class P> static std::vector<S> w_runs(const S& s, P sep)
{
    std::vector<S> v; S cur;
    for (auto c : s) { if (sep(c)) { if (!cur.empty()) v.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) v.push_back(cur);
    return v;
}
template<class S> static void split1(const std::string& s0, const std::string& f0, const char* k)
{
    const S s = cv<S>(s0), f = cv<S>(f0);
    at(std::string(k) + " split \"" + esc(s0) + "\" by \"" + esc(f0) + "\"");
    auto g = pluto::split(s, f), w = w_split(s, f);
    check(g == w, "split: got " + shs(g) + " want " + shs(w));
    g = pluto::split_any_of(s, f); w = w_runs(s, [&](auto c) { return f.find(c) != S::npos; });
    check(g == w, "split_any_of: got " + shs(g) + " want " + shs(w));
    check(s == cv<S>(s0), "the source changed");
}
template<class S> static void splitws(const std::string& s0, const char* k)
{
    const S s = cv<S>(s0); typedef typename S::value_type E;
    at(std::string(k) + " split on whitespace \"" + esc(s0) + "\"");
    auto g = pluto::split(s, odd()), w = w_runs(s, [](E c) { return sp(c); });
    check(g == w, "split(locale): got " + shs(g) + " want " + shs(w));
    auto& ct = std::use_facet<std::ctype<E>>(std::locale::classic());
    g = pluto::split(s, std::locale::classic()); w = w_runs(s, [&](E c) { return ct.is(std::ctype_base::space, c); });
    check(g == w, "split(classic locale): got " + shs(g) + " want " + shs(w));
    g = pluto::split(s); auto& cd = std::use_facet<std::ctype<E>>(pluto::default_locale()); w = w_runs(s, [&](E c) { return cd.is(std::ctype_base::space, c); });
    check(g == w, "split(): got " + shs(g) + " want " + shs(w));
}
static std::string sample(const char* al) { return rnd(some_size(10, 600), al); }
static void S01()
{
    std::string s, f = rnd(R().below(4), "ab");
    if (R().chance(1, 3)) { std::size_t n = R().below(6); for (std::size_t i = 0; i < n; ++i) s += rnd(R().below(4), "abc") + f; if (R().chance(1, 2)) s += rnd(R().below(3), "abc"); }
    else s = sample(R().chance(1, 2) ? "ab" : "abc");
    if (R().chance(1, 8)) s += '\0';
    if (R().chance(1, 10)) f += '\0';
    split1<std::string>(s, f, "string"); split1<std::wstring>(s, f, "wstring");
    if (R().chance(1, 3)) { split1<std::u16string>(s, f, "u16string"); split1<std::u32string>(s, f, "u32string"); }
#if PLUTO_STRING_OVERLOAD_FOR_UNICODE
    split1<std::u8string>(s, f, "u8string");
#endif
    std::string t = sample(R().chance(1, 2) ? "ab s_" : "a \t\n_\v\f\r"); 
    if (R().chance(1, 2)) t = rnd(R().below(3), " s\n") + t + rnd(R().below(3), " s\n");
    splitws<std::string>(t, "string"); splitws<std::wstring>(t, "wstring");
}
template<class S> static void join1(const std::vector<std::string>& v0, const std::string& f0, const char* k)
{
    std::vector<S> v; for (auto& x : v0) v.push_back(cv<S>(x));
    const S f = cv<S>(f0); S w, wm;
    std::string d; for (auto& x : v0) d += esc(x) + "|";
    at(std::string(k) + " join [" + d + "] with \"" + esc(f0) + "\"");
    for (std::size_t i = 0; i < v.size(); ++i) { if (i) { w += f; wm += f; } w += v[i]; wm += v[i] + S(1, 'k') + v[i]; }
    std::list<S> l(v.begin(), v.end());
    check(pluto::join(v, f) == w, "join(vector): got \"" + esw(pluto::join(v, f)) + "\""); check(pluto::join(l, f) == w, "join(list)");
    check(pluto::join(v.begin(), v.end(), f) == w, "join(iterators)"); check(pluto::join(l.begin(), l.end(), f) == w, "join(list iterators)");
    std::vector<S> seen; auto fn = [&seen](const S& s) { seen.push_back(s); return s + S(1, 'k') + s; };
    check(pluto::map_join(v, f, fn) == wm && seen == v, "map_join(vector)"); seen.clear();
    check(pluto::map_join(l, f, fn) == wm && seen == v, "map_join(list)"); seen.clear();
    check(pluto::map_join(v.begin(), v.end(), f, fn) == wm && seen == v, "map_join(iterators)");
    auto same = [](const S& s) { return s; };
    check(pluto::map_join(v, f, same) == w && pluto::map_join(l, f, same) == w && pluto::map_join(v.begin(), v.end(), f, same) == w, "map_join with the identity");
}
template<class S> static void roundtrip(const std::string& s0, const std::string& f0)
{
    if (f0.empty()) return;
    const S s = cv<S>(s0), f = cv<S>(f0);
    at("join(split(\"" + esc(s0) + "\", \"" + esc(f0) + "\"))");
    check(pluto::join(pluto::split(s, f), f) == s, "joining the split pieces does not give the string back");
}
static void S02()
{
    std::vector<std::string> v; std::size_t n = some_size(5, 70); for (std::size_t i = 0; i < n; ++i) v.push_back(rnd(R().below(4), "ab"));
    if (R().chance(1, 6) && n) v.assign(n, v[0]); if (R().chance(1, 8)) v.assign(n, "");
    std::string f = rnd(R().below(4), "a,");
    join1<std::string>(v, f, "string"); join1<std::wstring>(v, f, "wstring"); if (R().chance(1, 4)) { join1<std::u16string>(v, f, "u16string"); join1<std::u32string>(v, f, "u32string"); }
#if PLUTO_STRING_OVERLOAD_FOR_UNICODE
    join1<std::u8string>(v, f, "u8string");
#endif
   
    std::string g = rnd(R().below(4), "ab"); roundtrip<std::string>(sample("ab"), g); roundtrip<std::wstring>(sample("abc"), g);
}
template<class S> static void repl(const std::string& s0, const std::string& f0, const std::string& r0, const char* k)
{
    const S f = cv<S>(f0), r = cv<S>(r0); S s = cv<S>(s0), w;
    at(std::string(k) + " replace in \"" + esc(s0) + "\" \"" + esc(f0) + "\" by \"" + esc(r0) + "\"", 20);
    if (f.empty()) { for (auto c : s) { w += r; w += c; } w += r; }
    else { std::size_t i = 0; while (i < s.size()) { bool m = i + f.size() <= s.size(); for (std::size_t j = 0; m && j < f.size(); ++j) m = s[i + j] == f[j]; if (m) { w += r; i += f.size(); } else w += s[i++]; } }
    S t = s; pluto::replace(t, f, r);
    check(t == w, "replace: got \"" + esw(t) + "\" want \"" + esw(w) + "\"");
    w.clear(); for (auto c : s) { if (f.find(c) != S::npos) w += r; else w += c; }
    t = s; pluto::replace_any_of(t, f, r);
    check(t == w, "replace_any_of: got \"" + esw(t) + "\" want \"" + esw(w) + "\"");
}
static void S03()
{
    std::string f = rnd(R().below(4), "ab"), r = rnd(R().below(5), R().chance(1, 2) ? "ab" : "abc"), s = sample(R().chance(1, 2) ? "ab" : "abc");
    if (R().chance(1, 4)) r = f + r; if (R().chance(1, 4)) r = r + f; if (R().chance(1, 8)) r = f; if (R().chance(1, 6)) r.clear(); if (R().chance(1, 8)) f.clear();
    if (s.size() > 200 && R().chance(1, 2)) s = s.substr(0, 40);
    if (R().chance(1, 4)) { s.clear(); std::size_t n = R().below(6); for (std::size_t i = 0; i < n; ++i) s += f + rnd(R().below(2), "ab"); }
    repl<std::string>(s, f, r, "string"); repl<std::wstring>(s, f, r, "wstring"); if (R().chance(1, 4)) { repl<std::u16string>(s, f, r, "u16string"); repl<std::u32string>(s, f, r, "u32string"); }
#if PLUTO_STRING_OVERLOAD_FOR_UNICODE
    repl<std::u8string>(s, f, r, "u8string");
#endif
}
template<class S> static void strip1(const std::string& s0, const char* k)
{
    typedef typename S::value_type E; const S s = cv<S>(s0);
    for (int l = 0; l < 3; ++l)
    {
        const std::locale& loc = l == 0 ? odd() : l == 1 ? std::locale::classic() : pluto::default_locale();
        auto& ct = std::use_facet<std::ctype<E>>(loc);
        std::size_t b = 0, e = s.size();
        while (b < s.size() && ct.is(std::ctype_base::space, s[b])) ++b;
        while (e > 0 && ct.is(std::ctype_base::space, s[e - 1])) --e;
        at(std::string(k) + " strip \"" + esc(s0) + "\" locale " + (l == 0 ? "custom" : l == 1 ? "classic" : "default"));
        S a = s, c = s, d = s;
        if (l == 2) { pluto::lstrip(a); pluto::rstrip(c); pluto::strip(d); } else { pluto::lstrip(a, loc); pluto::rstrip(c, loc); pluto::strip(d, loc); }
        check(a == s.substr(b), "lstrip: got \"" + esw(a) + "\""); check(c == s.substr(0, e), "rstrip: got \"" + esw(c) + "\"");
        check(d == (b < e ? s.substr(b, e - b) : S()), "strip: got \"" + esw(d) + "\"");
    }
}
static void S04()
{
    const char* ws = R().chance(1, 2) ? " s_" : " \t\n\v\f\r";
    std::string t = rnd(some_size(4, 100), ws) + (R().chance(1, 5) ? std::string() : rnd(R().below(4), "ab") + rnd(R().below(3), ws) + rnd(R().below(3), "abs ")) + rnd(some_size(4, 100), ws);
    if (R().chance(1, 8)) t += '\0';
    strip1<std::string>(t, "string"); strip1<std::wstring>(t, "wstring");
}
template<class T> static void radix(T v, const char* k)
{
    typedef unsigned __int128 U; typedef typename std::make_unsigned<T>::type UT;
    U u = (U)(UT)v;
    at(std::string(k) + " " + std::to_string((long long)v));
    auto w = [u](unsigned b, const char* p) { std::string s; U x = u; do { unsigned d = (unsigned)(x % b); s.insert(s.begin(), "0123456789abcdef"[d]); x /= b; } while (x); return p + s; };
    check(pluto::bin(v) == w(2, "0b"), "bin: got " + pluto::bin(v) + " want " + w(2, "0b")); check(pluto::oct(v) == w(8, "0o"), "oct: got " + pluto::oct(v) + " want " + w(8, "0o")); check(pluto::hex(v) == w(16, "0x"), "hex: got " + pluto::hex(v) + " want " + w(16, "0x"));
}
template<class T> static void radixs(const char* k)
{
    switch (R().below(6))
    {
    case 0: radix<T>(std::numeric_limits<T>::max() - (T)R().below(3), k); break;
    case 1: radix<T>(std::numeric_limits<T>::min() + (T)R().below(3), k); break;
    case 2: radix<T>((T)((T)1 << R().below(sizeof(T) * 8 - 1)), k); break;
    case 3: radix<T>((T)R().below(20), k); break;
    case 4: radix<T>((T)(R().next() >> R().below(64)), k); break;
    default: radix<T>((T)R().next(), k);
    }
}
static void S05()
{
    static bool once = false;
    if (!once) { once = true; for (int i = 0; i < 65536; ++i) { if (i < 256) { radix<signed char>((signed char)i, "signed char"); radix<unsigned char>((unsigned char)i, "unsigned char"); radix<char>((char)i, "char"); } if (i % 7 == 0 || thorough()) { radix<short>((short)i, "short"); radix<unsigned short>((unsigned short)i, "unsigned short"); } } 
      for (int i = 0; i < 64; ++i) { unsigned long long x = 1ull << i; for (int d = -2; d <= 2; ++d) { radix<long long>((long long)(x + d), "long long"); radix<unsigned long long>(x + d, "unsigned long long"); radix<int>((int)(x + d), "int"); radix<unsigned>((unsigned)(x + d), "unsigned"); } } }
    radixs<int>("int"); radixs<unsigned>("unsigned"); radixs<long>("long"); radixs<unsigned long>("unsigned long"); radixs<long long>("long long"); radixs<unsigned long long>("unsigned long long"); radixs<short>("short"); radixs<unsigned short>("unsigned short");
    radixs<signed char>("signed char"); radixs<wchar_t>("wchar_t"); radixs<char16_t>("char16_t"); radixs<char32_t>("char32_t");
    check(pluto::bin(true) == "0b1" && pluto::bin(false) == "0b0" && pluto::hex(true) == "0x1" && pluto::oct(false) == "0o0", "bool");
}
template<class S> static void case1(const std::string& s0, const std::string& t0, const char* k)
{
    typedef typename S::value_type E; const S s = cv<S>(s0), t = cv<S>(t0);
    for (int l = 0; l < 2; ++l)
    {
        const std::locale& loc = l == 0 ? odd() : std::locale::classic();
        auto& ct = std::use_facet<std::ctype<E>>(loc);
        at(std::string(k) + " case \"" + esc(s0) + "\" / \"" + esc(t0) + "\" locale " + (l ? "classic" : "custom"));
        S lw = s, uw = s; bool il = true, iu = true;
        for (auto& c : lw) c = ct.tolower(c); for (auto& c : uw) c = ct.toupper(c);
        for (auto c : s) { if (ct.is(std::ctype_base::upper, c)) il = false; if (ct.is(std::ctype_base::lower, c)) iu = false; }
        S a = s; pluto::lower(a, loc); check(a == lw, "lower: got \"" + esw(a) + "\""); a = s; pluto::upper(a, loc); check(a == uw, "upper: got \"" + esw(a) + "\"");
        check(pluto::is_lower(s, loc) == il, "is_lower"); check(pluto::is_upper(s, loc) == iu, "is_upper");
        {   // exactly the given characters
            std::vector<E> buf(s.size() + 2, E('a')); std::copy(s.begin(), s.end(), buf.begin() + 1); buf[0] = E('B'); buf.back() = E('b'); auto b2 = buf;
            pluto::lower(buf.data() + 1, s.size(), loc); check(buf[0] == E('B') && buf.back() == E('b') && std::equal(lw.begin(), lw.end(), buf.begin() + 1), "lower(pointer, size)");
            pluto::upper(b2.data() + 1, s.size(), loc); check(b2[0] == E('B') && b2.back() == E('b') && std::equal(uw.begin(), uw.end(), b2.begin() + 1), "upper(pointer, size)");
            exact<E> e(s); check(pluto::is_lower(e.p, e.n, loc) == il && pluto::is_upper(e.p, e.n, loc) == iu, "is_lower/is_upper(pointer, size)");
        }
        auto eqc = [&](E x, E y) { return x == y || ct.toupper(x) == ct.toupper(y); };
        for (std::size_t i = 0; i < s.size() && i < 6; ++i)
        {
            E x = s[i], y = i < t.size() ? t[i] : E('a');
            check(pluto::lower(x, loc) == ct.tolower(x) && pluto::upper(x, loc) == ct.toupper(x), "lower/upper(character)");
            check(pluto::is_lower(x, loc) == !ct.is(std::ctype_base::upper, x) && pluto::is_upper(x, loc) == !ct.is(std::ctype_base::lower, x), "is_lower/is_upper(character)");
            E ux = ct.toupper(x), uy = ct.toupper(y);
            check(pluto::is_iequal<E>(loc)(x, y) == (ux == uy), "is_iequal"); check(pluto::is_not_iequal<E>(loc)(x, y) == (ux != uy), "is_not_iequal"); check(pluto::is_iless<E>(loc)(x, y) == (ux < uy), "is_iless");
            check(pluto::is_igreater<E>(loc)(x, y) == (ux > uy), "is_igreater"); check(pluto::is_iless_equal<E>(loc)(x, y) == (ux <= uy), "is_iless_equal"); check(pluto::is_igreater_equal<E>(loc)(x, y) == (ux >= uy), "is_igreater_equal");
        }
        auto match = [&](std::size_t i) { if (i + t.size() > s.size()) return false; for (std::size_t j = 0; j < t.size(); ++j) if (!eqc(s[i + j], t[j])) return false; return true; };
        std::ptrdiff_t f = -1, g = -1; for (std::size_t i = 0; i + t.size() <= s.size(); ++i) if (match(i)) { if (f < 0) f = (std::ptrdiff_t)i; g = (std::ptrdiff_t)i; }
        if (t.empty()) g = -1;
        bool eq = s.size() == t.size() && match(0), sw = t.size() <= s.size() && match(0), ew = t.size() <= s.size() && match(s.size() - t.size());
        check(pluto::iequals(s, t, loc) == eq, "iequals"); check(pluto::istarts_with(s, t, loc) == sw, "istarts_with"); check(pluto::iends_with(s, t, loc) == ew, "iends_with");
        check(pluto::ifind(s, t, loc) == (f < 0 ? s.end() : s.begin() + f), "ifind"); check(pluto::icontains(s, t, loc) == (t.empty() || f >= 0), "icontains");
        exact<E> es(s), et(t);
        check(pluto::iequals(es.p, es.n, et.p, et.n, loc) == eq, "iequals(pointer, size)"); check(pluto::istarts_with(es.p, es.n, et.p, et.n, loc) == sw, "istarts_with(pointer, size)"); check(pluto::iends_with(es.p, es.n, et.p, et.n, loc) == ew, "iends_with(pointer, size)");
        check(pluto::ifind(es.p, es.n, et.p, et.n, loc) == (f < 0 ? es.p + es.n : es.p + f), "ifind(pointer, size)"); check(pluto::icontains(es.p, es.n, et.p, et.n, loc) == (t.empty() || f >= 0), "icontains(pointer, size)");
#if PLUTO_UTILS_HAS_CXX_17
        check(pluto::irfind(s, t, loc) == (g < 0 ? s.end() : s.begin() + g), "irfind"); check(pluto::irfind(es.p, es.n, et.p, et.n, loc) == (g < 0 ? es.p + es.n : es.p + g), "irfind(pointer, size)");
#endif
    }
    {
        auto& ct = std::use_facet<std::ctype<E>>(pluto::default_locale());
        S a = s, lw = s, uw = s; bool il = true, iu = true, eq = s.size() == t.size();
        for (auto& c : lw) c = ct.tolower(c); for (auto& c : uw) c = ct.toupper(c);
        for (auto c : s) { if (ct.is(std::ctype_base::upper, c)) il = false; if (ct.is(std::ctype_base::lower, c)) iu = false; }
        for (std::size_t i = 0; eq && i < s.size(); ++i) eq = ct.toupper(s[i]) == ct.toupper(t[i]);
        pluto::lower(a); check(a == lw, "lower()"); a = s; pluto::upper(a); check(a == uw, "upper()"); check(pluto::is_lower(s) == il && pluto::is_upper(s) == iu, "is_lower/is_upper()"); check(pluto::iequals(s, t) == eq, "iequals()");
        check(pluto::icontains(s, s) && pluto::istarts_with(s, s) && pluto::iends_with(s, s) && pluto::ifind(s, s) == s.begin(), "reflexive");
        if (!s.empty()) { E x = s[0]; check(pluto::lower(x) == ct.tolower(x) && pluto::upper(x) == ct.toupper(x) && pluto::is_lower(x) == !ct.is(std::ctype_base::upper, x) && pluto::is_upper(x) == !ct.is(std::ctype_base::lower, x), "character, default locale"); }
    }
}
static void S06()
{
    const char* al = R().chance(1, 3) ? "aAbB" : R().chance(1, 2) ? "xXzZyYwWqQ" : "abcmnoABCMNOZz34 @[`{";
    std::string s = sample(al), t = rnd(R().below(4), al);
    if (R().chance(1, 2)) { std::size_t n = R().below(s.size() + 1), o = R().below(s.size() - n + 1); if (R().chance(1, 3)) o = 0; else if (R().chance(1, 3)) o = s.size() - n; t = s.substr(o, n); for (auto& c : t) if (R().chance(1, 2)) c = R().chance(1, 2) ? up(c) : lo(c); if (R().chance(1, 4) && !t.empty()) t[R().below(t.size())] = al[R().below(strlen(al))]; }
    if (R().chance(1, 8)) s += (char)R().below(256);
    if (s.size() > 100 && R().chance(2, 3)) s = s.substr(0, 30);
    case1<std::string>(s, t, "string"); case1<std::wstring>(s, t, "wstring");
}
int main(int argc, char** argv)
{
    install();
    std::string m = argc > 1 ? argv[1] : "";
    do for (int i = 0; i < 20; ++i) { if (m == "S01") S01(); else if (m == "S02") S02(); else if (m == "S03") S03(); else if (m == "S04") S04(); else if (m == "S05") S05(); else S06(); } while (more());
    return done();
}
