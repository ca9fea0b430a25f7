#include <pluto/unicode.hpp>
#include "vp.hpp"
using namespace vp;
typedef std::vector<std::uint32_t> units;

// ---- reference, written from the Unicode Standard, Table 3-7 ----
static bool scalar(std::uint64_t c) { return c <= 0xD7FF || (0xE000 <= c && c <= 0x10FFFF); }
static void enc(std::uint32_t c, int w, units& o)
{
    if (w == 32) { o.push_back(c); return; }
    if (w == 16) { if (c < 0x10000) o.push_back(c); else { c -= 0x10000; o.push_back(0xD800 + (c >> 10)); o.push_back(0xDC00 + (c & 0x3FF)); } return; }
    if (c < 0x80) o.push_back(c);
    else if (c < 0x800) { o.push_back(0xC0 + (c >> 6)); o.push_back(0x80 + (c & 0x3F)); }
    else if (c < 0x10000) { o.push_back(0xE0 + (c >> 12)); o.push_back(0x80 + ((c >> 6) & 0x3F)); o.push_back(0x80 + (c & 0x3F)); }
    else { o.push_back(0xF0 + (c >> 18)); o.push_back(0x80 + ((c >> 12) & 0x3F)); o.push_back(0x80 + ((c >> 6) & 0x3F)); o.push_back(0x80 + (c & 0x3F)); }
}
struct row { int lo, hi, n; int r[3][2]; };
static const row rows[] = {
    {0x00, 0x7F, 1, {}}, {0xC2, 0xDF, 2, {{0x80, 0xBF}}}, {0xE0, 0xE0, 3, {{0xA0, 0xBF}, {0x80, 0xBF}}},
    {0xE1, 0xEC, 3, {{0x80, 0xBF}, {0x80, 0xBF}}}, {0xED, 0xED, 3, {{0x80, 0x9F}, {0x80, 0xBF}}}, {0xEE, 0xEF, 3, {{0x80, 0xBF}, {0x80, 0xBF}}},
    {0xF0, 0xF0, 4, {{0x90, 0xBF}, {0x80, 0xBF}, {0x80, 0xBF}}}, {0xF1, 0xF3, 4, {{0x80, 0xBF}, {0x80, 0xBF}, {0x80, 0xBF}}},
    {0xF4, 0xF4, 4, {{0x80, 0x8F}, {0x80, 0xBF}, {0x80, 0xBF}}}};
// returns units consumed; *c = value, or sets bad
static int dec(const units& s, std::size_t i, int w, std::uint32_t* c, bool* bad)
{
    *bad = false;
    if (w == 32) { *c = s[i]; *bad = !scalar(s[i]); return 1; }
    if (w == 16)
    {
        if (scalar(s[i])) { *c = s[i]; return 1; }
        if (0xD800 <= s[i] && s[i] <= 0xDBFF && i + 1 < s.size() && 0xDC00 <= s[i + 1] && s[i + 1] <= 0xDFFF)
        { *c = 0x10000 + ((s[i] - 0xD800) << 10) + (s[i + 1] - 0xDC00); return 2; }
        *bad = true; return 1;
    }
    for (const row& r : rows)
    {
        if ((int)s[i] < r.lo || (int)s[i] > r.hi || i + r.n > s.size()) continue;
        bool ok = true;
        for (int k = 1; k < r.n; ++k) ok = ok && (int)s[i + k] >= r.r[k - 1][0] && (int)s[i + k] <= r.r[k - 1][1];
        if (!ok) continue;
        std::uint32_t v = r.n == 1 ? s[i] : s[i] & (0x7F >> r.n);
        for (int k = 1; k < r.n; ++k) v = (v << 6) | (s[i + k] & 0x3F);
        *c = v;
        return r.n;
    }
    *bad = true;
    return 1;
}
static units ref(const units& s, int fw, int tw)
{
    units o;
    for (std::size_t i = 0; i < s.size();) { std::uint32_t c; bool bad; i += dec(s, i, fw, &c, &bad); enc(bad ? 0xFFFD : c, tw, o); }
    return o;
}
template<class S> static units un(const S& s)
{
    units o;
    for (auto c : s) o.push_back((std::uint32_t)(typename std::conditional<sizeof(c) == 1, unsigned char, typename std::conditional<sizeof(c) == 2, std::uint16_t, std::uint32_t>::type>::type)c);
    return o;
}
template<class E> static std::basic_string<E> mk(const units& u) { std::basic_string<E> s; for (auto c : u) s.push_back((E)c); return s; }

template<int F, int T, class FE, class TE> static void conv(const FE* p, std::size_t n, std::basic_string<TE>& o)
{
    if constexpr (F == 8 && T == 16) pluto::utf8_to_utf16(p, n, o);
    if constexpr (F == 8 && T == 32) pluto::utf8_to_utf32(p, n, o);
    if constexpr (F == 16 && T == 8) pluto::utf16_to_utf8(p, n, o);
    if constexpr (F == 32 && T == 8) pluto::utf32_to_utf8(p, n, o);
    if constexpr (F == 16 && T == 32) pluto::utf16_to_utf32(p, n, o);
    if constexpr (F == 32 && T == 16) pluto::utf32_to_utf16(p, n, o);
}
template<int F, int T, class FE, class TE> static void convs(const std::basic_string<FE>& s, std::basic_string<TE>& o)
{
    if constexpr (F == 8 && T == 16) pluto::utf8_to_utf16(s, o);
    if constexpr (F == 8 && T == 32) pluto::utf8_to_utf32(s, o);
    if constexpr (F == 16 && T == 8) pluto::utf16_to_utf8(s, o);
    if constexpr (F == 32 && T == 8) pluto::utf32_to_utf8(s, o);
    if constexpr (F == 16 && T == 32) pluto::utf16_to_utf32(s, o);
    if constexpr (F == 32 && T == 16) pluto::utf32_to_utf16(s, o);
}
static const std::uint32_t interesting[] = {0, 1, 'a', 0x7F, 0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF7, 0xF8, 0xFF, 0x7FF, 0x800,
    0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0xFFFFF, 0x100000, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF};
static units gen(int fw, std::size_t len)
{
    units s;
    auto& r = R();
    unsigned style = r.below(4);
    while (s.size() < len)
    {
        if (style == 0) s.push_back((std::uint32_t)r.next());
        else if (style == 1) s.push_back(interesting[r.below(sizeof interesting / sizeof *interesting)]);
        else
        {
            std::uint32_t c = r.chance(1, 3) ? interesting[r.below(sizeof interesting / sizeof *interesting)] : r.chance(1, 3) ? (std::uint32_t)r.below(0x800) : (std::uint32_t)r.below(0x110000);
            units t;
            enc(c, fw, t);
            if (style == 3 && r.chance(1, 4) && t.size() > 1) t.resize(1 + r.below(t.size()));
            if (style == 3 && r.chance(1, 8)) t.back() ^= 1u << r.below(8);
            for (auto x : t) s.push_back(x);
        }
    }
    for (auto& x : s) x &= fw == 8 ? 0xFFu : fw == 16 ? 0xFFFFu : 0xFFFFFFFFu;
    return s;
}
template<int F, int T, class FE, class TE> static void one(const units& s, bool quiet = false)
{
    if (!quiet) at("utf" + std::to_string(F) + "->" + std::to_string(T) + " units " + hexs(s));
    exact<FE> in(s);
    std::basic_string<TE> pre;
    std::size_t np = quiet ? 1 : R().below(4);
    for (std::size_t i = 0; i < np; ++i) pre.push_back((TE)(0x41 + i));
    std::basic_string<TE> o(pre);
    conv<F, T, FE, TE>(in.p, in.n, o);
    units want = un(pre);
    for (auto c : ref(s, F, T)) want.push_back(c);
    if (un(o) != want)
    {
        if (quiet) at("utf" + std::to_string(F) + "->" + std::to_string(T) + " units " + hexs(s));
        fail("output " + hexs(o) + " expected " + hexs(want));
    }
    if (!quiet)
    {
        std::basic_string<TE> o2(pre);
        convs<F, T, FE, TE>(mk<FE>(s), o2);
        if (un(o2) != want) fail("string overload: output " + hexs(o2) + " expected " + hexs(want));
    }
}
template<int F, int T, class FE, class TE> static void exhaustive()
{
    at("exhaustive utf" + std::to_string(F) + "->" + std::to_string(T), 600);
    std::uint64_t n = 0;
    if (F == 8)
    {
        for (std::uint32_t v = 0; v < 256; ++v) { one<F, T, FE, TE>({v}, true); ++n; }
        for (std::uint32_t v = 0; v < 65536; ++v) { one<F, T, FE, TE>({v >> 8, v & 255}, true); ++n; }
        for (std::uint32_t a = 0xC0; a < 256; ++a) for (std::uint32_t b = 0x78; b < 0xC8; ++b) for (std::uint32_t c : {0x00u, 0x41u, 0x7Fu, 0x80u, 0x9Fu, 0xA0u, 0xBFu, 0xC0u, 0xE0u, 0xFFu})
        { one<F, T, FE, TE>({a, b, c}, true); ++n; for (std::uint32_t d : {0x7Fu, 0x80u, 0xBFu, 0xC0u}) { one<F, T, FE, TE>({a, b, c, d}, true); ++n; } }
        for (std::uint32_t c = 0; c < 0x110000; c += 1)
        {
            if (c > 0x800 && !thorough() && (c & 0xFF) > 2 && (c & 0xFF) < 0xFE && (c * 2654435761u >> 28)) continue;
            units t; enc(c, 8, t); one<F, T, FE, TE>(t, true); ++n;
        }
    }
    else
    {
        for (std::uint32_t c = 0; c < (F == 16 ? 0x10000u : 0x112000u); ++c)
        {
            if (F == 32 && !thorough() && c > 0x10000 && (c & 0xFF) > 2 && (c & 0xFF) < 0xFE && (c * 2654435761u >> 28)) continue;
            one<F, T, FE, TE>({c}, true); ++n;
        }
        for (auto a : interesting) for (auto b : interesting) for (auto c : interesting) { units s{a, b, c}; for (auto& x : s) x &= F == 16 ? 0xFFFF : 0xFFFFFFFF; one<F, T, FE, TE>(s, true); ++n; }
        if (F == 16) for (std::uint32_t h = 0xD800; h < 0xDC00; ++h) for (std::uint32_t l : {0xDBFFu, 0xDC00u, 0xDDDDu, 0xDFFFu, 0xE000u}) { one<F, T, FE, TE>({h, l}, true); ++n; }
    }
    at_silent(n);
}
template<int F, int T, class FE, class TE> static void all(double frac)
{
    exhaustive<F, T, FE, TE>();
    do { for (int i = 0; i < 20; ++i) one<F, T, FE, TE>(gen(F, some_size(12, 5000))); } while (more(frac));
}

// ---- U04 ----
template<class E> constexpr int width() { return sizeof(E) * 8; }
template<class FE, class TE> static void named(const units& s0, std::basic_string<TE> (*byptr)(const FE*, std::size_t), std::basic_string<TE> (*bystr)(const std::basic_string<FE>&))
{
    units s = s0;
    for (auto& x : s) x &= width<FE>() == 8 ? 0xFFu : width<FE>() == 16 ? 0xFFFFu : 0xFFFFFFFFu;
    at("conversion of " + std::to_string(width<FE>()) + " to " + std::to_string(width<TE>()) + " bit string, units " + hexs(s));
    units want = width<FE>() == width<TE>() ? s : ref(s, width<FE>(), width<TE>());
    exact<FE> in(s);
    auto o = byptr(in.p, in.n);
    if (un(o) != want) fail("pointer overload: " + hexs(o) + " expected " + hexs(want));
    auto o2 = bystr(mk<FE>(s));
    if (un(o2) != want) fail("string overload: " + hexs(o2) + " expected " + hexs(want));
}
#define N(fn, FE, TE) named<FE, TE>(gen(width<FE>(), R().chance(1, 6) ? some_size(20, 3000) : R().below(9)), [](const FE* p, std::size_t n) { return pluto::fn(p, n); }, [](const std::basic_string<FE>& s) { return pluto::fn(s); });
static void u04()
{
    do
    {
        for (int i = 0; i < 10; ++i)
        {
            N(str, wchar_t, char) N(str, char8_t, char) N(str, char16_t, char) N(str, char32_t, char)
            N(wstr, char, wchar_t) N(wstr, char8_t, wchar_t) N(wstr, char16_t, wchar_t) N(wstr, char32_t, wchar_t)
            N(u8str, char, char8_t) N(u8str, wchar_t, char8_t) N(u8str, char16_t, char8_t) N(u8str, char32_t, char8_t)
            N(u16str, char, char16_t) N(u16str, wchar_t, char16_t) N(u16str, char8_t, char16_t) N(u16str, char32_t, char16_t)
            N(u32str, char, char32_t) N(u32str, wchar_t, char32_t) N(u32str, char8_t, char32_t) N(u32str, char16_t, char32_t)
        }
    } while (more());
}
// ---- U05 ----
static bool wellformed(const units& s, int w) { for (std::size_t i = 0; i < s.size();) { std::uint32_t c; bool bad; i += dec(s, i, w, &c, &bad); if (bad) return false; } return true; }
template<int F, int T, class FE, class TE> static void rt(bool every)
{
    auto go = [](const units& s, bool quiet) {
        if (!quiet) at("utf" + std::to_string(F) + "->" + std::to_string(T) + " and back, units " + hexs(s));
        exact<FE> in(s);
        std::basic_string<TE> o;
        conv<F, T, FE, TE>(in.p, in.n, o);
        bool ok = wellformed(un(o), T);
        std::basic_string<FE> b;
        if (ok && wellformed(s, F)) { conv<T, F, TE, FE>(o.data(), o.size(), b); ok = un(b) == s; }
        if (!ok) { if (quiet) at("utf" + std::to_string(F) + "->" + std::to_string(T) + " and back, units " + hexs(s)); fail("not well-formed or not returned: intermediate " + hexs(o) + " back " + hexs(b)); }
    };
    if (every)
    {
        at("every scalar value utf" + std::to_string(F) + "->" + std::to_string(T), 600);
        for (std::uint32_t c = 0; c < 0x110000; ++c) if (scalar(c)) { units t; enc(c, F, t); go(t, true); }
        if (F == 16) for (std::uint32_t c = 0xD800; c < 0xE000; ++c) { go({c}, true); go({c, 0x41}, true); go({0x41, c}, true); go({c, 0xDC00}, true); go({c, 0xD800}, true); }
        if (F == 8) for (std::uint32_t c = 0; c < 65536; ++c) { go({c >> 8, c & 255}, true); go({c >> 8, c & 255, 0x80}, true); go({c >> 8, c & 255, 0x80, 0xBF}, true); }
        if (F == 32) for (std::uint32_t c : {0xD800u, 0xDFFFu, 0x110000u, 0x120000u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0x80000041u}) go({c}, true);
        at_silent(0x110000);
    }
    for (int i = 0; i < 20; ++i) go(gen(F, some_size(12, 3000)), false);
}
int main(int argc, char** argv)
{
    install();
    std::string m = argc > 1 ? argv[1] : "";
    if (m == "U01")
    {
        all<8, 16, char, char16_t>(0.3); all<8, 32, char, char32_t>(0.6); all<8, 32, char8_t, wchar_t>(0.9);
        for (int i = 0; i < 500; ++i) { one<8, 16, unsigned char, char16_t>(gen(8, 8)); one<8, 16, char8_t, char16_t>(gen(8, 8)); one<8, 32, unsigned char, wchar_t>(gen(8, 8)); one<8, 32, char, wchar_t>(gen(8, 8)); }
    }
    else if (m == "U02")
    {
        all<16, 8, char16_t, char>(0.3); all<32, 8, char32_t, char>(0.6); all<32, 8, wchar_t, char8_t>(0.9);
        for (int i = 0; i < 500; ++i) { one<16, 8, unsigned short, char8_t>(gen(16, 8)); one<16, 8, char16_t, char8_t>(gen(16, 8)); one<32, 8, unsigned, char>(gen(32, 8)); one<32, 8, wchar_t, char>(gen(32, 8)); }
    }
    else if (m == "U03")
    {
        all<16, 32, char16_t, char32_t>(0.4); all<32, 16, char32_t, char16_t>(0.9);
        for (int i = 0; i < 500; ++i) { one<16, 32, char16_t, wchar_t>(gen(16, 8)); one<32, 16, wchar_t, char16_t>(gen(32, 8)); }
    }
    else if (m == "U04") u04();
    else
    {
        bool first = true;
        do
        {
            rt<8, 16, char, char16_t>(first); rt<8, 32, char, char32_t>(first); rt<16, 8, char16_t, char>(first);
            rt<16, 32, char16_t, char32_t>(first); rt<32, 8, char32_t, char>(first); rt<32, 16, char32_t, char16_t>(first);
            first = false;
        } while (more());
    }
    return done();
}
