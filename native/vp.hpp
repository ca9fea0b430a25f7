// Support for the native conformance passes (bounded; they never count as proof).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <chrono>
#include <functional>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <unistd.h>

namespace vp
{
    inline std::uint64_t envu(const char* n, std::uint64_t d) { const char* s = getenv(n); return s ? strtoull(s, nullptr, 10) : d; }

    struct rng
    {
        std::uint64_t s;
        explicit rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
        std::uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
        std::uint64_t below(std::uint64_t n) { return n ? (next() >> 11) % n : 0; }
        std::int64_t in(std::int64_t a, std::int64_t b) { return a + (std::int64_t)below((std::uint64_t)(b - a) + 1); }
        bool chance(unsigned a, unsigned b) { return below(b) < a; }
    };

    inline rng& R() { static rng r(envu("VP_SEED", 1)); return r; }
    inline bool thorough() { const char* s = getenv("VP_TIER"); return s && std::string(s) == "thorough"; }
    inline std::string scratch() { const char* s = getenv("VP_SCRATCH"); return s ? s : "."; }

    inline const std::vector<std::uint64_t>& consts()
    {
        static std::vector<std::uint64_t> v = [] {
            std::vector<std::uint64_t> r;
            const char* s = getenv("VP_CONSTS");
            std::stringstream ss(s ? s : "");
            std::string t;
            while (std::getline(ss, t, ',')) if (!t.empty()) r.push_back(strtoull(t.c_str(), nullptr, 10));
            if (r.empty()) r.push_back(1);
            return r;
        }();
        return v;
    }

    struct clk
    {
        std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
        double s() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
    };
    inline clk& C() { static clk c; return c; }
    inline double budget() { return (double)envu("VP_SECS", 10); }
    inline bool more(double frac = 1.0) { return C().s() < budget() * frac; }

    inline std::uint64_t& cases() { static std::uint64_t n = 0; return n; }
    inline std::unordered_set<std::uint64_t>& seen() { static std::unordered_set<std::uint64_t> s; return s; }
    inline char* desc() { static char d[4096]; return d; }

    inline void onsig(int sig)
    {
        const char* k = sig == SIGALRM ? "FAIL the call did not return: " : "FAIL crashed: ";
        (void)!write(1, k, strlen(k));
        (void)!write(1, desc(), strlen(desc()));
        (void)!write(1, "\n", 1);
        _exit(1);
    }
    inline void install()
    {
        signal(SIGALRM, onsig);
        signal(SIGABRT, onsig);
#if !defined(__SANITIZE_ADDRESS__)
        signal(SIGSEGV, onsig);
#endif
        setvbuf(stdout, nullptr, _IOLBF, 0);
        C();
    }
    inline std::string esc(const std::string& s)
    {
        std::string o;
        char b[8];
        for (unsigned char c : s.substr(0, 200)) { if (c >= 32 && c < 127 && c != '\\') o += (char)c; else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } }
        if (s.size() > 200) o += "...(" + std::to_string(s.size()) + ")";
        return o;
    }
    template<class S> std::string hexs(const S& s)
    {
        std::ostringstream o;
        o << std::hex << "[";
        std::size_t n = 0;
        for (auto c : s) { if (n++ > 60) { o << " ..."; break; } o << (n > 1 ? " " : "") << (unsigned long long)(typename std::make_unsigned<decltype(c)>::type)c; }
        o << "]";
        return o.str();
    }
    // starts a case: d describes its input
    inline void at(const std::string& d, unsigned secs = 60)
    {
        snprintf(desc(), 4095, "%s", d.c_str());
        ++cases();
        if (seen().size() < 2000000) seen().insert(std::hash<std::string>{}(d));
        if (cases() <= 3 || (cases() & (cases() - 1)) == 0) if (cases() < 5000) printf("SAMPLE %s\n", d.substr(0, 300).c_str());
        alarm(secs);
    }
    inline void at_silent(std::uint64_t n) { cases() += n; }
    [[noreturn]] inline void fail(const std::string& m)
    {
        printf("FAIL %s | input: %s\n", m.c_str(), desc());
        fflush(stdout);
        _exit(1);
    }
    inline void check(bool b, const std::string& m) { if (!b) fail(m); }
    inline int done()
    {
        alarm(0);
        printf("CASES %llu DISTINCT %llu\n", (unsigned long long)cases(), (unsigned long long)seen().size());
        fflush(stdout);
        return 0;
    }
    // exact-size heap copy, so that AddressSanitizer sees any access outside it
    template<class E> struct exact
    {
        E* p; std::size_t n;
        template<class S> explicit exact(const S& s) : p((E*)malloc(s.size() * sizeof(E) + (s.size() ? 0 : 1))), n(s.size()) { std::size_t i = 0; for (auto c : s) p[i++] = (E)c; }
        ~exact() { free(p); }
        exact(const exact&) = delete;
    };
    inline std::size_t some_size(std::size_t small, std::size_t big)
    {
        auto& r = R();
        switch (r.below(8))
        {
        case 0: return 0;
        case 1: case 2: case 3: case 4: return r.below(small + 1);
        case 5: return r.below(big + 1);
        default: { auto c = consts()[r.below(consts().size())]; std::size_t v = (std::size_t)(c + r.below(3) - 1); return v <= big ? v : r.below(small + 1); }
        }
    }
}
