// L01-L05 on the real logger: random programs with real files in a scratch directory, under seeded schedules with failing file
// operations (VP_SCHED), or under ThreadSanitizer with real threads.
#ifdef VP_SCHED
#include "sched.hpp"
#else
#include "vp.hpp"
#endif
#include <pluto/logger.hpp>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <fcntl.h>
#include <unistd.h>
#include <cstring>
#include <sys/stat.h>
#include <sys/uio.h>

namespace fs = pluto::filesystem;
using pluto::log_level;
using logger = pluto::logger;

static std::string base_dir;
static std::string fresh_dir()
{
    static int n = 0;
    std::string d = base_dir + "/d" + std::to_string(n++);
    fs::create_directories(d);
    return d;
}
static std::string slurp(const std::string& p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
static void spill(const std::string& p, const std::string& t) { std::ofstream f(p, std::ios::binary); f << t; }
static std::map<std::string, std::string> listing(const std::string& d)
{
    std::map<std::string, std::string> m;
    for (auto& e : fs::directory_iterator(d)) m[e.path().filename().string()] = fs::is_directory(e.path()) ? "<dir>" : slurp(e.path().string());
    return m;
}

#ifdef VP_SCHED
static void bad(const std::string& m) { vp::fail(m + "; schedule " + vs::W().name); }
static void unlocked(const char* what) { if (vs::on() && vs::holds_any()) bad(std::string(what) + " with a lock held"); }
static void nap(unsigned us) { vs::sleep_until(vs::W().now + us * 1000ll); }
static void spin(const char* what, std::function<bool()> f) { for (int i = 0; !f(); ++i) { if (i > 4000) bad(std::string("never happens: ") + what); nap(50); } }

// ---- failing file operations ------------------------------------------------------------------------------------------
struct faults { unsigned open = 0, other = 0, pos = 0; unsigned long count = 0; };
static faults F;
static bool ours(const char* p) { return p && !base_dir.empty() && strncmp(p, base_dir.c_str(), base_dir.size()) == 0; }
static bool harness = false;                   // the harness itself looks at files
struct quiet { bool o = harness; quiet() { harness = true; } ~quiet() { harness = o; } };
static bool op(const char* what, const char* p, unsigned one_in)
{
    if (!vs::on() || harness || !ours(p)) return false;
    unlocked(what);
    vs::point();
    if (one_in && vs::W().r.chance(1, one_in)) { ++F.count; return true; }
    return false;
}
static std::map<int, bool>& logfd() { static std::map<int, bool> m; return m; }
extern "C"
{
    FILE* fopen64(const char* p, const char* m)
    {
        static auto f = vs::real<FILE* (*)(const char*, const char*)>("fopen64");
        if (op("a file is opened", p, F.open)) { errno = EACCES; return nullptr; }
        FILE* r = f(p, m);
        if (r && vs::on() && !harness && ours(p)) logfd()[fileno(r)] = true;
        return r;
    }
    FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }
    int rename(const char* a, const char* b)
    {
        static auto f = vs::real<int (*)(const char*, const char*)>("rename");
        if (op("a file is renamed", a, F.other)) { errno = EACCES; return -1; }
        return f(a, b);
    }
    int remove(const char* a)
    {
        static auto f = vs::real<int (*)(const char*)>("remove");
        if (op("a file is removed", a, F.other)) { errno = EACCES; return -1; }
        return f(a);
    }
    int mkdir(const char* a, mode_t m)
    {
        static auto f = vs::real<int (*)(const char*, mode_t)>("mkdir");
        if (op("a directory is created", a, F.other)) { errno = EACCES; return -1; }
        return f(a, m);
    }
    off64_t lseek64(int fd, off64_t o, int w) noexcept
    {
        static auto f = vs::real<off64_t (*)(int, off64_t, int)>("lseek64");
        if (w == SEEK_CUR && o == 0 && vs::on() && !harness && F.pos && logfd().count(fd) && vs::W().r.chance(1, F.pos)) { ++F.count; errno = EIO; return -1; }
        return f(fd, o, w);
    }
    off_t lseek(int fd, off_t o, int w) noexcept { return lseek64(fd, o, w); }
}
#else
static void bad(const std::string& m) { vp::fail(m); }
static void unlocked(const char*) {}
struct quiet {};
#endif

// ---- expected and received entries --------------------------------------------------------------------------------------
struct want { std::string file; int level; const char* sf; int line; const char* fn; std::string msg; std::size_t tid; logger::clock_type::time_point t0, t1; long inv, ret; int client; int seq; };
static std::string show(const want& w) { return "\"" + vp::esc(w.msg) + "\" at level " + std::to_string(w.level) + " for " + w.file; }

static const log_level LV[] = { log_level::verbose, log_level::trace, log_level::debug, log_level::info, log_level::notice, log_level::warning, log_level::error, log_level::critical, log_level::fatal, log_level::off, log_level::header };

struct got { std::string text; };
static std::string some_text(vp::rng& r)
{
    std::size_t n = r.chance(1, 6) ? 0 : r.chance(1, 5) ? r.below(5000) : r.below(40);
    if (r.chance(1, 8)) { auto c = vp::consts()[r.below(vp::consts().size())] + r.below(3) - 1; if (c < 6000) n = (std::size_t)c; }
    std::string s;
    for (std::size_t i = 0; i < n; ++i) s += r.chance(1, 30) ? "%s\n{}\\"[r.below(6)] : (char)('a' + r.below(26));
    if (n && r.chance(1, 8)) s[r.below(n)] = '\0';
    return s;
}
// what a C string of these characters is
static std::string z(const std::string& s) { return s.c_str(); }

// L01: one entry per accepted call, unaltered. The entry is captured by the log writer.
static void l01(vp::rng& r)
{
    struct cap { pluto::log_entry e; };
    std::vector<cap> caught;
    std::vector<want> wants;
    std::string d = fresh_dir();
    static const char* files[] = { "a.log", "b.log", "" };
    std::string names[2] = { d + "/" + files[0], d + "/sub/" + files[1] };
    log_level cur = log_level::verbose;
    int sync = 0;
    for (int i = 0; i + 2 < (int)(sizeof LV / sizeof *LV); ++i) if (!(LV[i] < LV[i + 1])) bad("the named levels " + std::to_string(i) + " and the next are not in order");
    {
        logger L;
        L.log_writer([&](std::ostream& o, const pluto::log_entry& e) { unlocked("the log writer is called"); caught.push_back({ e }); o << e.message.size(); });
        L.header_writer([](std::ostream& o) { o << "H"; });
        bool later = r.chance(1, 2);
        if (later) L.buffer_flush_size(1000000);
        int n = 1 + (int)r.below(12);
        for (int i = 0; i < n; ++i)
        {
            if (r.chance(1, 3)) { cur = LV[r.below(11)]; L.level(cur); if (L.level() != cur) bad("level() does not return the level that was set"); }
            log_level lv = LV[r.below(11)];
            std::string f = names[r.below(2)];
            std::string m = some_text(r);
            static const char* srcs[] = { "x.cpp", "/p/y.cpp", "" };
            pluto::source_info si{ srcs[r.below(3)], (int)r.in(-5, 100000), srcs[r.below(3)] };
            bool ok = (int)cur <= (int)lv;
            if (L.should_log(lv) != ok) bad("should_log(" + std::to_string((int)lv) + ") at level " + std::to_string((int)cur));
            want w{ f, (int)lv, si.file, si.line, si.function, m, pluto::thread_id(), logger::clock_type::now(), {}, 0, 0, 0, 0 };
            log_level cur0 = cur;
            bool indirect = false, twice = false, macro = false;
            auto call = [&]
            {
                w.tid = pluto::thread_id();
#if PLUTO_LOGGER_HIDE_SOURCE_INFO
                if (r.chance(2, 3))
                {
                    // the overloads without source information
                    w.sf = ""; w.line = 0; w.fn = ""; macro = true;
                    switch (r.below(4))
                    {
                    case 0: L.write(f, lv, m); break;
                    case 1: { std::string a = z(m.substr(0, m.size() / 2)), b = z(m.substr(m.size() / 2)); L.writef(f, lv, "%s%d|%s", a.c_str(), (int)lv, b.c_str()); w.msg = a + std::to_string((int)lv) + "|" + b; break; }
                    case 2: { auto s = L.stream(f, lv); s << m.substr(0, m.size() / 3); s << m.substr(m.size() / 3); break; }
#if PLUTO_UTILS_HAS_FORMAT
                    default: L.format(f, lv, "{}{}", m, 7); w.msg = m + "7"; break;
#else
                    default: L.write(f, lv, m); break;
#endif
                    }
                    return;
                }
#endif
                switch (r.below(10))
                {
                case 8:
                {
                    // the file is named by a temporary; the stream outlives it
                    auto&& s = L.stream(std::string(f), lv, si);
                    std::string other(f.size(), 'Z'), more(f.size() + 1, 'Y');
                    s << m.substr(0, m.size() / 2);
                    std::string again(f.size(), 'X');
                    s << m.substr(m.size() / 2);
                    if (other.empty() || more.empty() || again.empty()) bad("strings");
                    break;
                }
                case 9:
                {
                    int at = 0;
                    switch (r.below(3))
                    {
                    case 0: PLUTO_LOG_WRITE_WITH(L, f, info, m); at = __LINE__; break;
                    case 1: PLUTO_LOG_WRITEF_WITH(L, f, info, "%s", m.c_str()); at = __LINE__; w.msg = z(m); break;
                    default: PLUTO_LOG_STREAM_WITH(L, f, info, m.substr(0, 3) << (m.size() > 3 ? m.substr(3) : "")); at = __LINE__; break;
                    }
                    w.level = (int)log_level::info; ok = (int)cur <= (int)log_level::info; w.sf = __FILE__; w.line = at; w.fn = ""; macro = true;
#if PLUTO_LOGGER_HIDE_SOURCE_INFO
                    w.sf = ""; w.line = 0;
#endif
                    break;
                }
                case 0: case 1: L.write(f, lv, si, m); break;
                case 2: L.writef(f, lv, si, "%s", m.c_str()); w.msg = z(m); break;
                case 3: { std::string a = z(m.substr(0, m.size() / 2)), b = z(m.substr(m.size() / 2)); L.writef(f, lv, si, "%s%d|%s", a.c_str(), (int)lv, b.c_str()); w.msg = a + std::to_string((int)lv) + "|" + b; break; }
                case 4: { std::size_t k = vp::some_size(30, 5000); w.msg = std::string(k, ' '); L.writef(f, lv, si, "%*s", (int)k, ""); break; }
#if PLUTO_UTILS_HAS_FORMAT
                case 5: { int x = 7; L.format(f, lv, si, "{}", m); (void)x; break; }
#endif
                case 6:
                {
                    auto s = L.stream(f, lv, si);
                    std::string a = m.substr(0, m.size() / 3);
                    s << a;
                    if (r.chance(1, 3)) { w.msg = a; s.end(); ok = (int)cur <= (int)lv; indirect = true; s << "x"; if (r.chance(1, 2)) s.end();
                        // the level changes between end and destruction: still one entry at most, decided when it ended
                        if (r.chance(1, 2)) { cur = LV[r.below(11)]; L.level(cur); } twice = true; break; }
                    s << m.substr(m.size() / 3);
                    if (r.chance(1, 4)) { cur = LV[r.below(11)]; L.level(cur); ok = (int)cur <= (int)lv; }
                    break;
                }
                default: { (L.stream(f, lv, si) << m).end(); break; }
                }
            };
            if (r.chance(1, 5)) { std::thread t(call); t.join(); } else call();
            (void)cur0; (void)indirect; (void)twice;
            w.t1 = logger::clock_type::now();
            unlocked("a log call returns");
            w.client = macro; if (ok) wants.push_back(w);
        }
        (void)sync;
        if (L.num_discarded_logs() != 0) bad("logs are discarded without a maximum buffer size");
        vp::check(L.is_logging(), "a running logger is not logging");
    }
    // entries of one file keep their order
    for (auto& nm : names)
    {
        std::vector<want*> ws;
        for (auto& w : wants) if (w.file == nm) ws.push_back(&w);
        std::size_t lines = 0;
        (void)lines;
        std::vector<cap*> cs;
        // the writer does not learn the file: match by order over both files through the position in the file
        (void)cs;
        std::string content;
        { quiet q; content = slurp(nm); }
        std::string expect;
        if (!ws.empty()) { expect = "H\n"; }
        for (auto w : ws) expect += std::to_string(w->msg.size()) + "\n";
        if (content != expect) bad("file " + nm + " has \"" + vp::esc(content) + "\" instead of \"" + vp::esc(expect) + "\"");
    }
    if (caught.size() != wants.size()) bad(std::to_string(caught.size()) + " entries were written for " + std::to_string(wants.size()) + " accepted calls");
    // each wanted entry is matched once, in order per file
    std::vector<bool> used(caught.size());
    for (auto& w : wants)
    {
        bool hit = false;
        for (std::size_t i = 0; i < caught.size() && !hit; ++i)
        {
            auto& e = caught[i].e;
            if (used[i] || e.message != w.msg || (int)e.level != w.level || (w.client ? strcmp(e.source.file, w.sf) != 0 : e.source.file != w.sf || e.source.function != w.fn) || e.source.line != w.line || e.thread_id != w.tid || e.time < w.t0 || e.time > w.t1) continue;
            used[i] = hit = true;
        }
        if (!hit) bad("no entry received matches the accepted log " + show(w));
    }
}

#ifdef VP_SCHED
static long T = 0;
// L02/L05: many clients, failing files, schedules
static void l02(vp::rng& r, bool stress)
{
    std::string d;
    { quiet q; d = fresh_dir(); }
    F = faults();
    logfd().clear();
    int K = 1 + (int)r.below(2), C = 1 + (int)r.below(3), N = 1 + (int)r.below(stress ? 12 : 6);
    std::vector<std::string> names;
    for (int i = 0; i < K; ++i) names.push_back(d + (r.chance(1, 3) ? "/s" + std::to_string(i) : "") + "/f" + std::to_string(i) + (r.chance(1, 2) ? ".log" : ""));
    std::map<std::string, std::string> before;
    if (r.chance(1, 3)) { quiet q; fs::create_directories(fs::path(names[0]).parent_path()); spill(names[0], before[names[0]] = "old\n"); }
    std::vector<want> wants;
    std::vector<std::string> handed;                 // message text in order of writing, all files
    std::vector<std::string> streamed;
    bool header = r.chance(1, 2);
    std::size_t rot = r.chance(1, 3) ? 1 + r.below(40) : 0;
    bool posfault = !rot || r.chance(1, 2);
    long headers = 0;
    auto writer = [&](std::ostream& o, const pluto::log_entry& e)
    {
        unlocked("the log writer is called");
        if (r.chance(1, 3)) vs::point();
        handed.push_back(e.message);
        o << e.message;
    };
    auto hwriter = [&](std::ostream& o) { unlocked("the header writer is called"); ++headers; o << "HEAD"; };
    {
        logger L;
        L.log_writer(writer).header_writer(hwriter).write_header(header).file_rotation_size(rot).file_rotation_limit(1000);
        unlocked("a setter returns");
        if (r.chance(1, 2)) L.buffer_flush_size(r.below(5));
        if (r.chance(1, 2)) { F.open = 2 + (unsigned)r.below(4); F.other = r.chance(1, 2) ? 3 + (unsigned)r.below(5) : 0; F.pos = posfault && r.chance(1, 2) ? 6 + (unsigned)r.below(20) : 0; }
        std::vector<std::thread> cs;
        auto body = [&](int c)
        {
            vp::rng q(r.next() + (unsigned)c);
            for (int i = 0; i < N; ++i)
            {
                std::string f = names[q.below(names.size())];
                std::string m = "m" + std::to_string(c) + "." + std::to_string(i);
                want w{ f, 0, "", 0, "", m, 0, {}, {}, ++T, 0, c, i };
                std::size_t k = wants.size();
                wants.push_back(w);
                L.write(f, log_level::info, pluto::source_info{ "", 0, "" }, m);
                wants[k].ret = ++T;
                unlocked("a log call returns");
                if (q.chance(1, 8)) L.buffer_flush_size(q.below(6));
                if (q.chance(1, 12)) L.log_writer(writer);
                if (q.chance(1, 12)) L.header_writer(hwriter);
                if (q.chance(1, 12)) { (void)L.log_writer(); (void)L.header_writer(); }
                unlocked("a call returns");
                if (q.chance(1, 5)) nap(10);
            }
        };
        for (int c = 1; c < C; ++c) cs.emplace_back(body, c);
        body(0);
        for (auto& c : cs) c.join();
        F = faults();                                 // the last attempts succeed
    }
    quiet q;
    std::map<std::string, int> at;
    for (std::size_t i = 0; i < handed.size(); ++i) { if (at.count(handed[i])) bad("entry " + handed[i] + " is written twice"); at[handed[i]] = (int)i; }
    for (auto& w : wants) if (!at.count(w.msg)) bad("accepted entry " + w.msg + " was never written");
    if (handed.size() != wants.size()) bad("more entries written than accepted");
    for (auto& a : wants) for (auto& b : wants) if (a.file == b.file && a.ret < b.inv && at[a.msg] > at[b.msg]) bad("entry " + b.msg + " is written before " + a.msg + " which was accepted earlier");
    for (auto& nm : names)
    {
        std::vector<std::string> order;
        for (auto& m : handed) for (auto& w : wants) if (w.msg == m && w.file == nm) order.push_back(m);
        fs::path p(nm);
        int hi = 0;
        auto part = [&](int i) { return (p.parent_path() / (p.stem().string() + (i ? "_" + std::to_string(i) : "") + p.extension().string())).string(); };
        while (hi < 400 && fs::exists(part(hi))) ++hi;
        for (int i = hi; i < hi + 20; ++i) if (fs::exists(part(i))) hi = i + 1;   // a failed rotation may leave a gap
        std::string all;
        for (int i = hi; i-- > 0;)
        {
            if (!fs::exists(part(i))) continue;
            std::string c = slurp(part(i));
            bool old = before.count(nm) && c.compare(0, 4, "old\n") == 0;
            if (header && !c.empty() && !old) { if (c.compare(0, 5, "HEAD\n") != 0) bad("file " + part(i) + " starts without its header: " + vp::esc(c)); c = c.substr(5); }
            if (c.find("HEAD") != std::string::npos) bad("file " + part(i) + " has a header where it was not empty: " + vp::esc(c));
            all += c;
        }
        std::string expect = before.count(nm) ? before[nm] : "";
        for (auto& m : order) expect += m + "\n";
        if (all != expect) bad("the files of " + nm + " contain \"" + vp::esc(all) + "\" instead of \"" + vp::esc(expect) + "\"");
    }
}

// L03: the cap and the counter
static void l03(vp::rng& r)
{
    F = faults();
    std::string d;
    { quiet q; d = fresh_dir(); }
    int written = 0;
    std::set<std::string> seen;
    std::size_t total = 0, lost = 0;
    bool check_all = true;
    {
        logger L;
        L.log_writer([&](std::ostream& o, const pluto::log_entry& e) { ++written; if (!seen.insert(e.message).second) bad("written twice"); o << e.message; });
        L.buffer_flush_size(100000);
        int rounds = 1 + (int)r.below(3), id = 0;
        std::map<std::string, std::size_t> inbuf;
        std::size_t counted = 0;
        for (int k = 0; k < rounds; ++k)
        {
            std::size_t M = r.below(5), files = 1 + r.below(3);
            if (r.chance(1, 8)) M = (std::size_t)-1;
            L.buffer_max_size(M);
            if (L.buffer_max_size() != M) bad("buffer_max_size() does not return what was set");
            for (int i = 0; i < (int)r.below(14); ++i)
            {
                std::string f = d + "/f" + std::to_string(r.below(files));
                if (r.chance(1, 6)) { M = r.below(6); L.buffer_max_size(M); }
                L.write(f, log_level::info, pluto::source_info{ "", 0, "" }, std::to_string(id++));
                ++total;
                if (M == 0 || inbuf[f] < M) ++inbuf[f]; else { ++lost; ++counted; }
                if (L.num_discarded_logs() != counted) bad("num_discarded_logs() is " + std::to_string(L.num_discarded_logs()) + ", expected " + std::to_string(counted));
            }
            if (r.chance(1, 3)) { L.reset_num_discarded_logs(); counted = 0; if (L.num_discarded_logs() != 0) bad("the counter is not reset"); }
            if (r.chance(1, 2))
            {
                // lowering the flush size to what is buffered gets those entries written
                std::size_t most = 0;
                for (auto& x : inbuf) most = std::max(most, x.second);
                if (most)
                {
                    std::size_t fl = 1 + r.below(most);
                    int due = 0;
                    for (auto& x : inbuf) if (x.second >= fl) due += (int)x.second;
                    int w0 = written;
                    L.buffer_flush_size(fl);
                    spin("buffers that reached the flush size are written", [&] { return written >= w0 + due; });
                    nap(200000);                       // the logging thread is asleep again
                    for (auto& x : inbuf) if (x.second >= fl) x.second = 0;
                    if (written != w0 + due) bad("buffers below the flush size are written");
                    // exactly reaching the flush size by logging gets the entries written
                    if (r.chance(1, 2))
                    {
                        L.buffer_max_size(0); M = 0;
                        auto& n = inbuf[d + "/f0"];
                        int w1 = written;
                        while (n < fl) { L.write(d + "/f0", log_level::info, pluto::source_info{ "", 0, "" }, std::to_string(id++)); ++total; ++n; }
                        spin("a buffer reaching the flush size is written", [&] { return written >= w1 + (int)n; });
                        nap(200000);
                        n = 0;
                    }
                    L.buffer_flush_size(100000);
                }
            }
        }
    }
    (void)check_all;
    if ((std::size_t)written != total - lost) bad(std::to_string(written) + " entries written of " + std::to_string(total) + " with " + std::to_string(lost) + " discarded");
}

// L03 with concurrent clients: every call is either written or counted
static void l03c(vp::rng& r)
{
    F = faults();
    std::string d;
    { quiet q; d = fresh_dir(); }
    std::size_t written = 0, total = 0, lost = 0;
    std::size_t M = 1 + r.below(3);
    {
        logger L;
        L.log_writer([&](std::ostream& o, const pluto::log_entry& e) { ++written; if (r.chance(1, 2)) nap(20); o << e.message; });
        L.buffer_max_size(M);
        L.buffer_flush_size(1 + r.below(M));
        std::vector<std::thread> cs;
        auto body = [&] { for (int i = 0; i < 6; ++i) { L.write(d + "/f", log_level::info, pluto::source_info{ "", 0, "" }, "x"); ++total; } };
        for (int i = 0; i < 2; ++i) cs.emplace_back(body);
        body();
        for (auto& c : cs) c.join();
        lost = L.num_discarded_logs();
    }
    if (written + lost != total) bad(std::to_string(total) + " logs, " + std::to_string(written) + " written and " + std::to_string(lost) + " counted as discarded");
}

// L05: logs arriving while the logging thread writes are not forgotten
static void l05w(vp::rng& r)
{
    F = faults();
    std::string d;
    { quiet q; d = fresh_dir(); }
    std::size_t written = 0, total = 0;
    std::size_t fl = r.below(3), files = 1 + r.below(3);     // 0: whatever is logged is written
    std::map<std::string, std::size_t> per, done;
    logger L;
    L.log_writer([&](std::ostream& o, const pluto::log_entry& e) { if (r.chance(1, 2)) nap(30); ++written; ++done[e.message]; o << e.message; });
    L.buffer_flush_size(fl);
    auto body = [&](int n) { for (int i = 0; i < n; ++i) { std::string f = d + "/f" + std::to_string(r.below(files)); ++total; ++per[f]; L.write(f, log_level::info, pluto::source_info{ "", 0, "" }, f); if (r.chance(1, 3)) nap(10 + (unsigned)r.below(60)); } };
    std::thread t(body, 1 + (int)r.below(5));
    body(1 + (int)r.below(5));
    t.join();
    spin("a buffer that reached the flush size while files were written is written", [&] { for (auto& x : per) if (x.second > done[x.first] && x.second - done[x.first] >= fl) return false; return true; });
    if (written > total) bad("more written than logged");
}

// L05: a writer that logs itself, a destructor racing with the logging thread, setters
static void l05(vp::rng& r)
{
    F = faults();
    std::string d;
    { quiet q; d = fresh_dir(); }
    int depth = 0;
    std::unique_ptr<logger> L(new logger);
    unlocked("the constructor returns");
    bool nested = r.chance(1, 3), inside = false;
    L->log_writer([&](std::ostream& o, const pluto::log_entry& e)
    {
        unlocked("the log writer is called");
        if (nested && !inside && depth++ < 3) { inside = true; L->write(d + "/n", log_level::info, pluto::source_info{ "", 0, "" }, "nested"); (void)L->log_writer(); inside = false; }
        o << e.message;
    });
    int n = (int)r.below(5);
    for (int i = 0; i < n; ++i)
    {
        L->write(d + "/f" + std::to_string(r.below(2)), log_level::info, pluto::source_info{ "", 0, "" }, "x");
        if (r.chance(1, 3)) L->buffer_flush_size(r.below(4));
        if (r.chance(1, 4)) nap(30);
    }
    if (r.chance(1, 3)) nap(100);
    logger* p = L.get();
    p->~logger();
    unlocked("the destructor returns");
    operator delete((void*)L.release());
}
#endif

// L04: the directory after one rotation, for every limit and series
static void l04(vp::rng& r)
{
    std::string d;
    { quiet q; (void)q; d = fresh_dir(); }
    static const char* stems[] = { "log.txt", "log", ".log", "a.b.txt", "log_1.txt", "x_.t", "t.", "_1" };
    std::string name = stems[r.below(8)];
    fs::path p = fs::path(d) / name;
    const std::string stem = p.stem().string(), ext = p.extension().string();
    auto part = [&](std::size_t i) { return stem + (i ? "_" + std::to_string(i) : "") + ext; };
    std::size_t limit = r.below(6), k = r.below(9), size = 1 + r.below(30), gap = 0;
    if (r.chance(1, 20)) { limit = 9 + r.below(4); k = limit - 2 + r.below(5); }
    std::map<std::string, std::string> dir;
    {
        quiet q; (void)q;
        for (std::size_t i = 0; i < k; ++i) dir[part(i)] = "content " + std::to_string(i) + std::string(r.below(5), 'z');
        if (k) dir[part(0)] = std::string(r.below(2 * size + 1), 'b');
        if (r.chance(1, 3)) { gap = k + 1 + r.below(3); dir[part(gap)] = "after a gap"; }
        if (r.chance(1, 3)) dir[stem + "_01" + ext] = "other";
        if (r.chance(1, 3)) dir[stem + "1" + ext] = "other2";
        if (r.chance(1, 3)) dir[stem + "_1" + ext + "x"] = "other3";
        for (auto& f : dir) spill(d + "/" + f.first, f.second);
    }
    // expected
    int n = 1 + (int)r.below(4);
    bool off = r.chance(1, 6), header = r.chance(1, 4);
    if (r.chance(1, 2)) { std::size_t s = dir[part(0)].size(); size = s + r.below(3); size = size > 1 ? size - 1 : 1; }
    if (!k && dir.count(part(0))) dir.erase(part(0));
    auto rotate = [&]
    {
        // contiguous series, newest first
        std::vector<std::string> s;
        std::size_t i = 0;
        for (; dir.count(part(i)); ++i) s.push_back(dir[part(i)]);
        for (std::size_t j = 0; j < s.size(); ++j) dir.erase(part(j));
        for (std::size_t j = 0; j < s.size(); ++j) if (j + 1 <= limit) dir[part(j + 1)] = s[j];
    };
    std::vector<std::string> msgs;
    for (int i = 0; i < n; ++i) msgs.push_back("m" + std::to_string(i) + std::string(r.below(2 * size + 1) > size ? r.below(2 * size) : r.below(4), 'q'));
    std::string what = "file " + name + ", rotation size " + std::to_string(off ? 0 : size) + ", limit " + std::to_string(limit) + ", " + std::to_string(k) + " files in the series, " + std::to_string(n) + " logs, first file of " + std::to_string(k ? dir[part(0)].size() : 0) + " bytes" + (header ? ", with header" : "");
    std::map<std::string, std::string> start = dir;
    {
        logger L;
        L.write_header(header).header_writer([](std::ostream& o) { o << "H"; }).log_writer([](std::ostream& o, const pluto::log_entry& e) { o << e.message; }).file_rotation_size(off ? 0 : size).file_rotation_limit(limit);
        if (L.file_rotation_size() != (off ? 0 : size) || L.file_rotation_limit() != limit) bad("the rotation settings are not the ones that were set");
        bool all = r.chance(1, 2);
        if (all) L.buffer_flush_size(1000);
        for (auto& m : msgs) L.write(p.string(), log_level::info, pluto::source_info{ "", 0, "" }, m);
    }
    for (auto& m : msgs)
    {
        auto& cur = dir[part(0)];
        if (!off && cur.size() >= size) { rotate(); }
        auto& now = dir[part(0)];
        if (header && now.empty()) now += "H\n";
        now += m + "\n";
    }
    quiet q; (void)q;
    auto have = listing(d);
    for (auto& f : dir) { if (!have.count(f.first)) bad("missing after rotation: " + f.first + " (" + what + ")"); if (have[f.first] != f.second) bad("content of " + f.first + " is \"" + vp::esc(have[f.first]) + "\", expected \"" + vp::esc(f.second) + "\" (" + what + ")"); }
    for (auto& f : have) if (!dir.count(f.first)) bad("unexpected file " + f.first + " (" + what + ")");
    // every pre-existing file at or below the limit survives exactly once
    (void)start; (void)gap;
}

// L04 with names relative to a working directory that changes once the file's path is known
static void l04r(vp::rng& r)
{
    std::string d, e;
    { quiet q; (void)q; d = fresh_dir(); e = d + "/elsewhere"; fs::create_directories(e); }
    static const char* names[] = { "log.txt", "sub/log.txt", "log", "./a.b.txt" };
    std::string name = names[r.below(4)], here = fs::current_path().string();
    fs::path p = fs::path(d) / name;
    std::size_t limit = r.below(4), size = 1 + r.below(6);
    int n = 2 + (int)r.below(5);
    std::atomic<int> written{ 0 };
    if (chdir(d.c_str())) bad("chdir");
    {
        logger L;
        L.write_header(false).log_writer([&](std::ostream& o, const pluto::log_entry& x) { o << x.message; ++written; }).file_rotation_size(size).file_rotation_limit(limit);
        L.write(name, log_level::info, pluto::source_info{ "", 0, "" }, "0");
        for (int i = 0; written < 1; ++i)
        {
            if (i > 20000) bad("the first entry is never written");
#ifdef VP_SCHED
            nap(50);
#else
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
#endif
        }
        if (chdir(e.c_str())) bad("chdir");
        for (int i = 1; i < n; ++i) L.write(name, log_level::info, pluto::source_info{ "", 0, "" }, std::to_string(i));
    }
    if (chdir(here.c_str())) bad("chdir back");
    std::map<std::string, std::string> dir;
    std::string dd = p.parent_path().string();
    auto part = [&](std::size_t i) { return p.stem().string() + (i ? "_" + std::to_string(i) : "") + p.extension().string(); };
    for (int i = 0; i < n; ++i)
    {
        if (dir[part(0)].size() >= size)
        {
            std::size_t k = 0;
            while (dir.count(part(k))) ++k;
            for (; k-- > 0;) { if (k < limit) dir[part(k + 1)] = dir[part(k)]; dir.erase(part(k)); }
        }
        dir[part(0)] += std::to_string(i) + "\n";
    }
    quiet q; (void)q;
    std::string what = " (relative name " + name + ", rotation size " + std::to_string(size) + ", limit " + std::to_string(limit) + ", " + std::to_string(n) + " logs, working directory changed after the first)";
    for (auto& f : dir) if (slurp(dd + "/" + f.first) != f.second) bad("content of " + f.first + " is \"" + vp::esc(slurp(dd + "/" + f.first)) + "\", expected \"" + vp::esc(f.second) + "\"" + what);
    for (std::size_t i = 0; i < (std::size_t)n + 2; ++i) if (fs::exists(dd + "/" + part(i)) && !dir.count(part(i))) bad("unexpected file " + part(i) + what);
    if (!listing(e).empty()) bad("files appear in the new working directory" + what);
}

#ifdef VP_SCHED
// L04 with a position query that fails: a small file must not be rotated
static void l04f(vp::rng& r)
{
    std::string d;
    { quiet q; d = fresh_dir(); }
    F = faults();
    logfd().clear();
    std::string f = d + "/log.txt";
    {
        logger L;
        L.log_writer([](std::ostream& o, const pluto::log_entry& e) { o << e.message; }).write_header(false).file_rotation_size(1000000).file_rotation_limit(3);
        F.pos = 2 + (unsigned)r.below(6); F.open = r.chance(1, 2) ? 3 : 0;
        for (int i = 0; i < 6; ++i) { L.write(f, log_level::info, pluto::source_info{ "", 0, "" }, "m" + std::to_string(i)); if (r.chance(1, 3)) nap(50); }
        nap(1000);
        F = faults();
    }
    quiet q;
    if (fs::exists(d + "/log_1.txt")) bad("a file below the rotation size is rotated when its position cannot be determined");
    std::string want;
    for (int i = 0; i < 6; ++i) want += "m" + std::to_string(i) + "\n";
    if (slurp(f) != want) bad("file has \"" + vp::esc(slurp(f)) + "\"");
}
#endif

int main(int argc, char** argv)
{
    vp::install();
    std::string id = argc > 1 ? argv[1] : "L02";
    char tmpl[4096];
    snprintf(tmpl, sizeof tmpl, "%s/logsXXXXXX", vp::scratch().c_str());
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    base_dir = fs::canonical(tmpl).string();
    vp::rng seeds(vp::envu("VP_SEED", 1));
    std::uint64_t only = argc > 2 ? strtoull(argv[2], nullptr, 10) : 0;
    std::string top = base_dir;
    std::uint64_t count = 0;
    do
    {
        std::uint64_t s = only ? only : seeds.next() % 1000000000ull;
        vp::at("logger " + id + " seed " + std::to_string(s), 120);
        if (++count % 200 == 0) { quiet q; (void)q; std::string b = base_dir; fs::remove_all(b); fs::create_directories(b); }
#ifdef VP_SCHED
        vs::run(s, [&]
        {
            vp::rng r(s * 7 + 3);
            T = 0;
            if (id == "L01") l01(r);
            else if (id == "L02") l02(r, false);
            else if (id == "L03") switch (r.below(6)) { case 0: case 1: l03c(r); break; case 2: l05w(r); break; default: l03(r); }
            else if (id == "L04") { if (r.chance(1, 4)) l04f(r); else if (r.chance(1, 5)) l04r(r); else l04(r); }
            else switch (r.below(5)) { case 0: l02(r, true); break; case 1: l03(r); break; case 2: l05w(r); break; default: l05(r); }
        }, id.c_str());
#else
        vp::rng r(s * 7 + 3);
        if (id == "L01") l01(r);
        else if (id == "L04") l04(r);
        else
        {
            std::string d = fresh_dir();
            std::atomic<int> n{ 0 };
            logger L;
            auto w = [&](std::ostream& o, const pluto::log_entry& e) { ++n; o << e.message; };
            L.log_writer(w);
            std::vector<std::thread> cs;
            for (int c = 0; c < 3; ++c) cs.emplace_back([&, c]
            {
                vp::rng q(s * 3 + (unsigned)c);
                for (int i = 0; i < 60; ++i) switch (q.below(16))
                {
                case 0: L.buffer_flush_size(q.below(6)); break;
                case 1: L.buffer_max_size(q.below(6)); break;
                case 2: L.log_writer(w); break;
                case 3: L.header_writer([](std::ostream& o) { o << "H"; }); break;
                case 4: (void)L.log_writer(); (void)L.header_writer(); break;
                case 5: L.level(LV[q.below(9)]); break;
                case 6: L.file_rotation_size(q.below(100)); L.file_rotation_limit(q.below(4)); break;
                case 7: L.write_header(q.chance(1, 2)); L.create_dirs(q.chance(1, 2)); break;
                case 8: L.reset_num_discarded_logs(); (void)L.num_discarded_logs(); (void)L.level(); (void)L.buffer_flush_size(); (void)L.is_logging(); break;
                default: L.write(d + "/f" + std::to_string(q.below(3)), LV[q.below(9)], pluto::source_info{ "", 0, "" }, "message"); break;
                }
            });
            for (auto& c : cs) c.join();
        }
#endif
    } while (!only && vp::more());
    { quiet q; (void)q; fs::remove_all(top); }
    return vp::done();
}
