// P22: platform helpers.
#include <ctime>
#include "pbt.hpp"
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <set>
#include <string>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <pluto/platform.hpp>
using pbt::show;

PROP(file_name, .quick = 500000)
{
    std::string s;
    const std::size_t n = c.length(60);
    static const char alphabet[] = "/\\.a:-_ /\\\xff\x01\xc3\xa9";
    for (std::size_t i = 0; i < n; ++i) s += c.flag(0.1) ? static_cast<char>(1 + c.draw(255)) : alphabet[c.draw(sizeof alphabet - 1)];
    if (c.flag(0.02))
    {
        // long directories and long names
        if (c.draw(2)) { const std::size_t k = c.large(20000); std::string d; for (std::size_t i = 0; i < k; ++i) d += i % 9 == 8 ? '/' : 'd'; s = d + s; }
        if (c.draw(2)) s += std::string(c.large(20000), 'n');
    }
    NOTE((s.size() < 1000 ? show(s) : show(s.substr(0, 400)) + "..." + show(s.substr(s.size() - 400)) + std::to_string(s.size())));
    std::size_t at = 0;
    for (std::size_t i = 0; i < s.size(); ++i) if (s[i] == '/' || s[i] == '\\') at = i + 1;
    c.nontrivial(at > 0);
    if (at == s.size() && at) c.label("ends with a slash");
    // the exact bytes on the heap, so that reading past the end is seen
    const std::unique_ptr<char[]> text(new char[s.size() + 1]);
    std::memcpy(text.get(), s.c_str(), s.size() + 1);
    const char* const r = pluto::file_name(text.get());
    CHECK("file_name", r == text.get() + at, "file_name(" << show(s.substr(0, 1000)) << ") starts at " << (r - text.get()) << ", expected " << at);
}
static_assert(pluto::file_name("/a/b\\c")[0] == 'c' && pluto::file_name("")[0] == 0 && pluto::file_name("plain")[4] == 'n', "usable at compile time");

// ---------------------------------------------------------------- time
struct Civil { long long year; int mon, day, hour, min, sec, wday, yday; };
bool leap(long long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
long long floordiv(long long a, long long b) { return a / b - (a % b != 0 && (a % b < 0) != (b < 0)); }
Civil civil(long long t)
{
    Civil r{};
    long long days = floordiv(t, 86400);
    const long long rest = t - days * 86400;
    r.hour = static_cast<int>(rest / 3600);
    r.min = static_cast<int>(rest / 60 % 60);
    r.sec = static_cast<int>(rest % 60);
    r.wday = static_cast<int>((days % 7 + 7 + 4) % 7);
    // 400-year cycles from 1970-01-01 counted from 2000-03-01 (day 11017)
    long long d = days - 11017;
    const long long era = floordiv(d, 146097);
    d -= era * 146097;    // 0..146096 since March 1 of a 400-year cycle
    long long y = 2000 + era * 400;
    int mon = 2;          // March
    for (;;)              // whole years from March to February
    {
        const int len = leap(y + 1) ? 366 : 365;
        if (d < len) break;
        d -= len;
        ++y;
    }
    static const int lengths[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    for (;;)
    {
        const int len = lengths[mon] + (mon == 1 && leap(y) ? 1 : 0);
        if (d < len) break;
        d -= len;
        if (++mon == 12) { mon = 0; ++y; }
    }
    r.year = y;
    r.mon = mon;
    r.day = static_cast<int>(d) + 1;
    r.yday = r.day - 1;
    for (int m = 0; m < mon; ++m) r.yday += lengths[m] + (m == 1 && leap(y) ? 1 : 0);
    return r;
}
long long days_before(long long y)    // days from 1970 to January 1 of y
{
    const long long p = y - 1;
    return p * 365 + floordiv(p, 4) - floordiv(p, 100) + floordiv(p, 400) - 719162;
}
std::string show(const std::tm& t)
{
    return std::to_string(t.tm_year + 1900ll) + "-" + std::to_string(t.tm_mon + 1) + "-" + std::to_string(t.tm_mday) + " " + std::to_string(t.tm_hour) + ":" + std::to_string(t.tm_min) + ":" + std::to_string(t.tm_sec) +
        " wday " + std::to_string(t.tm_wday) + " yday " + std::to_string(t.tm_yday) + " dst " + std::to_string(t.tm_isdst);
}
bool matches(const std::tm& t, const Civil& r, int dst)
{
    return t.tm_year + 1900ll == r.year && t.tm_mon == r.mon && t.tm_mday == r.day && t.tm_hour == r.hour && t.tm_min == r.min && t.tm_sec == r.sec && t.tm_wday == r.wday && t.tm_yday == r.yday && (t.tm_isdst > 0) == (dst > 0);
}
long long instant(pbt::Case& c, long long limit)
{
    long long t = 0;
    switch (c.draw(6))
    {
    case 0: t = c.around(-100000, 100000); break;
    case 1: t = c.range(0, 4102444800ll); break;
    case 2: t = days_before(c.range(1600, 2500)) * 86400 + c.around(-200000, 200000); break;
    case 3: t = (days_before(c.range(1890, 2110)) + c.range(56, 62)) * 86400 + c.range(0, 86399); break;    // end of February
    case 4: { static const long long edges[] = { 0, 2147483647ll, -2147483648ll, 4294967295ll, 253402300799ll, -62135596800ll, -62167219200ll, 951782400ll }; t = c.pick(edges) + c.around(-2, 2); break; }
    default: t = static_cast<long long>(c.bits()); break;
    }
    if (t > limit || t < -limit) t %= limit;
    return t;
}
const long long FIVE_THOUSAND_CENTURIES = 16000000000000ll;

PROP(gm_time, .quick = 300000)
{
    const long long t = instant(c, 60000000000000000ll);
    NOTE("instant " << t);
    c.nontrivial(t < 0 || t > 86400);
    if (t < 0) c.label("before 1970");
    const std::time_t posix = static_cast<std::time_t>(t);
    const std::tm g = pluto::gm_time(posix);
    CHECK("gm_time", matches(g, civil(t), 0), "gm_time(" << t << ") = " << show(g));
    CHECK("gm_time dst", g.tm_isdst == 0, "UTC has no daylight saving time");
}

// POSIX time zones: offset east of Greenwich, with rules Mm.w.d/time
struct Rule { int month, week, day; int seconds; };
struct Zone { const char* tz; int standard; bool hasDst; int dst; Rule start, end; };
const Zone ZONES[] = {
    { "UTC0", 0, false, 0, {}, {} },
    { "XXX-14", 14 * 3600, false, 0, {}, {} },
    { "XXX12", -12 * 3600, false, 0, {}, {} },
    { "IST-5:30", 5 * 3600 + 1800, false, 0, {}, {} },
    { "NPT-5:45", 5 * 3600 + 2700, false, 0, {}, {} },
    { "LMT0:25:21", -(25 * 60 + 21), false, 0, {}, {} },
    { "EST5EDT,M3.2.0,M11.1.0", -5 * 3600, true, -4 * 3600, { 3, 2, 0, 7200 }, { 11, 1, 0, 7200 } },
    { "CET-1CEST,M3.5.0,M10.5.0/3", 3600, true, 7200, { 3, 5, 0, 7200 }, { 10, 5, 0, 10800 } },
    { "LHST-10:30LHDT-11,M10.1.0,M4.1.0", 37800, true, 39600, { 10, 1, 0, 7200 }, { 4, 1, 0, 7200 } },
    { "NST3:30NDT,M3.2.0/0:01,M11.1.0/0:01", -12600, true, -9000, { 3, 2, 0, 60 }, { 11, 1, 0, 60 } },
    { "AEST-10AEDT,M10.1.0,M4.1.0/3", 36000, true, 39600, { 10, 1, 0, 7200 }, { 4, 1, 0, 10800 } },
};
long long rule_instant(const Rule& r, long long year, int offset)
{
    static const int lengths[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    long long first = days_before(year);
    for (int m = 0; m + 1 < r.month; ++m) first += lengths[m] + (m == 1 && leap(year) ? 1 : 0);
    const int len = lengths[r.month - 1] + (r.month == 2 && leap(year) ? 1 : 0);
    const int wday = static_cast<int>(((first % 7) + 7 + 4) % 7);
    int day = (r.day - wday + 7) % 7 + (r.week - 1) * 7;
    while (day >= len) day -= 7;
    return (first + day) * 86400 + r.seconds - offset;
}
int offset_of(const Zone& z, long long t, bool& dst)
{
    dst = false;
    if (!z.hasDst) return z.standard;
    const long long year = civil(t + z.standard).year;
    const long long on = rule_instant(z.start, year, z.standard), off = rule_instant(z.end, year, z.dst);
    dst = on < off ? t >= on && t < off : t >= on || t < off;
    return dst ? z.dst : z.standard;
}
void set_zone(const char* tz)
{
    static std::string current = "?";
    if (current == tz) return;
    current = tz;
    setenv("TZ", tz, 1);
    tzset();
}
PROP(local_time, .quick = 300000)
{
    const Zone& z = c.pick(ZONES);
    long long t = 0;
    if (z.hasDst && c.flag(0.5))
    {
        const long long year = c.range(1971, 2200);
        t = (c.flag(0.5) ? rule_instant(z.start, year, z.standard) : rule_instant(z.end, year, z.dst)) + c.around(-4000, 4000);
        c.label("near a change of daylight saving time");
    }
    else { t = instant(c, FIVE_THOUSAND_CENTURIES); if (z.hasDst && t < 0) t = -t; }
    NOTE("instant " << t << " in " << z.tz);
    set_zone(z.tz);
    bool dst = false;
    const int offset = offset_of(z, t, dst);
    c.nontrivial(offset != 0);
    const std::time_t posix = static_cast<std::time_t>(t);
    const std::tm l = pluto::local_time(posix);
    CHECK("local_time", matches(l, civil(t + offset), dst), "local_time(" << t << ") in " << z.tz << " = " << show(l));
    CHECK("local_time offset", l.tm_gmtoff == offset, "offset in " << z.tz << " is " << l.tm_gmtoff);
    std::tm copy = l;
    CHECK("local_time denotes", std::mktime(&copy) == posix, "mktime(local_time(" << t << ")) in " << z.tz << " gives another instant");
    const std::tm g = pluto::gm_time(posix);
    CHECK("gm_time", matches(g, civil(t), 0), "gm_time(" << t << ") in " << z.tz << " = " << show(g));
}
// the installed zones: whatever the offset, the fields must denote the instant
PROP(real_zones, .quick = 60000)
{
    static const char* const names[] = { ":Europe/Dublin", ":America/New_York", ":Asia/Kathmandu", ":Australia/Lord_Howe", ":Africa/Casablanca", ":Pacific/Apia", ":America/St_Johns", ":Antarctica/Troll", ":Asia/Tehran" };
    const char* const tz = c.pick(names);
    const long long t = instant(c, 100000000000ll);
    NOTE("instant " << t << " in " << tz);
    set_zone(tz);
    const std::time_t posix = static_cast<std::time_t>(t);
    const std::tm l = pluto::local_time(posix);
    c.nontrivial(l.tm_gmtoff != 0);
    CHECK("local_time", matches(l, civil(t + l.tm_gmtoff), l.tm_isdst), "local_time(" << t << ") in " << tz << " = " << show(l) << " with offset " << l.tm_gmtoff);
    std::tm reference{};
    localtime_r(&posix, &reference);
    CHECK("local_time", reference.tm_gmtoff == l.tm_gmtoff && reference.tm_isdst == l.tm_isdst && reference.tm_hour == l.tm_hour, "local_time(" << t << ") in " << tz << " = " << show(l) << ", the system says " << show(reference));
}
// ---------------------------------------------------------------- threads
PROP(times_from_threads, .quick = 120, .cpu_limit = 60)
{
    const Zone& z = c.pick(ZONES);
    set_zone(z.tz);
    const int threads = 4 + static_cast<int>(c.draw(5));
    const long long base = c.range(0, 4000000000ll);
    NOTE(threads << " threads in " << z.tz << " from " << base);
    c.nontrivial();
    std::atomic<bool> go{ false };
    std::atomic<long long> bad{ -1 };
    std::vector<std::thread> pool;
    for (int k = 0; k < threads; ++k)
        pool.emplace_back([&, k]
        {
            while (!go) {}
            for (int i = 0; i < 600 && bad < 0; ++i)
            {
                const long long t = base + k * 97003ll + i * 3600007ll % 900000001ll;
                const std::time_t posix = static_cast<std::time_t>(t);
                bool dst = false;
                const int offset = offset_of(z, t, dst);
                if (!matches(pluto::local_time(posix), civil(t + offset), dst)) bad = t;
                if (!matches(pluto::gm_time(posix), civil(t), 0)) bad = t;
            }
        });
    go = true;
    for (auto& t : pool) t.join();
    CHECK("thread safety", bad < 0, "a thread got another thread's time for instant " << bad.load());
}
PROP(ids, .quick = 300, .cpu_limit = 60)
{
    const int threads = static_cast<int>(c.draw(12)) + 1;
    const bool inChild = c.flag(0.5);
    NOTE(threads << " threads" << (inChild ? " in a forked process" : ""));
    c.nontrivial(threads > 1);
    CHECK("process id", pluto::process_id() == static_cast<int>(getpid()), "process id");
    CHECK("thread id", pluto::thread_id() == static_cast<std::size_t>(syscall(SYS_gettid)), "thread id of the main thread");
    const auto round = [&]
    {
        if (pluto::process_id() != static_cast<int>(getpid())) return 1;
        if (pluto::thread_id() != static_cast<std::size_t>(syscall(SYS_gettid))) return 2;
        std::atomic<int> arrived{ 0 }, wrong{ 0 };
        std::vector<std::size_t> got(static_cast<std::size_t>(threads));
        std::vector<std::thread> pool;
        for (int k = 0; k < threads; ++k)
            pool.emplace_back([&, k]
            {
                got[static_cast<std::size_t>(k)] = pluto::thread_id();
                ++arrived;
                while (arrived < threads) std::this_thread::yield();    // all alive at once
                if (pluto::thread_id() != static_cast<std::size_t>(syscall(SYS_gettid)) || pluto::thread_id() != got[static_cast<std::size_t>(k)]) wrong = 3;
                if (pluto::process_id() != static_cast<int>(getpid())) wrong = 4;
            });
        for (auto& t : pool) t.join();
        if (wrong) return wrong.load();
        std::set<std::size_t> distinct(got.begin(), got.end());
        distinct.insert(pluto::thread_id());
        return distinct.size() == got.size() + 1 ? 0 : 5;
    };
    int result = 0;
    if (inChild)
    {
        const pid_t pid = fork();
        if (pid == 0) _exit(round());
        int status = 0;
        waitpid(pid, &status, 0);
        result = WIFEXITED(status) ? WEXITSTATUS(status) : 99;
    }
    else result = round();
    static const char* const what[] = { "", "process id", "thread id", "thread id of a new thread", "process id in a new thread", "threads alive at the same time share an id" };
    CHECK("ids", result == 0, (result < 6 ? what[result] : "crash") << (inChild ? " in a forked process" : "") << " is not the caller's");
}
int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P22", "cases: path texts; instants of all magnitudes, month, leap and daylight saving edges in 11 rule-based and 9 installed time zones; conversions from 4 to 8 threads at once; ids in processes, forked processes and up to 12 concurrently live threads; non-trivial: path with a slash / not the first day of 1970 / offset not zero / more than one thread");
}
