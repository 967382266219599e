// P32: default log lines and level names.
#ifndef VARIANT
#define VARIANT shown
#define MAIN 1
#endif
#include <chrono>
#ifdef MICRO_CLOCK
struct MicroClock
{
    typedef std::chrono::duration<long long, std::micro> duration;
    typedef duration::rep rep;
    typedef duration::period period;
    typedef std::chrono::time_point<MicroClock, duration> time_point;
    static constexpr bool is_steady = false;
    static time_point now() { return time_point(std::chrono::duration_cast<duration>(std::chrono::system_clock::now().time_since_epoch())); }
    static std::time_t to_time_t(const time_point& t) { return static_cast<std::time_t>(std::chrono::duration_cast<std::chrono::seconds>(t.time_since_epoch()).count()); }
};
#define PLUTO_LOGGER_CLOCK_TYPE MicroClock
#endif
#include "pbt.hpp"
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <filesystem>
#include <fstream>
#include <iterator>
#include <locale>
#include <set>
#include <string>
#include <thread>
#include <pluto/logger.hpp>
using pbt::show;
namespace fs = std::filesystem;
#define VNAME2(n, v) n##_##v
#define VNAME(n, v) VNAME2(n, v)
#define VPROP(n, ...) PROP2(VNAME(n, VARIANT), __VA_ARGS__)
#define PROP2(n, ...) PROP(n, __VA_ARGS__)

namespace
{
#ifdef PLUTO_LOGGER_HIDE_SOURCE_INFO
    const bool hidden = PLUTO_LOGGER_HIDE_SOURCE_INFO;
#else
    const bool hidden = false;
#endif
    struct LevelNames { pluto::log_level level; const char* lower; const char* title; const char* three; char one; };
    const LevelNames levels[] = {
        { pluto::log_level::verbose, "verbose", "Verbose", "VRB", 'V' }, { pluto::log_level::trace, "trace", "Trace", "TRC", 'T' },
        { pluto::log_level::debug, "debug", "Debug", "DBG", 'D' }, { pluto::log_level::info, "info", "Info", "INF", 'I' },
        { pluto::log_level::notice, "notice", "Notice", "NTC", 'N' }, { pluto::log_level::warning, "warning", "Warning", "WRN", 'W' },
        { pluto::log_level::error, "error", "Error", "ERR", 'E' }, { pluto::log_level::critical, "critical", "Critical", "CRT", 'C' },
        { pluto::log_level::fatal, "fatal", "Fatal", "FTL", 'F' } };

    std::string padded(const std::string& s, std::size_t width, bool right)
    {
        if (s.size() >= width) return s;
        return right ? std::string(width - s.size(), ' ') + s : s + std::string(width - s.size(), ' ');
    }
    std::string base(const std::string& p)
    {
        const auto i = p.find_last_of("/\\");
        return i == std::string::npos ? p : p.substr(i + 1);
    }
    struct Entry
    {
        long long us{};           // microseconds since 1970
        long long extra_ns{};     // and nanoseconds beyond
        std::size_t thread{};
        std::size_t level{};
        std::string file, function, message;
        int line{};
    };
    const char* const zones[] = { "UTC0", "EST5EDT,M3.2.0,M11.1.0", "<+0530>-5:30", "<-0330>3:30", "<+14>-14", "<-12>12", "CET-1CEST,M3.5.0,M10.5.0/3" };
    void zone(const char* z) { ::setenv("TZ", z, 1); ::tzset(); }

    std::string expected(const Entry& e)
    {
        const std::time_t t = static_cast<std::time_t>(e.us / 1000000);
        std::tm tm{};
        ::localtime_r(&t, &tm);
        char stamp[64];
        std::snprintf(stamp, sizeof stamp, "%04d-%02d-%02d %02d:%02d:%02d.%06lld", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, e.us % 1000000);
        std::string r = std::string(stamp) + "|" + padded(std::to_string(e.thread), 7, true) + "|" + padded(levels[e.level].title, 8, false) + "|";
        if (!hidden) r += padded(base(e.file).substr(0, 20), 20, false) + "|" + padded(std::to_string(e.line), 5, true) + "|" + padded(e.function.substr(0, 20), 20, false) + "|";
        return r + e.message;
    }
    std::string expected_header()
    {
        std::string a = padded("Timestamp", 26, false) + "|" + padded("TID", 7, true) + "|" + padded("Level", 8, false) + "|";
        std::string b = std::string(26, '-') + "+" + std::string(7, '-') + "+" + std::string(8, '-') + "+";
        if (!hidden)
        {
            a += padded("File Name", 20, false) + "|" + padded("Line", 5, true) + "|" + padded("Function", 20, false) + "|";
            b += std::string(20, '-') + "+" + std::string(5, '-') + "+" + std::string(20, '-') + "+";
        }
        return a + "Message\n" + b + "-------";
    }
    std::string word(pbt::Case& c, std::size_t max, const char* alphabet, std::size_t n)
    {
        std::string s;
        const std::size_t len = c.flag(0.2) ? 18 + c.draw(6) : c.length(max);
        for (std::size_t i = 0; i < len; ++i) s += alphabet[c.draw(n)];
        return s;
    }
    Entry entry(pbt::Case& c)
    {
        Entry e;
        static const long long days[] = { 0, 951782400, 951868800, 1078012800, 1711846800, 1698541200, 1710054000, 1730610000, 4102444800LL, 253402300799LL, 2147483647, 2147483648LL };
        const long long s = c.flag(0.5) ? c.pick(days) + static_cast<long long>(c.draw(172800)) : static_cast<long long>(c.draw(4102444800ULL));
        long long sec = s;
        // the year has four digits, and the clock can represent it
        const long long last = std::ratio_less<pluto::log_entry::time_type::period, std::micro>::value ? 9000000000LL : 253402300799LL - 86400;
        if (sec > last) sec = last;
        if (sec < 86400) sec += 86400;
        static const long long sub[] = { 0, 1, 9, 10, 99999, 100000, 500000, 999999, 12345 };
        e.us = sec * 1000000 + (c.flag(0.5) ? c.pick(sub) : static_cast<long long>(c.draw(1000000)));
        e.extra_ns = c.flag(0.5) ? static_cast<long long>(c.draw(1000)) : 0;
        static const std::size_t threads[] = { 0, 1, 12, 999999, 1000000, 9999999, 10000000, 18446744073709551615ULL };
        e.thread = c.flag(0.4) ? c.pick(threads) : c.draw(5000000);
        e.level = c.draw(9);
        static const char path[] = "abcdefghijklmnop/\\._ |-:";
        e.file = word(c, 40, path, sizeof path - 1);
        static const char fun[] = "abcdefghijklmnop_~ |<>:";
        e.function = word(c, 40, fun, sizeof fun - 1);
        static const int lines[] = { 0, 1, 9, 99, 12345, 99999, 100000, 2147483647, -1, -2147483647 - 1 };
        e.line = c.flag(0.4) ? c.pick(lines) : static_cast<int>(c.draw(3000));
        const std::size_t n = c.length(80);
        for (std::size_t i = 0; i < n; ++i) e.message += c.flag(0.05) ? static_cast<char>(c.draw(256)) : static_cast<char>(' ' + c.draw(95));
        if (c.flag(0.05)) e.message += std::string(c.large(c.draw(4) ? 600 : 70000), 'm');
        if (c.flag(0.03)) e.file.insert(0, std::string(c.large(5000), 'p'));
        if (c.flag(0.03)) e.function += std::string(c.large(5000), 'f');
        return e;
    }
    std::string describe(const Entry& e)
    {
        return "time " + std::to_string(e.us) + " us, thread " + std::to_string(e.thread) + ", level " + levels[e.level].lower + ", file " + show(e.file) + ", line " + std::to_string(e.line) + ", function " + show(e.function) + ", message " + show(e.message);
    }
    pluto::log_entry made(const Entry& e)
    {
        typedef pluto::log_entry::time_type time;
        return pluto::log_entry(time(std::chrono::duration_cast<time::duration>(std::chrono::microseconds(e.us)) + std::chrono::duration_cast<time::duration>(std::chrono::nanoseconds(e.extra_ns))),
            e.thread, levels[e.level].level, { e.file.c_str(), e.line, e.function.c_str() }, e.message);
    }

    // formatting left behind by whoever used the stream before
    void upset(pbt::Case& c, std::ostream& stream)
    {
        static const char fills[] = { ' ', '0', '*', '-' };
        switch (c.draw(9))
        {
        case 0: stream << std::hex; NOTE(" hex;"); break;
        case 1: stream << std::oct << std::showbase; NOTE(" oct showbase;"); break;
        case 2: stream << std::showpos; NOTE(" showpos;"); break;
        case 3: stream << std::internal; NOTE(" internal;"); break;
        case 4: stream << (c.flag(0.5) ? std::left : std::right); NOTE(" adjusted;"); break;
        case 5: stream << std::setfill(fills[c.draw(4)]); NOTE(" fill;"); break;
        case 6: stream << std::uppercase << std::boolalpha << std::unitbuf << std::scientific; NOTE(" uppercase...;"); break;
        case 7: stream.precision(static_cast<std::streamsize>(c.draw(20))); NOTE(" precision;"); break;
        case 8: stream.unsetf(std::ios_base::basefield | std::ios_base::adjustfield); NOTE(" no base;"); break;
        }
    }
    // digits in groups, as in most languages
    struct Grouping : std::numpunct<char>
    {
        char do_thousands_sep() const override { return ','; }
        std::string do_grouping() const override { return "\3"; }
        char do_decimal_point() const override { return ';'; }
    };
    const std::locale& grouping() { static const std::locale l(std::locale::classic(), new Grouping); return l; }
    struct GlobalLocale
    {
        std::locale before;
        explicit GlobalLocale(bool set) : before(set ? std::locale::global(grouping()) : std::locale()) {}
        ~GlobalLocale() { std::locale::global(before); }
    };
}

VPROP(lines, .quick = 60000)
{
    const char* z = c.pick(zones);
    zone(z);
    NOTE("TZ=" << z);
    std::ostringstream stream;
    if (c.flag(0.15)) { stream.imbue(grouping()); NOTE(" locale with digit groups;"); c.label("locale with digit groups"); }
    const bool upsetting = c.flag(0.3);
    if (upsetting) c.label("stream formatting changed before lines");
    std::string want;
    const std::size_t n = 1 + c.length(6);
    std::size_t wide = 0;
    for (std::size_t i = 0; i < n; ++i)
    {
        const std::size_t start = want.size();
        if (upsetting) for (std::size_t k = c.draw(3); k; --k) upset(c, stream);
        if (c.flag(0.2))
        {
            pluto::logger::default_header_writer(stream);
            stream << '\n';
            want += expected_header() + "\n";
            NOTE(" header;");
            CHECK_EQ("header", stream.str().substr(start), want.substr(start), "header line");
        }
        else
        {
            const Entry e = entry(c);
            NOTE(" " << describe(e) << ";");
            const auto log = made(e);
            pluto::logger::default_log_writer(stream, log);
            stream << '\n';
            want += expected(e) + "\n";
            CHECK_EQ("line", stream.str().substr(start), want.substr(start), "default line number " << i + 1 << " of the stream, for " << describe(e) << " with TZ=" << z);
            if (e.file.size() > 20 || e.function.size() > 20 || e.line > 99999 || e.line < 0 || e.thread > 9999999 || e.us % 1000000 < 100000) ++wide;
        }
    }
    if (wide) c.label("cut or overwide values, or leading zeros");
    c.nontrivial(n > 1);
}

// the same through a logger and a file, with the caller's true time, thread and place
VPROP(file, .quick = 3000)
{
    zone(c.pick(zones));
    const fs::path root = fs::path(pbt::scratch_dir()) / "p32";
    fs::remove_all(root);
    const std::string name = (root / "out.log").string();
    struct Sent { Entry e; std::size_t thread; pluto::log_entry::time_type before, after; };
    std::vector<Sent> sent;
    {
        const GlobalLocale global(c.flag(0.2));
        pluto::logger log;
        if (c.flag(0.5)) log.buffer_flush_size(1 + c.draw(8));
        const std::size_t n = 1 + c.length(20);
        for (std::size_t i = 0; i < n; ++i) { Sent s; s.e = entry(c); for (char& ch : s.e.message) if (ch == '\n' || ch == '\0') ch = '.'; sent.push_back(s); }
        const std::size_t half = c.draw(n + 1);
        const auto go = [&](std::size_t from, std::size_t to)
        {
            for (std::size_t i = from; i < to; ++i)
            {
                Sent& s = sent[i];
                s.thread = pluto::thread_id();
                s.before = pluto::logger::clock_type::now();
                log.write(name, levels[s.e.level].level, { s.e.file.c_str(), s.e.line, s.e.function.c_str() }, s.e.message);
                s.after = pluto::logger::clock_type::now();
            }
        };
        go(0, half);
        std::thread(go, half, n).join();
        c.nontrivial(half > 0 && half < n);
    }
    std::ifstream f(name, std::ios::binary);
    const std::string got((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    fs::remove_all(root);
    const std::string header = expected_header() + "\n";
    CHECK_EQ("file header", got.substr(0, header.size()), header, "the file begins with the header");
    std::size_t pos = header.size();
    for (std::size_t i = 0; i < sent.size(); ++i)
    {
        const auto end = got.find('\n', pos);
        CHECK("file line", end != std::string::npos, "line " << i + 1 << " of " << sent.size() << " is missing");
        const std::string line = got.substr(pos, end - pos);
        pos = end + 1;
        Sent& s = sent[i];
        // read the time back
        std::tm tm{};
        int us = -1, used = 0;
        std::sscanf(line.c_str(), "%4d-%2d-%2d %2d:%2d:%2d.%6d|%n", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &us, &used);
        CHECK("file line", used == 27, "line " << show(line) << " has no time stamp of 26 characters");
        const auto since = [](pluto::log_entry::time_type t) { return static_cast<long long>(std::chrono::duration_cast<std::chrono::microseconds>(t.time_since_epoch()).count()); };
        // of all the moments within the call one must print as the line does
        bool found = false;
        Entry e = s.e;
        e.thread = s.thread;
        for (long long sec = since(s.before) / 1000000; sec <= since(s.after) / 1000000 && !found; ++sec)
        {
            e.us = sec * 1000000 + us;
            found = e.us >= since(s.before) && e.us <= since(s.after) && expected(e) == line;
        }
        CHECK("file line", found, "line " << i + 1 << " is " << show(line) << ", expected the message, thread and place of " << describe(e) << " at a time between " << since(s.before) << " and " << since(s.after));
    }
    CHECK("file end", pos == got.size(), "text after the last line: " << show(got.substr(pos)));
}

VPROP(names, .quick = 256, .enumerate = true)
{
    const int v = static_cast<int>(c.draw(256)) - 128;
    const auto level = static_cast<pluto::log_level>(v);
    NOTE("level " << v);
    const std::string lower = pluto::log_level_to_c_str(level), title = pluto::log_level_to_title(level), three = pluto::log_level_to_shortened(level);
    const std::string one(1, pluto::log_level_to_char(level));
    c.nontrivial(v >= -1 && v <= 8);
    const bool known = v >= -1 && v <= 8;
    const std::string w[] = { known ? v == -1 ? "level" : levels[v].lower : "unknown", known ? v == -1 ? "Level" : levels[v].title : "Unknown",
                              known ? v == -1 ? "LVL" : levels[v].three : "UNK", known ? v == -1 ? "L" : std::string(1, levels[v].one) : "?" };
    CHECK_EQ("name", lower, w[0], "log_level_to_c_str(" << v << ")");
    CHECK_EQ("name", title, w[1], "log_level_to_title(" << v << ")");
    CHECK_EQ("name", three, w[2], "log_level_to_shortened(" << v << ")");
    CHECK_EQ("name", one, w[3], "log_level_to_char(" << v << ")");
    for (int u = -1; u <= 8; ++u)
    {
        if (u == v) continue;
        const auto other = static_cast<pluto::log_level>(u);
        CHECK("distinct", lower != pluto::log_level_to_c_str(other) && title != pluto::log_level_to_title(other) && three != pluto::log_level_to_shortened(other)
            && one[0] != pluto::log_level_to_char(other), "levels " << v << " and " << u << " share a name");
    }
}
static_assert(pluto::log_level::fatal > pluto::log_level::critical && pluto::log_level::critical > pluto::log_level::error && pluto::log_level::error > pluto::log_level::warning
    && pluto::log_level::warning > pluto::log_level::notice && pluto::log_level::notice > pluto::log_level::info && pluto::log_level::info > pluto::log_level::debug
    && pluto::log_level::debug > pluto::log_level::trace && pluto::log_level::trace > pluto::log_level::verbose && pluto::log_level::verbose > pluto::log_level::header
    && pluto::log_level::off > pluto::log_level::fatal, "severity order");
static_assert(pluto::log_level::crit == pluto::log_level::critical && pluto::log_level::warn == pluto::log_level::warning && pluto::log_level::note == pluto::log_level::notice
    && pluto::log_level::verb == pluto::log_level::verbose && pluto::log_level::ftl == pluto::log_level::fatal && pluto::log_level::crt == pluto::log_level::critical
    && pluto::log_level::err == pluto::log_level::error && pluto::log_level::wrn == pluto::log_level::warning && pluto::log_level::ntc == pluto::log_level::notice
    && pluto::log_level::inf == pluto::log_level::info && pluto::log_level::dbg == pluto::log_level::debug && pluto::log_level::trc == pluto::log_level::trace
    && pluto::log_level::vrb == pluto::log_level::verbose, "aliases");

#ifdef MAIN
int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P32", "cases: (lines) sequences of headers and generated entries written to one stream by the default writers, in several time zones, after other formatting of the stream and in a locale that groups digits, with and without source columns and with another clock resolution; (file) the same through a logger and back from the file; (names) every value of the level type; non-trivial: several lines in one stream, messages of two threads, or a named level");
}
#endif
