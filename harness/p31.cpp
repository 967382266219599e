// P31: level filtering and message formatting.
#ifndef VARIANT
#define VARIANT shown
#define MAIN 1
#endif
#include "pbt.hpp"
#include <atomic>
#include <chrono>
#include <climits>
#include <cmath>
#include <cstdio>
#include <filesystem>
#include <iomanip>
#include <limits>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <pluto/logger.hpp>
using pbt::show;
namespace fs = std::filesystem;
#define VNAME2(n, v) n##_##v
#define VNAME(n, v) VNAME2(n, v)
#define VPROP(n, ...) PROP2(VNAME(n, VARIANT), __VA_ARGS__)
#define PROP2(n, ...) PROP(n, __VA_ARGS__)

namespace
{
#if PLUTO_LOGGER_HIDE_SOURCE_INFO
    const bool hidden = true;
#else
    const bool hidden = false;
#endif
    typedef pluto::log_level L;
    const L levels[] = { L::verbose, L::trace, L::debug, L::info, L::notice, L::warning, L::error, L::critical, L::fatal };
    const char* const level_names[] = { "verbose", "trace", "debug", "info", "notice", "warning", "error", "critical", "fatal" };

    struct Record
    {
        int level;
        std::string file;
        int line;
        std::string function;
        std::size_t thread;
        std::string message;
        bool operator==(const Record& o) const { return level == o.level && file == o.file && line == o.line && function == o.function && thread == o.thread && message == o.message; }
    };
    std::string excerpt(const std::string& s) { return s.size() <= 200 ? show(s) : show(s.substr(0, 80)) + "..." + show(s.substr(s.size() - 80)) + " (" + std::to_string(s.size()) + " bytes)"; }
    std::string describe(const Record& r)
    {
        return "{level " + std::to_string(r.level) + ", " + r.file + ":" + std::to_string(r.line) + " in " + r.function + ", thread " + std::to_string(r.thread) + ", " + excerpt(r.message) + "}";
    }
    struct Capture
    {
        std::mutex mutex;
        std::vector<Record> records;
        void operator()(std::ostream&, const pluto::log_entry& e)
        {
            const std::lock_guard<std::mutex> lock(mutex);
            records.push_back({ static_cast<int>(e.level), e.source.file, e.source.line, e.source.function, e.thread_id, e.message });
        }
    };

    // ---- the data of one call
    struct Data
    {
        int i{};
        double d{};
        std::string s;
        long long l{};
        unsigned u{};
        char ch{};
        int width{}, precision{};
        std::string scheme;      // printf scheme over i, d, s, l, u, ch in this order
        std::string star;        // printf scheme over width, i, precision, s
        std::string text;        // arbitrary bytes
        bool hex{}, boolalpha{};
        int breaks{};            // something in the middle of the stream fails: 1 failbit, 2 badbit
    };
    std::string text(pbt::Case& c, std::size_t max, bool any)
    {
        std::string s;
        const std::size_t n = c.length(max);
        for (std::size_t i = 0; i < n; ++i) s += any && c.flag(0.1) ? static_cast<char>(c.draw(256)) : static_cast<char>("ab %{}\"\\x"[c.draw(9)]);
        return s;
    }
    std::string literal(pbt::Case& c)
    {
        std::string r;
        for (const char ch : text(c, 6, false)) r += ch == '%' ? std::string("%%") : std::string(1, ch);
        return r;
    }
    std::string flags(pbt::Case& c, const char* possible)
    {
        std::string r;
        for (const char* p = possible; *p; ++p) if (c.flag(0.2)) r += *p;
        if (c.flag(0.3)) r += std::to_string(1 + c.draw(c.flag(0.05) ? 9000 : 30));
        return r;
    }
    std::string precision(pbt::Case& c) { return c.flag(0.3) ? "." + (c.flag(0.1) ? std::string() : std::to_string(c.draw(30))) : ""; }
    Data data(pbt::Case& c)
    {
        Data x;
        x.i = c.integer<int>();
        static const double doubles[] = { 0, -0.0, 1, -1.5, 3.14159265358979, 1e300, 1e-300, 123456789.125, std::numeric_limits<double>::infinity(), std::nan(""), 0.1, 2.5, 0.5 };
        x.d = c.flag(0.5) ? c.pick(doubles) : static_cast<double>(c.around(-1000000, 1000000)) / 64;
        x.s = text(c, 20, false);
        if (c.flag(0.15)) x.s = std::string(c.large(c.draw(4) ? 600 : 70000), 'z');
        for (char& ch : x.s) if (ch == '\0') ch = '0';
        x.l = c.integer<long long>();
        x.u = c.integer<unsigned>();
        x.ch = static_cast<char>(c.flag(0.1) ? c.draw(256) : 'a' + c.draw(26));
        x.width = static_cast<int>(c.around(-40, 40));
        x.precision = static_cast<int>(c.around(-2, 40));
        x.text = text(c, 60, true);
        if (c.flag(0.1)) x.text = std::string(c.large(c.draw(4) ? 600 : 70000), 'y') + (c.draw(2) ? x.text : std::string());
        if (c.flag(0.002)) (c.draw(2) ? x.s : x.text).assign(c.large(3000000), 'w');
        if (c.flag(0.05)) x.breaks = 1 + static_cast<int>(c.draw(2));
        x.hex = c.flag(0.3);
        x.boolalpha = c.flag(0.3);
        const std::size_t n = c.draw(7);
        x.scheme = literal(c);
        for (std::size_t k = 0; k < n; ++k)
        {
            switch (k)
            {
                case 0: { static const char* const conv[] = { "d", "i" }; x.scheme += "%" + flags(c, "-+ 0") + precision(c) + c.pick(conv); break; }
                case 1: { static const char* const conv[] = { "f", "e", "g", "G", "a", "E" }; x.scheme += "%" + flags(c, "-+ #0") + precision(c) + c.pick(conv); break; }
                case 2: x.scheme += "%" + flags(c, "-") + precision(c) + "s"; break;
                case 3: { static const char* const conv[] = { "lld", "llx", "llu", "llo" }; const std::size_t k2 = c.draw(4); x.scheme += "%" + flags(c, k2 == 0 ? "-+ 0" : "-0") + precision(c) + conv[k2]; break; }
                case 4: { static const char* const conv[] = { "u", "x", "X", "o" }; const std::size_t k2 = c.draw(4); x.scheme += "%" + flags(c, k2 == 0 ? "-0" : "-#0") + precision(c) + conv[k2]; break; }
                case 5: x.scheme += "%" + flags(c, "-") + "c"; break;
            }
            x.scheme += literal(c);
        }
        x.star = literal(c) + "%" + (c.flag(0.3) ? "0" : "") + "*d" + literal(c) + "%.*s" + literal(c);
        return x;
    }
    std::string printed(const char* scheme, ...)
    {
        std::va_list a;
        va_start(a, scheme);
        char* p = nullptr;
        const int n = ::vasprintf(&p, scheme, a);
        va_end(a);
        if (n < 0) return "?";
        std::string r(p, static_cast<std::size_t>(n));
        std::free(p);
        return r;
    }

    int evaluated = 0;
    template<class T> T counted(T v) { ++evaluated; return v; }

    struct Streamable { int v; };
    std::ostream& operator<<(std::ostream& o, const Streamable& s) { return o << '<' << s.v << '>'; }
    struct Breaks { int how; };
    std::ostream& operator<<(std::ostream& o, const Breaks& b) { if (b.how) o.setstate(b.how == 1 ? std::ios_base::failbit : std::ios_base::badbit); return o; }

    // every way to log: what, and what the record must be
    enum Kind { WRITE, WRITEF, WRITEF_STAR, FORMAT, FORMAT_NESTED, STREAM, EMPTY_FORMAT, KINDS };
    const char* const kind_names[] = { "write", "writef", "writef with *", "format", "format with nested width", "stream", "format to nothing" };

    std::string expected_text(Kind k, const Data& x)
    {
        switch (k)
        {
            case WRITE: return x.text;
            case WRITEF: return printed(x.scheme.c_str(), x.i, x.d, x.s.c_str(), x.l, x.u, x.ch);
            case WRITEF_STAR: return printed(x.star.c_str(), x.width, x.i, x.precision, x.s.c_str());
            case FORMAT: return "{" + std::to_string(x.i) + "} " + x.s + " " + printed("%08llx", x.l) + "|" + printed("%.3f", x.d) + "|" + std::string(1, x.ch) + x.s;
            case FORMAT_NESTED:
            {
                const auto w = static_cast<std::size_t>(std::abs(x.width));
                const std::string n = std::to_string(x.u);
                return n.size() >= w ? n : std::string(w - n.size(), '*') + n;
            }
            case STREAM:
            {
                std::ostringstream o;
                if (x.hex) o << std::hex << std::showbase;
                if (x.boolalpha) o << std::boolalpha;
                o << x.text << ' ' << x.i << '|' << std::setw(10) << x.d << '|' << x.u << x.ch << (x.i > 0) << x.s.c_str() << Streamable{ 7 } << (Breaks{ x.breaks }) << x.l;
                return o.str();
            }
            default: return "";
        }
    }

#define PLACE(K) (line_of = __LINE__, expected_text(K, x))
    struct Call { int line; int evaluations; };
#define MESSAGE_STREAM counted(x.text) << ' ' << x.i << '|' << std::setw(10) << x.d << '|' << x.u << x.ch << (x.i > 0) << x.s.c_str() << Streamable{ 7 } << (Breaks{ x.breaks }) << x.l
    struct Hex { bool hex, alpha; };
    std::ostream& operator<<(std::ostream& o, const Hex& h) { if (h.hex) o << std::hex << std::showbase; if (h.alpha) o << std::boolalpha; return o; }

    // one line per case label, so that __LINE__ is the line of the macro
#define VIA_MACROS(LOG, FILE, LEVEL) \
    case WRITE: if (dangling) PLUTO_LOG_WRITE_WITH(LOG, FILE, LEVEL, counted(x.text)); else ++other_branch; break; \
    case WRITEF: if (dangling) PLUTO_LOG_WRITEF_WITH(LOG, FILE, LEVEL, counted(x.scheme).c_str(), x.i, x.d, x.s.c_str(), x.l, x.u, x.ch); else ++other_branch; break; \
    case WRITEF_STAR: if (dangling) PLUTO_LOG_WRITEF_WITH(LOG, FILE, LEVEL, x.star.c_str(), counted(x.width), x.i, x.precision, x.s.c_str()); else ++other_branch; break; \
    case FORMAT: if (dangling) PLUTO_LOG_FORMAT_WITH(LOG, FILE, LEVEL, "{{{}}} {} {:08x}|{:.3f}|{}{}", counted(x.i), x.s, static_cast<unsigned long long>(x.l), x.d, x.ch, x.s.c_str()); else ++other_branch; break; \
    case FORMAT_NESTED: if (dangling) PLUTO_LOG_FORMAT_WITH(LOG, FILE, LEVEL, "{1:*>{0}}", counted(std::abs(x.width)), x.u); else ++other_branch; break; \
    case STREAM: if (dangling) PLUTO_LOG_STREAM_WITH(LOG, FILE, LEVEL, (Hex{ x.hex, x.boolalpha }) << MESSAGE_STREAM); else ++other_branch; break; \
    case EMPTY_FORMAT: if (dangling) PLUTO_LOG_WRITEF_WITH(LOG, FILE, LEVEL, counted("%s"), ""); else ++other_branch; break; \
    default: break;
#define VIA_INSTANCE(FILE, LEVEL) \
    case WRITE: if (dangling) PLUTO_LOG_WRITE(FILE, LEVEL, counted(x.text)); else ++other_branch; break; \
    case WRITEF: if (dangling) PLUTO_LOG_WRITEF(FILE, LEVEL, counted(x.scheme).c_str(), x.i, x.d, x.s.c_str(), x.l, x.u, x.ch); else ++other_branch; break; \
    case WRITEF_STAR: if (dangling) PLUTO_LOG_WRITEF(FILE, LEVEL, x.star.c_str(), counted(x.width), x.i, x.precision, x.s.c_str()); else ++other_branch; break; \
    case FORMAT: if (dangling) PLUTO_LOG_FORMAT(FILE, LEVEL, "{{{}}} {} {:08x}|{:.3f}|{}{}", counted(x.i), x.s, static_cast<unsigned long long>(x.l), x.d, x.ch, x.s.c_str()); else ++other_branch; break; \
    case FORMAT_NESTED: if (dangling) PLUTO_LOG_FORMAT(FILE, LEVEL, "{1:*>{0}}", counted(std::abs(x.width)), x.u); else ++other_branch; break; \
    case STREAM: if (dangling) PLUTO_LOG_STREAM(FILE, LEVEL, (Hex{ x.hex, x.boolalpha }) << MESSAGE_STREAM); else ++other_branch; break; \
    case EMPTY_FORMAT: if (dangling) PLUTO_LOG_WRITEF(FILE, LEVEL, counted("%s"), ""); else ++other_branch; break; \
    default: break;

    int other_branch = 0;
    struct Where { int line; };
    typedef Where (*MacroCall)(pluto::logger&, const std::string&, Kind, const Data&, bool);
#define CALLERS(LEVEL) \
    Where with_##LEVEL(pluto::logger& log, const std::string& file, Kind k, const Data& x, bool dangling) { switch (k) { VIA_MACROS(log, file, LEVEL) } return { __LINE__ }; } \
    Where instance_##LEVEL(pluto::logger&, const std::string& file, Kind k, const Data& x, bool dangling) { switch (k) { VIA_INSTANCE(file, LEVEL) } return { __LINE__ }; }
    CALLERS(verbose)
    CALLERS(trace)
    CALLERS(debug)
    CALLERS(info)
    CALLERS(notice)
    CALLERS(warning)
    CALLERS(error)
    CALLERS(critical)
    CALLERS(fatal)
    const MacroCall with[] = { with_verbose, with_trace, with_debug, with_info, with_notice, with_warning, with_error, with_critical, with_fatal };
    const MacroCall instance[] = { instance_verbose, instance_trace, instance_debug, instance_info, instance_notice, instance_warning, instance_error, instance_critical, instance_fatal };

    // member functions; the source is given
    void via_members(pluto::logger& log, const std::string& file, Kind k, L level, const pluto::source_info& at, const Data& x, bool explicit_end)
    {
        switch (k)
        {
            case WRITE: log.write(file, level, at, x.text); break;
            case WRITEF: log.writef(file, level, at, x.scheme.c_str(), x.i, x.d, x.s.c_str(), x.l, x.u, x.ch); break;
            case WRITEF_STAR: log.writef(file, level, at, x.star.c_str(), x.width, x.i, x.precision, x.s.c_str()); break;
            case FORMAT: log.format(file, level, at, "{{{}}} {} {:08x}|{:.3f}|{}{}", x.i, x.s, static_cast<unsigned long long>(x.l), x.d, x.ch, x.s.c_str()); break;
            case FORMAT_NESTED: log.format(file, level, at, "{1:*>{0}}", std::abs(x.width), x.u); break;
            case STREAM:
            {
                auto s = log.stream(file, level, at);
                if (x.hex) s << std::hex << std::showbase;
                if (x.boolalpha) s << std::boolalpha;
                s << x.text << ' ' << x.i << '|' << std::setw(10) << x.d << '|' << x.u << x.ch << (x.i > 0) << x.s.c_str() << Streamable{ 7 } << (Breaks{ x.breaks }) << x.l;
                if (explicit_end) { s.end(); s.end(); }
                break;
            }
            default: log.writef(file, level, at, "%s%s", "", ""); break;
        }
    }
#if PLUTO_LOGGER_HIDE_SOURCE_INFO
    void without_source(pluto::logger& log, const std::string& file, Kind k, L level, const Data& x)
    {
        switch (k)
        {
            case WRITE: log.write(file, level, x.text); break;
            case WRITEF: log.writef(file, level, x.scheme.c_str(), x.i, x.d, x.s.c_str(), x.l, x.u, x.ch); break;
            case WRITEF_STAR: log.writef(file, level, x.star.c_str(), x.width, x.i, x.precision, x.s.c_str()); break;
            case FORMAT: log.format(file, level, "{{{}}} {} {:08x}|{:.3f}|{}{}", x.i, x.s, static_cast<unsigned long long>(x.l), x.d, x.ch, x.s.c_str()); break;
            case FORMAT_NESTED: log.format(file, level, "{1:*>{0}}", std::abs(x.width), x.u); break;
            case STREAM: log.stream(file, level) << (Hex{ x.hex, x.boolalpha }) << x.text << ' ' << x.i << '|' << std::setw(10) << x.d << '|' << x.u << x.ch << (x.i > 0) << x.s.c_str() << Streamable{ 7 } << (Breaks{ x.breaks }) << x.l; break;
            default: log.writef(file, level, "%s%s", "", ""); break;
        }
    }
#endif
    int write_here(pluto::logger& log, const std::string& file, L level, const std::string& text)
    {
        log.write(file, level, {}, text); return __LINE__;    // the default source is the caller's place
    }

    // a history of calls; pointers to names must outlive the logger
    struct History
    {
        std::vector<Record> want;
        std::set<std::string> names;
        std::size_t skipped{ 0 };
    };
    void history(pbt::Case& c, pluto::logger& log, const std::string& file, History& h, bool use_instance)
    {
        L level = log.level();
        const std::size_t n = 1 + c.length(15);
        for (std::size_t i = 0; i < n; ++i)
        {
            if (c.flag(0.4))
            {
                level = c.flag(0.15) ? L::off : c.flag(0.3) ? L::verbose : levels[c.draw(9)];
                NOTE(" level(" << static_cast<int>(level) << ")");
                log.level(level);
                CHECK_EQ("getter", static_cast<int>(log.level()), static_cast<int>(level), "level()");
            }
            const std::size_t at = c.draw(9);
            const Kind k = static_cast<Kind>(c.draw(KINDS));
            const Data x = data(c);
            const bool logged = levels[at] >= level;
            CHECK_EQ("should_log", log.should_log(levels[at]), logged, "should_log(" << level_names[at] << ") at level " << static_cast<int>(level));
            const std::string expect = expected_text(k, x);
            Record want{ static_cast<int>(levels[at]), "", 0, "", pluto::thread_id(), expect };
            const std::size_t how = c.draw(hidden ? 4 : 3);
            const bool elsewhere = c.flag(0.1);
            NOTE(" " << kind_names[k] << "/" << level_names[at] << "/" << (how == 0 ? "member" : how == 1 ? use_instance ? "instance macro" : "macro" : how == 2 ? "default source" : "no source")
                 << (k == WRITEF ? " " + show(x.scheme) : k == WRITEF_STAR ? " " + show(x.star) : "") << " i=" << x.i << " d=" << x.d << " s=" << excerpt(x.s) << " l=" << x.l << " u=" << x.u << " text=" << excerpt(x.text));
            std::size_t caller = want.thread;
            bool skip = false;
            const auto action = [&]
            {
                caller = pluto::thread_id();
                if (how == 1)
                {
                    evaluated = 0;
                    other_branch = 0;
                    const bool dangling = !(x.u % 8 == 0 && x.i % 2);
                    const Where w = (use_instance ? instance : with)[at](log, file, k, x, dangling);
                    want.line = w.line;
                    want.file = hidden ? "" : __FILE__;
                    want.function = hidden ? "" : std::string(use_instance ? "instance_" : "with_") + level_names[at];
                    if (hidden) want.line = 0;
                    skip = !dangling;
                    CHECK_EQ("evaluation", evaluated, dangling && logged ? 1 : 0, "evaluations of the message argument of a macro whose message is " << (dangling && logged ? "logged" : "not logged"));
                    CHECK_EQ("statement", other_branch, dangling ? 0 : 1, "the else branch after a macro");
                }
                else if (how == 2)
                {
                    want.message = x.text;
                    want.line = write_here(log, file, levels[at], x.text);
                    want.file = __FILE__;
                    want.function = "*";
                }
#if PLUTO_LOGGER_HIDE_SOURCE_INFO
                else if (how == 3) without_source(log, file, k, levels[at], x);
#endif
                else
                {
                    const std::string& f = *h.names.insert(text(c, 12, false) + "f").first;
                    const std::string& g = *h.names.insert(text(c, 12, false) + "g").first;
                    want.line = c.integer<int>();
                    want.file = f.c_str();
                    want.function = g.c_str();
                    via_members(log, file, k, levels[at], { f.c_str(), want.line, g.c_str() }, x, c.flag(0.5));
                }
            };
            if (elsewhere)
            {
                std::thread t(action);
                t.join();
                c.label("logged from another thread");
            }
            else action();
            want.thread = caller;
            if (logged && !skip) h.want.push_back(want);
            else ++h.skipped;
            if (expect.size() > 1000) c.label("long message");
            if (expect.empty() && logged) c.label("empty message");
        }
    }
    void compare(const std::vector<Record>& got, std::vector<Record> want)
    {
        for (std::size_t i = 0; i < want.size() && i < got.size(); ++i)
        {
            if (want[i].function == "*" && got[i].function.find("write_here") != std::string::npos) want[i].function = got[i].function;
            const std::string& f = want[i].file;
            if (got[i].file == f) continue;
        }
        for (std::size_t i = 0; i < want.size(); ++i)
        {
            CHECK("missing", i < got.size(), "only " << got.size() << " of " << want.size() << " messages arrived; the first missing is " << describe(want[i]));
            CHECK(got[i].message != want[i].message ? "text" : "record", got[i] == want[i], "message " << i + 1 << " was recorded as " << describe(got[i]) << ", expected " << describe(want[i]));
        }
        CHECK("extra", got.size() == want.size(), "a message that must not be logged was: " << describe(got[want.size()]));
    }
}

VPROP(history, .quick = 12000)
{
    const std::string file = pbt::scratch_dir() + "/p31.log";
    auto capture = std::make_shared<Capture>();
    History h;
    {
        pluto::logger log;
        CHECK_EQ("initial level", static_cast<int>(log.level()), 0, "the initial level");
        CHECK("is_logging", log.is_logging(), "is_logging() of a new logger is false");
        log.write_header(false).log_writer([capture](std::ostream& o, const pluto::log_entry& e) { (*capture)(o, e); });
        if (c.flag(0.5)) log.buffer_flush_size(1 + c.draw(5));
        history(c, log, file, h, false);
    }
    c.nontrivial(!h.want.empty() && h.skipped > 0);
    compare(capture->records, h.want);
    fs::remove(file);
}

// a stream that is ended while its level is not logged stays ended
VPROP(stream_levels, .quick = 3000)
{
    const std::string file = pbt::scratch_dir() + "/p31.log";
    auto capture = std::make_shared<Capture>();
    std::vector<std::string> want;
    {
        pluto::logger log;
        log.write_header(false).log_writer([capture](std::ostream& o, const pluto::log_entry& e) { (*capture)(o, e); });
        const std::size_t n = 1 + c.length(8);
        for (std::size_t i = 0; i < n; ++i)
        {
            const std::size_t level = c.draw(9), at_end = c.draw(10), at_exit = c.draw(10);
            const bool end = c.flag(0.7);
            const std::string text = "m" + std::to_string(i);
            NOTE(" stream/" << level_names[level] << " ended at level " << (end ? static_cast<int>(at_end) : -1) << ", destroyed at " << at_exit << ";");
            {
                auto s = log.stream(file, levels[level], { "f", 1, "g" });
                s << text;
                if (end)
                {
                    log.level(static_cast<L>(at_end));
                    s.end();
                    if (c.flag(0.3)) s << "late";
                    if (level >= at_end && at_end != 9) want.push_back(text);
                }
                log.level(static_cast<L>(at_exit));
                if (!end && level >= at_exit && at_exit != 9) want.push_back(text);
            }
            c.nontrivial(end && (level >= at_end) != (level >= at_exit));
        }
    }
    std::vector<std::string> got;
    for (const Record& r : capture->records) got.push_back(r.message);
    CHECK_EQ("stream", got, want, "messages of streams ended or destroyed at other levels");
    fs::remove(file);
}

// messages of several megabytes
VPROP(huge, .quick = 60)
{
    const std::string file = pbt::scratch_dir() + "/p31.log";
    auto capture = std::make_shared<Capture>();
    std::vector<std::string> want;
    {
        pluto::logger log;
        log.write_header(false).log_writer([capture](std::ostream& o, const pluto::log_entry& e) { (*capture)(o, e); });
        for (std::size_t i = 1 + c.draw(3); i > 0; --i)
        {
            const std::size_t size = (std::size_t(1) << (16 + c.draw(8))) + static_cast<std::size_t>(c.around(-3, 3)) + (c.flag(0.5) ? c.draw(1000000) : 0);
            const std::size_t how = c.draw(6);
            const std::string s(size, static_cast<char>('a' + c.draw(26)));
            NOTE(" " << size << " bytes by way " << how);
            switch (how)
            {
            case 0: log.write(file, L::info, { "f", 1, "g" }, s); break;
            case 1: log.writef(file, L::info, { "f", 1, "g" }, "%s", s.c_str()); break;
            case 2: log.format(file, L::info, { "f", 1, "g" }, "{}", s); break;
            case 3: log.stream(file, L::info, { "f", 1, "g" }) << s; break;
            case 4: log.writef(file, L::info, { "f", 1, "g" }, "%*s", static_cast<int>(size), ""); break;
            default: PLUTO_LOG_STREAM_WITH(log, file, info, s); break;
            }
            want.push_back(how == 4 ? std::string(size, ' ') : s);
            c.nontrivial(size > 1000000);
        }
    }
    CHECK_EQ("missing", capture->records.size(), want.size(), "number of messages");
    for (std::size_t i = 0; i < want.size(); ++i) CHECK("text", capture->records[i].message == want[i], "message " << i + 1 << " of " << want[i].size() << " bytes was recorded as " << excerpt(capture->records[i].message));
    fs::remove(file);
}

// the macros without a logger use the one instance of the program
VPROP(instance, .quick = 1500, .fork_each = true)
{
    const std::string file = pbt::scratch_dir() + "/p31i.log";
    static auto* const capture = new Capture;
    static auto* const h = new History;
    pluto::logger& log = pluto::logger::instance();
    CHECK("instance", &log == &pluto::logger::instance(), "instance() gives different loggers");
    log.write_header(false).log_writer([](std::ostream& o, const pluto::log_entry& e) { (*capture)(o, e); });
    history(c, log, file, *h, true);
    c.nontrivial(!h->want.empty() && h->skipped > 0);
    log.level(L::verbose);
    log.write(file, L::fatal, { "end", 0, "end" }, "end");
    std::vector<Record> got;
    for (int waited = 0; ; ++waited)
    {
        {
            const std::lock_guard<std::mutex> lock(capture->mutex);
            got = capture->records;
        }
        if (!got.empty() && got.back().message == "end") break;
        CHECK("instance", waited < 20000, "the last message did not arrive within 20 s");
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    got.pop_back();
    compare(got, h->want);
}

#ifdef MAIN
int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P31", "cases: histories of level changes and logging calls of every kind (write, writef, format, stream; members, macros, the program's instance; with, without and with the default source) with generated arguments and schemes, compared record by record with independent formatting; non-trivial: some messages logged and some filtered");
}
#endif
