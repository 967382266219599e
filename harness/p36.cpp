// P36: every build behaves the same.
#include "pbt.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <cerrno>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
using pbt::show;

namespace
{
const char* const HEADERS[] = { "pluto.hpp", "pluto/compare.hpp", "pluto/container.hpp", "pluto/filesystem.hpp", "pluto/iterator.hpp", "pluto/locale.hpp", "pluto/logger.hpp", "pluto/lru_cache.hpp", "pluto/platform.hpp", "pluto/range.hpp", "pluto/safe_lru_cache.hpp", "pluto/scope.hpp", "pluto/standard.hpp", "pluto/stopwatch.hpp", "pluto/string.hpp", "pluto/thread_pool.hpp", "pluto/unicode.hpp", "pluto/value.hpp", "pluto/version.hpp" };
const unsigned N_HEADERS = sizeof(HEADERS) / sizeof(HEADERS[0]);
const char* const COMPILERS[] = { "g++", "clang++" };
const int STANDARDS[] = { 14, 17, 20, 23 };

// ---- running the compiler
std::string include_dir() { const char* p = std::getenv("VERIF_INCLUDE"); return p ? p : "/repo/include"; }
struct Result { int status; std::string text; };
Result run_once(const std::string& command)
{
    Result r{ -1, "" };
    FILE* f = ::popen((command + " 2>&1").c_str(), "r");
    if (!f) return r;
    // reading without blocking: a process that sleeps for long counts as hanging
    ::fcntl(::fileno(f), F_SETFL, O_NONBLOCK);
    char buffer[4096];
    for (;;)
    {
        const ssize_t n = ::read(::fileno(f), buffer, sizeof buffer);
        if (n > 0) { if (r.text.size() < 200000) r.text.append(buffer, static_cast<std::size_t>(n)); }
        else if (n < 0 && (errno == EAGAIN || errno == EINTR)) ::usleep(1000);
        else break;
    }
    r.status = ::pclose(f);
    return r;
}
Result compile(const std::string& command)
{
    Result r{};
    for (int attempt = 0; attempt < 4; ++attempt)
    {
        r = run_once(command);
        // a compiler that was ended for want of memory says nothing about the headers
        if (r.status == 0 || (r.text.find("error") != std::string::npos && r.text.find("Killed") == std::string::npos && r.text.find("out of memory") == std::string::npos && r.text.find("Cannot allocate") == std::string::npos) || r.text.find("undefined reference") != std::string::npos || r.text.find("multiple definition") != std::string::npos) return r;
        ::sleep(3);
    }
    std::fprintf(stderr, "the compiler cannot be run: %s\n%s\n", command.c_str(), r.text.c_str());
    std::_Exit(99); // neither a pass nor a violation
}
std::string first_error(const std::string& text)
{
    const std::size_t at = std::min(text.find("error"), text.find("undefined reference"));
    const std::size_t start = at == std::string::npos ? 0 : text.rfind('\n', at) == std::string::npos ? 0 : text.rfind('\n', at) + 1;
    return text.substr(start, 600);
}
void write_file(const std::string& path, const std::string& text)
{
    std::ofstream f(path, std::ios::binary | std::ios::trunc);
    f << text;
}
bool exists(const char* p) { struct stat s; return ::stat(p, &s) == 0; }
std::string libraries(const int standard)
{
    std::string r = " -pthread";
    if (exists("/usr/lib/x86_64-linux-gnu/libtbb.so")) r += " -ltbb";
    if (standard == 14) r += " -lstdc++fs";
    return r;
}
std::string standard_flag(const int standard) { return " -std=c++" + std::to_string(standard); }
std::string dir()
{
    const std::string d = pbt::scratch_dir() + "/build";
    ::mkdir(d.c_str(), 0700);
    return d;
}
}

// every header by itself, twice in a row
PROP(headers, .quick = N_HEADERS * 8, .thorough = N_HEADERS * 8, .enumerate = true)
{
    const unsigned i = static_cast<unsigned>(c.draw(N_HEADERS * 8));
    const char* const header = HEADERS[i / 8];
    const char* const compiler = COMPILERS[i % 2];
    const int standard = STANDARDS[i / 2 % 4];
    const std::string text = std::string("#include <") + header + ">\n#include <" + header + ">\nint main() { return 0; }\n";
    NOTE(compiler << standard_flag(standard) << "\n" << text);
    c.nontrivial();
    const std::string file = dir() + "/header.cpp";
    write_file(file, text);
    const Result r = compile(std::string(compiler) + standard_flag(standard) + " -w -fsyntax-only -I" + include_dir() + " " + file);
    CHECK("header does not compile", r.status == 0, header << " alone does not compile with " << compiler << standard_flag(standard) << ": " << first_error(r.text));
}

// ---- programs of several translation units
namespace
{
struct Config
{
    std::string text;
    bool hide, overload, no_static, custom_clock, custom_log, custom_header;
    std::string level, locale;
    bool create_dirs, write_header;
    unsigned long max, flush, size, limit;
    bool defaults;
    std::vector<int> priorities;
};
const char* const LEVELS[] = { "verbose", "trace", "debug", "info", "notice", "warning", "error", "critical", "fatal", "off" };
int rank(const std::string& l) { for (int i = 0; i < 10; ++i) if (l == LEVELS[i]) return i; return -1; }
Config configuration(pbt::Case& c)
{
    Config k{};
    k.level = "verbose"; k.locale = "en_US.UTF-8"; k.create_dirs = k.write_header = true; k.flush = 1;
    k.priorities = { -128, -64, -32, 0, 32, 64, 127 };
    std::string& t = k.text;
    if (c.flag(0.3)) { k.hide = true; t += "#define PLUTO_LOGGER_HIDE_SOURCE_INFO 1\n"; }
    if (c.flag(0.3)) { k.overload = true; t += "#define PLUTO_STRING_OVERLOAD_FOR_UNICODE 1\n"; }
    if (c.flag(0.3)) { k.no_static = true; t += "#define PLUTO_LOCALE_NO_STATIC 1\n"; }
    if (c.flag(0.3)) { static const char* const l[] = { "C", "C.utf8", "POSIX" }; k.locale = c.pick(l); t += "#define PLUTO_LOCALE_DEFAULT_LOCALE \"" + k.locale + "\"\n"; }
    if (c.flag(0.3)) { k.level = LEVELS[c.draw(10)]; t += "#define PLUTO_LOGGER_INITIAL_LEVEL " + k.level + "\n"; }
    if (c.flag(0.3)) { k.create_dirs = c.flag(0.5); t += std::string("#define PLUTO_LOGGER_INITIAL_CREATE_DIRS ") + (k.create_dirs ? "true" : "false") + "\n"; }
    if (c.flag(0.3)) { k.write_header = c.flag(0.5); t += std::string("#define PLUTO_LOGGER_INITIAL_WRITE_HEADER ") + (k.write_header ? "true" : "false") + "\n"; }
    if (c.flag(0.3)) { k.max = 50 + c.draw(1000); t += "#define PLUTO_LOGGER_INITIAL_BUFFER_MAX_SIZE " + std::to_string(k.max) + "\n"; }
    if (c.flag(0.3)) { k.flush = 1 + c.draw(40); t += "#define PLUTO_LOGGER_INITIAL_BUFFER_FLUSH_SIZE " + std::to_string(k.flush) + "\n"; }
    if (c.flag(0.3)) { k.size = 100000 + c.draw(1000); t += "#define PLUTO_LOGGER_INITIAL_FILE_ROTATION_SIZE " + std::to_string(k.size) + "\n"; }
    if (c.flag(0.3)) { k.limit = 1 + c.draw(9); t += "#define PLUTO_LOGGER_INITIAL_FILE_ROTATION_LIMIT " + std::to_string(k.limit) + "\n"; }
    if (c.flag(0.3)) { k.custom_log = true; t += "namespace pluto { struct log_entry; }\n#include <ostream>\nvoid my_writer(std::ostream&, const pluto::log_entry&);\n#define PLUTO_LOGGER_INITIAL_LOG_WRITER my_writer\n"; }
    if (c.flag(0.3)) { k.custom_header = true; t += "#include <ostream>\nvoid my_header(std::ostream&);\n#define PLUTO_LOGGER_INITIAL_HEADER_WRITER my_header\n"; }
    if (c.flag(0.3))
    {
        k.custom_clock = true;
        t += "#include <chrono>\n#include <ctime>\nstruct my_clock { typedef std::chrono::microseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<my_clock> time_point; static const bool is_steady = false;\n"
             "  static time_point now() { return time_point(std::chrono::duration_cast<duration>(std::chrono::system_clock::now().time_since_epoch())); }\n"
             "  static std::time_t to_time_t(const time_point& t) { return static_cast<std::time_t>(t.time_since_epoch().count() / 1000000); } };\n"
             "#define PLUTO_LOGGER_CLOCK_TYPE my_clock\n";
    }
    if (c.flag(0.3)) t += "#include <chrono>\n#define PLUTO_THREAD_POOL_CLOCK_TYPE std::chrono::steady_clock\n";
    if (c.flag(0.3)) t += "#include <chrono>\n#define PLUTO_STOPWATCH_CLOCK_TYPE std::chrono::system_clock\n";
    if (c.flag(0.3))
    {
        static const char* const names[] = { "LOWEST", "LOWER", "LOW", "NORMAL", "HIGH", "HIGHER", "HIGHEST" };
        int low = -128 + static_cast<int>(c.draw(60));
        for (int i = 0; i < 7; ++i)
        {
            k.priorities[i] = low;
            t += std::string("#define PLUTO_THREAD_POOL_PRIORITY_") + names[i] + " " + std::to_string(low) + "\n";
            low += 1 + static_cast<int>(c.draw(25));
        }
    }
    return k;
}
std::string includes(pbt::Case& c, std::vector<unsigned> needed)
{
    // the needed headers and some others, in any order
    for (unsigned i = 0; i < N_HEADERS; ++i) if (c.flag(i == 12 ? 0.05 : 0.3)) needed.push_back(i);
    std::string r;
    while (!needed.empty())
    {
        const std::size_t i = static_cast<std::size_t>(c.draw(needed.size()));
        r += std::string("#include <") + HEADERS[needed[i]] + ">\n";
        needed.erase(needed.begin() + static_cast<std::ptrdiff_t>(i));
    }
    return r;
}
// what a second unit does, also called from the first
const char* const SHARED =
    "namespace NAME {\n"
    "  void* the_logger() { return &pluto::logger::instance(); }\n"
    "  void* the_pool() { return &pluto::thread_pool::instance(); }\n"
    "#if !PLUTO_LOCALE_NO_STATIC\n"
    "  const void* the_locale() { return &pluto::default_locale(); }\n"
    "#endif\n"
    "  std::string locale_name() { return pluto::default_locale().name(); }\n"
    "  std::string work(const std::string& s) {\n"
    "    std::string t = s; pluto::upper(t, std::locale::classic()); pluto::replace(t, \"A\", \"aa\"); t += pluto::join(pluto::split(s, \",\"), \"-\"); t += pluto::hex(255); pluto::strip(t);\n"
    "    t += pluto::str(pluto::u16str(s)) + pluto::str(pluto::u32str(pluto::wstr(s))) + pluto::str(pluto::contains(s, \"b\")); \n"
    "    pluto::lru_cache<int, int> k(1); k.insert(1, 2); k.insert(2, 3); t += pluto::str(k.contains(1)); pluto::safe_lru_cache<int, int> q(2); q.insert(1, 1); t += pluto::str(q.size());\n"
    "    { pluto::on_scope_exit e([&] { t += 'x'; }); pluto::on_scope_success g([&] { t += 's'; }); pluto::on_scope_fail f([&] { t += 'f'; }); }\n"
    "    std::vector<int> v{ 3, 1, 2 }; pluto::sort(v); t += pluto::str(v[0]) + pluto::str((pluto::max)(v)) + pluto::str(pluto::sum(v)); t += pluto::str(pluto::range<int>(1, 4).size()); pluto::stopwatch w(true); w.stop(); t += pluto::file_name(\"a/b.c\");\n"
    "    t += pluto::str(pluto::is_iequal<char>()('a', 'A')) + pluto::str(pluto::abs(-5)) + pluto::str(pluto::any(v)) + pluto::str(pluto::filesystem::path(\"x/y\").filename().string());\n"
    "#if PLUTO_STRING_OVERLOAD_FOR_UNICODE\n"
    "    t += pluto::str(pluto::split(std::u32string(U\"a,b\"), U\",\").size()) + pluto::str(pluto::contains(std::u16string(u\"abc\"), u\"b\")) + pluto::str(pluto::u32str(pluto::join(std::vector<std::u32string>{ U\"p\", U\"q\" }, U\"+\")));\n"
    "    std::u32string m = U\"mm\"; pluto::replace(m, U\"m\", U\"n\"); t += pluto::str(m); t += pluto::str(pluto::contains(m, U\"z\")) + pluto::str(pluto::find(m, U\"n\") == m.begin());\n"
    "#endif\n"
    "    return t;\n"
    "  }\n"
    "  void log(pluto::logger& l) {\n"
    "    PLUTO_LOG_WRITE_WITH(l, \"d/log.txt\", info, \"written NAME\"); PLUTO_LOG_WRITEF_WITH(l, \"d/log.txt\", error, \"formatted %s %d\", \"NAME\", 7); PLUTO_LOG_STREAM_WITH(l, \"d/log.txt\", debug, \"streamed \" << \"NAME\" << ' ' << 8);\n"
    "#if PLUTO_UTILS_HAS_FORMAT\n"
    "    PLUTO_LOG_FORMAT_WITH(l, \"d/log.txt\", fatal, \"new {} {}\", \"NAME\", 9);\n"
    "#endif\n"
    "#if PLUTO_LOGGER_HIDE_SOURCE_INFO\n"
    "    l.write(\"d/log.txt\", pluto::log_level::warning, \"short NAME\"); l.writef(\"d/log.txt\", pluto::log_level::trace, \"short %d NAME\", 5); l.stream(\"d/log.txt\", pluto::log_level::notice) << \"short stream NAME\";\n"
    "#endif\n"
    "  }\n"
    "}\n";
std::string named(const char* name) { std::string r = SHARED; for (std::size_t at; (at = r.find("NAME")) != std::string::npos;) r.replace(at, 4, name); return r; }
std::string declared(const char* name) { return std::string("namespace ") + name + " { void* the_logger(); void* the_pool(); const void* the_locale(); std::string locale_name(); std::string work(const std::string&); void log(pluto::logger&); }\n"; }
}

PROP(programs, .quick = 48, .thorough = 400, .cpu_limit = 100)
{
    const char* const compiler = c.pick(COMPILERS);
    const int standard = STANDARDS[c.draw(4)];
    static const char* const opts[] = { " -O0", " -O2" };
    const char* const opt = opts[c.draw(10) < 8 ? 0 : 1];
    const Config k = configuration(c);
    const std::vector<unsigned> need = { 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16, 17 };
    const auto wanted = [&] { return c.flag(0.6) ? need : std::vector<unsigned>{ 0 }; };
    const std::string std_includes = "#include \"config.h\"\n";
    const std::string after = "#include <string>\n#include <vector>\n#include <fstream>\n#include <iostream>\n#include <sstream>\n#include <future>\n";
    const std::string one = std_includes + includes(c, wanted()) + after + named("one") + declared("two") +
        "int bad = 0;\n#define IS(x) do { if (!(x)) { std::cout << \"not: \" #x << std::endl; ++bad; } } while (0)\n"
        + (k.custom_log ? "void my_writer(std::ostream& s, const pluto::log_entry& e) { s << \"mine:\" << e.message; }\n" : "")
        + (k.custom_header ? "void my_header(std::ostream& s) { s << \"my header\"; }\n" : "") +
        "int main() {\n"
        "  IS(one::the_logger() == two::the_logger()); IS(one::the_pool() == two::the_pool());\n"
        "#if !PLUTO_LOCALE_NO_STATIC\n  IS(one::the_locale() == two::the_locale());\n#endif\n"
        "  IS(one::locale_name() == \"" + k.locale + "\" && two::locale_name() == one::locale_name()" + (k.locale == "POSIX" ? " || one::locale_name() == \"C\"" : "") + ");\n"
        "  const char* const samples[] = { \"\", \"a,b\", \" Abc \", \"\\xC3\\xA9\\xF0\\x9F\\x98\\x80\" };\n"
        "  for (const char* s : samples) { IS(one::work(s) == two::work(s)); std::cout << one::work(s) << std::endl; }\n"
        "  { pluto::logger l; IS(l.level() == pluto::log_level::" + k.level + "); IS(l.create_dirs() == " + (k.create_dirs ? "true" : "false") + "); IS(l.write_header() == " + (k.write_header ? "true" : "false") + ");\n"
        "    IS(l.buffer_max_size() == " + std::to_string(k.max) + "); IS(l.buffer_flush_size() == " + std::to_string(k.flush) + "); IS(l.file_rotation_size() == " + std::to_string(k.size) + "); IS(l.file_rotation_limit() == " + std::to_string(k.limit) + ");\n"
        "    one::log(l); two::log(l); IS(l.num_discarded_logs() == 0); }\n"
        "  { std::vector<int> order; pluto::thread_pool p(1); std::promise<void> go, started; p.run_async([&] { started.set_value(); go.get_future().wait(); }); started.get_future().wait();\n"
        "    typedef pluto::thread_pool::priority pri; const pri all[] = { pri::normal, pri::lowest, pri::highest, pri::low, pri::higher, pri::lower, pri::high };\n"
        "    for (pri x : all) p.run_async([&order, x] { order.push_back(static_cast<int>(x)); }, x);\n"
        "    p.run_async([&order] { order.push_back(1000); });\n"
        "    go.set_value(); p.wait_until_all_tasks_complete(); std::cout << \"order\"; for (int x : order) std::cout << ' ' << x; std::cout << std::endl;\n"
        "    bool ran = false; p.run_sync([&] { ran = true; }); IS(ran); p.run_after(std::chrono::microseconds(10), [&] { order.clear(); }); }\n"
        "  { pluto::stopwatch w(true); IS(w.is_running()); w.stop(); IS(w.time().count() >= 0); }\n"
        "  std::cout << \"log\" << std::endl; { std::ifstream f(\"d/log.txt\"); std::string s; while (std::getline(f, s)) std::cout << s << std::endl; }\n"
        "  std::cout << \"end \" << bad << std::endl; return bad ? 1 : 0; }\n";
    const std::string two = std_includes + includes(c, wanted()) + after + named("two");
    const std::string three = std_includes + includes(c, {}) + "int three() { return 3; }\n";
    NOTE(compiler << standard_flag(standard) << opt << "\n--- config.h\n" << k.text << "--- one.cpp\n" << one << "--- two.cpp\n" << two << "--- three.cpp\n" << three);
    c.nontrivial(!k.text.empty());
    const std::string d = dir();
    run_once("rm -rf " + d + "/d " + d + "/program");
    ::mkdir((d + "/d").c_str(), 0700);
    write_file(d + "/config.h", k.text);
    write_file(d + "/one.cpp", one);
    write_file(d + "/two.cpp", two);
    write_file(d + "/three.cpp", three);
    const Result r = compile("cd " + d + " && " + compiler + standard_flag(standard) + opt + " -w -I" + include_dir() + " one.cpp two.cpp three.cpp -o program" + libraries(standard));
    CHECK("program does not build", r.status == 0, "a program of three units does not build with " << compiler << standard_flag(standard) << opt << ": " << first_error(r.text));
    const Result p = run_once("cd " + d + " && exec timeout 60 ./program");
    NOTE("--- output\n" << p.text);
    CHECK("program ends", p.status == 0 && p.text.find("end 0") != std::string::npos, "the program built with " << compiler << standard_flag(standard) << opt << " ends with status " << p.status << " and says:\n" << p.text.substr(0, 2000));
    // the work: fixed answers
    std::string expected;
    const std::string tail = k.overload ? std::string("21p+qnn01") : "";
    {
        // by hand from the documentation: upper, replace A by aa, pieces joined with '-', hex, conversions there and back, contains "b", ...
        const std::string samples[] = { "", "a,b", " Abc ", "\xC3\xA9\xF0\x9F\x98\x80" };
        const std::string first[] = { "", "aa,Ba-b", "aaBC  Abc", "\xC3\xA9\xF0\x9F\x98\x80\xC3\xA9\xF0\x9F\x98\x80" };
        for (int i = 0; i < 4; ++i)
        {
            std::string t = first[i] + (i == 2 ? " " : "") + "0xff" + samples[i] + samples[i] + (samples[i].find('b') != std::string::npos ? "1" : "0");
            t += "01sx1363b.c151y";
            expected += t + tail + "\n";
        }
    }
    CHECK("results", p.text.compare(0, expected.size(), expected) == 0, "the program built with " << compiler << standard_flag(standard) << opt << " says:\n" << p.text.substr(0, expected.size() + 200) << "\nexpected:\n" << expected);
    // priorities: by the configured numbers, equals in order of arrival; the default priority is normal
    {
        std::string order = "order";
        for (int i = 6; i >= 0; --i) { order += " " + std::to_string(k.priorities[i]); if (i == 3) order += " 1000"; }
        CHECK("priorities", p.text.find(order + "\n") != std::string::npos, "tasks do not run in the order \"" << order << "\" of the configured priorities:\n" << p.text);
    }
    // the log: the header if asked for, then the messages at or above the level
    {
        std::vector<std::string> want;
        const auto say = [&](const std::string& level, const std::string& m) { if (rank(level) >= rank(k.level) && k.level != "off") want.push_back(m); };
        for (const std::string name : { "one", "two" })
        {
            say("info", "written " + name);
            say("error", "formatted " + name + " 7");
            say("debug", "streamed " + name + " 8");
            if (standard >= 20) say("fatal", "new " + name + " 9");
            if (k.hide) { say("warning", "short " + name); say("trace", "short 5 " + name); say("notice", "short stream " + name); }
        }
        std::vector<std::string> lines;
        std::istringstream s(p.text.substr(p.text.find("\nlog\n") + 5));
        for (std::string line; std::getline(s, line) && line.compare(0, 4, "end ") != 0;) lines.push_back(line);
        std::size_t at = 0;
        if (!want.empty() && k.write_header)
        {
            if (k.custom_header) { CHECK("log header", lines.size() > 0 && lines[0] == "my header", "the log does not begin with the configured header:\n" << p.text); at = 1; }
            else { CHECK("log header", lines.size() > 1 && lines[0].compare(0, 9, "Timestamp") == 0 && (lines[0].find("Function") == std::string::npos) == k.hide, "the log does not begin with the default header:\n" << p.text); at = 2; }
        }
        CHECK("log lines", lines.size() - at == want.size(), "the log has " << lines.size() - at << " messages, expected " << want.size() << ":\n" << p.text);
        for (const std::string& m : want)
        {
            const std::string& line = lines[at++];
            const std::string text = k.custom_log ? "mine:" + m : "|" + m;
            CHECK("log line", line.size() >= text.size() && line.compare(line.size() - text.size(), text.size(), text) == 0 && (!k.custom_log || line == text), "the log line \"" << line << "\" does not hold the message \"" << m << "\"");
            if (!k.custom_log) CHECK("log fields", (std::count(line.begin(), line.end(), '|') == (k.hide ? 3 : 6)), "the log line \"" << line << "\" has the wrong number of fields");
        }
    }
}

// ---- constant evaluation gives what the program gives
namespace
{
std::string literal(const std::string& s, const char* prefix)
{
    std::string r = std::string(prefix) + "\"";
    char b[8];
    for (const char x : s) { std::snprintf(b, sizeof b, "\\%03o", static_cast<unsigned char>(x)); r += b; }
    return r + "\"";
}
std::string text(pbt::Case& c, const std::size_t max, const bool ascii)
{
    static const char* const pieces[] = { "a", "b", ",", " ", "A", "ab", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\x80", "\xC3", "\xF0\x9F", "\xED\xA0\x80" };
    std::string r;
    const std::size_t n = c.length(max);
    for (std::size_t i = 0; i < n; ++i) r += pieces[c.draw(ascii ? 6 : 13)];
    return r;
}
std::string number(pbt::Case& c) { const long long v = c.integer<long long>() / 2; return "(" + std::to_string(v) + "LL)"; }
std::string array(pbt::Case& c, const char* type)
{
    std::string r = std::string("std::vector<") + type + ">{";
    const std::size_t n = c.length(8);
    for (std::size_t i = 0; i < n; ++i) r += (i ? "," : "") + std::to_string(static_cast<int>(c.draw(5)) - 1);
    return r + "}";
}
std::string call(pbt::Case& c)
{
    const auto s = [&] { return "std::string(" + literal(text(c, 6, true), "") + "sv)"; };
    const auto any = [&] { return "std::string(" + literal(text(c, 6, false), "") + "sv)"; };
    const auto v = [&] { return array(c, "int"); };
    const auto n = [&] { return std::to_string(static_cast<int>(c.draw(12)) - 6); };
    static const char* const ints[] = { "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long long", "unsigned long long" };
    switch (c.draw(26))
    {
    case 0: return std::string("pluto::bin(static_cast<") + c.pick(ints) + ">(" + number(c) + "))";
    case 1: return std::string("pluto::oct(static_cast<") + c.pick(ints) + ">(" + number(c) + "))";
    case 2: return std::string("pluto::hex(static_cast<") + c.pick(ints) + ">(" + number(c) + "))";
    case 3: return "pluto::u16str(" + any() + ")";
    case 4: return "pluto::u32str(" + any() + ")";
    case 5: return "pluto::wstr(" + any() + ")";
    case 6: return "pluto::u8str(" + any() + ")";
    case 7: return "pluto::str(pluto::u16str(" + any() + "))";
    case 8: return "pluto::str(pluto::u32str(" + any() + "))";
    case 9: return "pluto::str(pluto::wstr(" + any() + "))";
    case 10: return "pluto::split(" + s() + "," + s() + ")";
    case 11: return "pluto::split_any_of(" + s() + "," + s() + ")";
    case 12: return "[] { auto x = " + s() + "; pluto::replace(x," + s() + "," + s() + "); return x; }()";
    case 13: return "[] { auto x = " + s() + "; pluto::replace_any_of(x," + s() + "," + s() + "); return x; }()";
    case 14: return "pluto::join(std::vector<std::string>{" + s() + "," + s() + "}," + s() + ")";
    case 15: return "pluto::contains(" + s() + "," + s() + ")";
    case 16: return "(pluto::find(" + s() + "," + s() + "),0)";
    case 17: return "pluto::starts_with(" + s() + "," + s() + ") + 2 * pluto::ends_with(" + s() + "," + s() + ")";
    case 18: return "pluto::equals(" + v() + "," + v() + ") + 2 * pluto::starts_with(" + v() + "," + v() + ") + 4 * pluto::ends_with(" + v() + "," + v() + ")";
    case 19: return "pluto::slice(" + v() + "," + n() + "," + n() + ")";
    case 20: return "pluto::map(" + v() + ",[](int x) { return x * 2; })";
    case 21: return "[] { auto x = " + v() + "; pluto::sort(x); pluto::reverse(x); pluto::filter(x, [](int e) { return e > 0; }); return x; }()";
    case 22: return "pluto::any(" + v() + ") + 2 * pluto::all(" + v() + ") + 4 * static_cast<int>(pluto::count(" + v() + "," + n() + ")) + pluto::sum(" + v() + ")";
    case 23: return "[] { const auto x = " + v() + "; return pluto::rfind_elem(x," + n() + ") - x.begin(); }() + [] { const auto x = " + v() + "; return pluto::find_sequence(x," + v() + ") - x.begin(); }() * 16";
    case 24: return "[] { const pluto::range<int> x(" + n() + "," + n() + "), y(" + n() + "," + n() + "); return static_cast<int>(x.size()) * 32 + x.is_overlapping(y) + x.is_less(y) * 2 + (x == y) * 4 + (x <= y) * 8; }()";
    default: return "std::string(pluto::file_name(" + literal(text(c, 4, true) + "/" + text(c, 4, true), "") + ")) + pluto::log_level_to_c_str(static_cast<pluto::log_level>(" + n() + ")) + pluto::log_level_to_shortened(static_cast<pluto::log_level>(" + n() + "))";
    }
}
}
PROP(constant_evaluation, .quick = 24, .thorough = 300, .cpu_limit = 100)
{
    const char* const compiler = c.pick(COMPILERS);
    const int standard = STANDARDS[2 + c.draw(2)];
    std::vector<std::string> calls;
    const std::size_t n = 1 + c.draw(24);
    std::string body;
    for (std::size_t i = 0; i < n; ++i)
    {
        calls.push_back(call(c));
        body += "  check([] { return digest(" + calls.back() + "); });\n";
    }
    const std::string program =
        "#include <pluto.hpp>\n#include <cstdio>\n#include <string_view>\n#include <type_traits>\nusing namespace std::literals;\n"
        "typedef unsigned long long u64;\n"
        "template<class T> constexpr u64 digest(const T& x) { if constexpr (std::is_arithmetic_v<T>) return static_cast<u64>(x) * 0x9E3779B97F4A7C15ull + 77; else { u64 h = 1469598103934665603ull; for (const auto& e : x) h = (h ^ digest(e)) * 1099511628211ull; return h; } }\n"
        "template<class F> concept constant = requires { typename std::integral_constant<u64, F{}()>; };\n"
        "template<class F> void check(F f) { const u64 now = f(); if constexpr (constant<F>) { constexpr u64 then = F{}(); std::printf(\"%s\\n\", then == now ? \"same\" : \"differs\"); } else std::printf(\"not constant\\n\"); }\n"
        "int main() {\n" + body + "}\n";
    NOTE(compiler << standard_flag(standard) << "\n" << program);
    const std::string d = dir();
    write_file(d + "/constant.cpp", program);
    const Result r = compile("cd " + d + " && " + compiler + standard_flag(standard) + " -w -I" + include_dir() + " constant.cpp -o constant" + libraries(standard));
    CHECK("program does not build", r.status == 0, "calls do not build with " << compiler << standard_flag(standard) << ": " << first_error(r.text));
    const Result p = run_once("cd " + d + " && exec timeout 60 ./constant");
    CHECK("program ends", p.status == 0, "the program ends with status " << p.status << ": " << p.text);
    std::istringstream s(p.text);
    std::size_t i = 0;
    for (std::string line; std::getline(s, line); ++i)
    {
        CHECK("constant evaluation", line != "differs", "evaluated while compiling with " << compiler << standard_flag(standard) << ", this gives another result than when run: " << calls[i]);
        if (line == "same") { c.nontrivial(); c.label("constant expression"); }
        else c.label("not a constant expression");
    }
    CHECK("program ends", i == n, "the program printed " << i << " results for " << n << " calls");
}

// ---- the same calls in every build
namespace
{
struct Build
{
    std::string name;
    int standard;
    const char* (*eval)(unsigned, const long long*, const std::uint32_t* const*, const std::size_t*, std::size_t*);
    int (*has)(unsigned);
};
unsigned n_ops;
const char* (*op_name)(unsigned);
const std::vector<Build>& builds()
{
    static const std::vector<Build> all = []
    {
        std::vector<Build> v;
        std::istringstream list(std::getenv("VERIF_LIBS") ? std::getenv("VERIF_LIBS") : "");
        for (std::string path; std::getline(list, path, ':');)
        {
            void* h = ::dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
            if (!h) { std::fprintf(stderr, "%s\n", ::dlerror()); std::_Exit(99); }
            Build b;
            b.name = reinterpret_cast<const char* (*)()>(::dlsym(h, "p36_build"))();
            b.eval = reinterpret_cast<decltype(b.eval)>(::dlsym(h, "p36_eval"));
            b.has = reinterpret_cast<decltype(b.has)>(::dlsym(h, "p36_has"));
            n_ops = reinterpret_cast<unsigned (*)()>(::dlsym(h, "p36_count"))();
            op_name = reinterpret_cast<const char* (*)(unsigned)>(::dlsym(h, "p36_name"));
            v.push_back(b);
        }
        if (v.empty()) { std::fprintf(stderr, "no builds to compare (VERIF_LIBS)\n"); std::_Exit(99); }
        return v;
    }();
    return all;
}
typedef std::vector<std::uint32_t> Text;
std::uint32_t symbol(pbt::Case& c, const int alphabet)
{
    static const std::uint32_t wide[] = { 0x20, 0x85, 0xA0, 0x1680, 0x2003, 0x2028, 0x3000, 0xFEFF, 0x200B, 0xE9, 0xC9, 0x130, 0x131, 0x1C5, 0xDF, 0x1E9E, 0x3C2, 0x3A3, 0x10400, 0x10428, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0 };
    switch (alphabet)
    {
    case 0: return "ab"[c.draw(2)];
    case 1: return "aAbB ,\t\n"[c.draw(8)];
    case 2: return "0123456789-+. exEinfatru/\\"[c.draw(26)];
    case 3: return c.pick(wide);
    case 4: return static_cast<std::uint32_t>(0x110000 + c.draw(0x1000));
    case 5: return static_cast<std::uint32_t>(c.draw(0x3000));
    case 6: return static_cast<std::uint32_t>(c.draw(0x110000));
    default: return c.flag(0.3) ? c.pick(wide) : c.flag(0.3) ? static_cast<std::uint32_t>(0x110000 + c.draw(0x1000)) : static_cast<std::uint32_t>("aAbB ,"[c.draw(6)]);
    }
}
Text generate(pbt::Case& c, const std::size_t max, const Text* around)
{
    Text t;
    const int alphabet = static_cast<int>(c.draw(8));
    const std::size_t n = c.length(max);
    for (std::size_t i = 0; i < n; ++i)
    {
        if (around && !around->empty() && c.flag(0.3))
        {
            const std::size_t from = static_cast<std::size_t>(c.draw(around->size())), size = static_cast<std::size_t>(c.draw(around->size() - from + 1));
            t.insert(t.end(), around->begin() + static_cast<std::ptrdiff_t>(from), around->begin() + static_cast<std::ptrdiff_t>(from + size));
        }
        else t.push_back(symbol(c, alphabet));
    }
    return t;
}
}
PROP(same_results, .quick = 60000, .thorough = 1500000)
{
    const std::vector<Build>& all = builds();
    const unsigned op = static_cast<unsigned>(c.draw(n_ops));
    long long n[6];
    for (long long& x : n) x = c.flag(0.5) ? c.integer<long long>() : static_cast<long long>(c.draw(64));
    Text t[4];
    t[1] = generate(c, 4, nullptr);
    t[0] = generate(c, 40, &t[1]);
    if (c.flag(0.05)) t[1] = t[0];
    t[2] = generate(c, 6, &t[1]);
    t[3] = generate(c, 3, nullptr);
    NOTE(op_name(op) << "\nnumbers " << n[0] << " " << n[1] << " " << n[2] << " " << n[3] << " " << n[4] << " " << n[5] << "\n");
    for (const Text& x : t) NOTE("text " << pbt::show_units(reinterpret_cast<const char32_t*>(x.data()), x.size()) << "\n");
    const std::uint32_t* data[4];
    std::size_t sizes[4];
    for (int i = 0; i < 4; ++i) { data[i] = t[i].data(); sizes[i] = t[i].size(); }
    std::string first;
    const Build* by = nullptr;
    for (const Build& b : all)
    {
        if (!b.has(op)) continue;
        std::size_t size = 0;
        const char* p = b.eval(op, n, data, sizes, &size);
        if (!by)
        {
            by = &b;
            first.assign(p, size);
            NOTE("answer of " << b.name << "\n" << first << "\n");
            continue;
        }
        if (size == first.size() && std::memcmp(p, first.data(), size) == 0) continue;
        std::size_t at = 0;
        while (at < size && at < first.size() && p[at] == first[at]) ++at;
        const std::size_t from = first.rfind('\n', at ? at - 1 : 0) == std::string::npos ? 0 : first.rfind('\n', at ? at - 1 : 0) + 1;
        pbt::Msg m;
        m << op_name(op) << ": built as (" << by->name << ") the result is " << pbt::show(first.substr(from, 200)) << ", built as (" << b.name << ") it is " << pbt::show(std::string(p, size).substr(from, 200));
        pbt::fail("results differ", m.str());
    }
    c.label(op_name(op));
    c.nontrivial(!t[0].empty());
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P36", "cases: every header x standard x compiler (exhaustive); generated programs of three units with generated settings and include orders; generated calls evaluated while compiling and when run; generated calls evaluated by every build; non-trivial: at least one setting differs from its default (programs), a call is a constant expression (constant_evaluation), non-empty text (same_results)");
}
