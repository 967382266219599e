// P37: the locales the library provides.  Compiled four times, with and without caching, with three default locales (namespace renamed).
// Every case runs in a child process, as caches are filled once and the environment and the global locale are changed.
#include "pbt.hpp"
#include <cstdlib>
#include <locale>
#include <string>
#include <thread>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#if defined(DEFAULT_CLASSIC)
#define PLUTO_LOCALE_DEFAULT_LOCALE std::locale::classic()
#define DEFAULT_NAME "C"
#elif defined(DEFAULT_UTF8)
#define PLUTO_LOCALE_DEFAULT_LOCALE "C.utf8"
#define DEFAULT_NAME "C.utf8"
#else
#define DEFAULT_NAME "en_US.UTF-8"
#endif
#include <pluto/locale.hpp>
#include <pluto/string.hpp>
#ifndef VARIANT
#define VARIANT cached
#endif
#define NAME2(a, b) a##_##b
#define NAME1(a, b) NAME2(a, b)
#define VPROP(name, ...) PROP2(NAME1(name, VARIANT), __VA_ARGS__)
#define PROP2(name, ...) PROP(name, __VA_ARGS__)

namespace
{
const char* const NAMES[] = { "C", "en_US.UTF-8", "C.utf8", "POSIX" };
const char* const VARIABLES[] = { "LC_ALL", "LC_CTYPE", "LANG", "LC_NUMERIC" };
const wchar_t WIDE[] = { L'a', L'Z', L'\u00e9', L'\u00c9', L'\u03c3', L'\u0416', L'1', L' ', L'\u2003', L'\u00df' };
enum Op { ENVIRONMENT, GLOBAL, ASK_C, ASK_SYSTEM, ASK_DEFAULT, OMITTED, FACET, THREADS };
struct Step { Op op; int variable{ 0 }, value{ 0 }; std::wstring a, b; };

// a facet of the program's own
struct Swapped : std::ctype<wchar_t>
{
    using std::ctype<wchar_t>::ctype;
    wchar_t do_toupper(wchar_t x) const override { return x == L'1' ? L'!' : x; }
    const wchar_t* do_toupper(wchar_t* b, const wchar_t* e) const override { for (; b != e; ++b) *b = do_toupper(*b); return e; }
};

struct Child
{
    std::vector<const std::locale*> held; // addresses of what was returned by reference, and what it was
    std::vector<std::locale> copies;
    std::vector<std::locale> copies_of_system; // with caching: the system locale when it was first asked for
    static bool same(const std::locale& l, const std::locale& expected)
    {
        if (l.name() != expected.name()) return false;
        const auto &f = std::use_facet<std::ctype<wchar_t>>(l), &g = std::use_facet<std::ctype<wchar_t>>(expected);
        for (wchar_t x : WIDE) if (f.toupper(x) != g.toupper(x) || f.tolower(x) != g.tolower(x) || f.is(std::ctype_base::space, x) != g.is(std::ctype_base::space, x)) return false;
        return std::use_facet<std::numpunct<char>>(l).thousands_sep() == std::use_facet<std::numpunct<char>>(expected).thousands_sep();
    }
    static std::string wrong(const char* what, const std::locale& l, const std::locale& expected)
    {
        return std::string(what) + " is the locale \"" + l.name() + "\", expected \"" + expected.name() + "\"";
    }
    std::string ask(Op op)
    {
        const char* const what = op == ASK_C ? "c_locale()" : op == ASK_SYSTEM ? "system_locale()" : "default_locale()";
        std::locale expected = op == ASK_C ? std::locale::classic() : op == ASK_DEFAULT ? std::locale(DEFAULT_NAME) : std::locale("");
#if !PLUTO_LOCALE_NO_STATIC
        if (op == ASK_SYSTEM)
        {
            if (copies_of_system.empty()) copies_of_system.push_back(expected);
            expected = copies_of_system[0];
        }
#endif
        const std::locale& l = op == ASK_C ? pluto::c_locale() : op == ASK_SYSTEM ? pluto::system_locale() : pluto::default_locale();
        if (!same(l, expected)) return wrong(what, l, expected);
#if !PLUTO_LOCALE_NO_STATIC
        const std::locale& r = op == ASK_C ? pluto::c_locale() : op == ASK_SYSTEM ? pluto::system_locale() : pluto::default_locale();
        held.push_back(&r);
        copies.push_back(expected);
#endif
        return "";
    }
    std::string omitted(const std::wstring& a, const std::wstring& b)
    {
        const std::locale d(DEFAULT_NAME);
#define SAME(call, given) if (!((call) == (given))) return #call " differs from the same call with the default locale " DEFAULT_NAME
        std::wstring u = a, v = a;
        pluto::upper(u); pluto::upper(v, d);
        SAME(u, v);
        u = v = a; pluto::lower(u); pluto::lower(v, d);
        SAME(u, v);
        SAME(pluto::is_upper(a), pluto::is_upper(a, d));
        SAME(pluto::is_lower(a), pluto::is_lower(a, d));
        u = v = a; pluto::lstrip(u); pluto::lstrip(v, d);
        SAME(u, v);
        u = v = a; pluto::rstrip(u); pluto::rstrip(v, d);
        SAME(u, v);
        u = v = a; pluto::strip(u); pluto::strip(v, d);
        SAME(u, v);
        SAME(pluto::iequals(a, b), pluto::iequals(a, b, d));
        SAME(pluto::istarts_with(a, b), pluto::istarts_with(a, b, d));
        SAME(pluto::iends_with(a, b), pluto::iends_with(a, b, d));
        SAME(pluto::ifind(a, b), pluto::ifind(a, b, d));
        SAME(pluto::irfind(a, b), pluto::irfind(a, b, d));
        SAME(pluto::icontains(a, b), pluto::icontains(a, b, d));
        for (wchar_t x : a)
        {
            SAME(pluto::upper(x), pluto::upper(x, d));
            SAME(pluto::lower(x), pluto::lower(x, d));
            SAME(pluto::is_upper(x), pluto::is_upper(x, d));
            for (wchar_t y : b)
            {
                SAME(pluto::is_iequal<wchar_t>{}(x, y), pluto::is_iequal<wchar_t>{ d }(x, y));
                SAME(pluto::is_iless<wchar_t>{}(x, y), pluto::is_iless<wchar_t>{ d }(x, y));
            }
        }
#undef SAME
        return "";
    }
    std::string facet(int value)
    {
        const std::locale l(std::locale(NAMES[value]), new Swapped);
        if (pluto::use_facet<wchar_t>(l).toupper(L'1') != L'!') return "use_facet of a locale with a facet of the program's own does not return that facet";
        std::wstring w = L"a1";
        pluto::upper(w, l);
        if (w != L"a!") return "upper with a locale with a facet of the program's own does not use that facet";
        const std::locale n(NAMES[value]);
        for (wchar_t x : WIDE) if (pluto::use_facet<wchar_t>(n).toupper(x) != std::toupper(x, n)) return std::string("use_facet of the locale ") + NAMES[value] + " returns another one's facet";
        for (int x = 1; x < 128; ++x) if (pluto::use_facet<char>(n).toupper(static_cast<char>(x)) != std::toupper(static_cast<char>(x), n)) return std::string("use_facet<char> of the locale ") + NAMES[value] + " returns another one's facet";
        return "";
    }
    std::string step(const Step& s)
    {
        switch (s.op)
        {
        case ENVIRONMENT: if (s.value < 0) unsetenv(VARIABLES[s.variable]); else setenv(VARIABLES[s.variable], NAMES[s.value], 1); return "";
        case GLOBAL: std::locale::global(std::locale(NAMES[s.value])); return "";
        case OMITTED: return omitted(s.a, s.b);
        case FACET: return facet(s.value);
        case THREADS:
        {
            std::vector<std::string> results(4);
            std::vector<Child> children(4);
            if (copies_of_system.empty()) copies_of_system.push_back(std::locale(""));
            for (auto& c : children) c.copies_of_system = copies_of_system;
            std::vector<std::thread> threads;
            for (std::size_t t = 0; t < 4; ++t) threads.emplace_back([&, t]
            {
                for (int k = 0; k < 3 && results[t].empty(); ++k) results[t] = children[t].ask(static_cast<Op>(ASK_C + (static_cast<int>(t) + k + s.value) % 3));
            });
            for (auto& t : threads) t.join();
            for (auto& r : results) if (!r.empty()) return "in one of several threads " + r;
            return "";
        }
        default: return ask(s.op);
        }
    }
    std::string run(const std::vector<Step>& steps)
    {
        for (auto v : VARIABLES) unsetenv(v);
        for (std::size_t i = 0; i < steps.size(); ++i)
        {
            std::string r = step(steps[i]);
            for (std::size_t k = 0; r.empty() && k < held.size(); ++k)
                if (!same(*held[k], copies[k])) r = "a locale returned before has changed: " + wrong("it", *held[k], copies[k]);
            if (!r.empty()) return "step " + std::to_string(i) + ": " + r;
        }
        return "";
    }
};
std::string text(const Step& s)
{
    switch (s.op)
    {
    case ENVIRONMENT: return s.value < 0 ? std::string("unset ") + VARIABLES[s.variable] : std::string(VARIABLES[s.variable]) + "=" + NAMES[s.value];
    case GLOBAL: return std::string("global ") + NAMES[s.value];
    case ASK_C: return "c_locale()";
    case ASK_SYSTEM: return "system_locale()";
    case ASK_DEFAULT: return "default_locale()";
    case OMITTED: return "calls without a locale";
    case FACET: return std::string("facets of ") + NAMES[s.value];
    default: return "ask from several threads";
    }
}
std::wstring word(pbt::Case& c)
{
    std::wstring w;
    for (std::size_t n = c.length(5); n > 0; --n) w.push_back(WIDE[c.draw(10)]);
    return w;
}
}
VPROP(provided, .quick = 12000)
{
    std::vector<Step> steps(1 + c.length(8));
    bool changed = false, asked = false;
    for (auto& s : steps)
    {
        s.op = static_cast<Op>(c.weighted({ 3, 2, 1, 3, 2, 1, 0.5, 0.5 }));
        if (s.op == ENVIRONMENT) { s.variable = static_cast<int>(c.draw(4)); s.value = static_cast<int>(c.draw(5)) - 1; }
        if (s.op == GLOBAL || s.op == FACET || s.op == THREADS) s.value = static_cast<int>(c.draw(4));
        if (s.op == OMITTED) { s.a = word(c); s.b = word(c); if (c.flag(0.5)) s.b = s.a.substr(c.draw(s.a.size() + 1)); }
        NOTE(text(s) << "; ");
        asked |= changed && s.op >= ASK_C && s.op != FACET;
        changed |= s.op == GLOBAL || s.op == ENVIRONMENT;
    }
    c.nontrivial(asked);
    int p[2];
    if (pipe(p)) return;
    const pid_t pid = fork();
    if (pid == 0)
    {
        close(p[0]);
        std::string r;
        try { r = Child{}.run(steps); }
        catch (const std::exception& e) { r = std::string("an exception: ") + e.what(); }
        if (!r.empty() && write(p[1], r.data(), r.size()) < 0) _exit(3);
        _exit(r.empty() ? 0 : 1);
    }
    close(p[1]);
    std::string r;
    char buffer[4096];
    for (ssize_t n; (n = read(p[0], buffer, sizeof buffer)) > 0;) r.append(buffer, static_cast<std::size_t>(n));
    close(p[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    CHECK("locale", r.empty(), r);
    CHECK("ended", WIFEXITED(status) && WEXITSTATUS(status) == 0, "the process ended with status " << status);
}
#ifndef SECOND
int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P37", "cases: programs that change the environment and the global locale and ask for locales, each in a process of its own; non-trivial: a locale is asked for after a change of either");
}
#endif
