// P06: stripping and letter case follow the locale.  Compiled twice: the second object has the overloads for Unicode strings on
// (namespace renamed).
#include "strings.hpp"
#include <pluto/string.hpp>
#include <cstring>
#include <memory>
using namespace str;
using pbt::show;
#ifndef VARIANT
#define PROPV(name, ...) PROP(name, __VA_ARGS__)
#define KIND(n) c.draw(n)
#define PART(n) n
#else
#define PROPV(name, ...) PROP(name##_overloads, __VA_ARGS__)
#define KIND(n) (2 + c.draw(n - 2)) // Unicode strings only
#define PART(n) (n / 5)
#endif
#define FOR_KIND(function) \
    switch (KIND(5)) \
    { \
    case 0: function<char>(c); break; \
    case 1: function<wchar_t>(c); break; \
    case 2: function<char16_t>(c); break; \
    case 3: function<char32_t>(c); break; \
    default: function<char8_t>(c); break; \
    }

namespace
{

template<class C> void strip_case(pbt::Case& c)
{
    const auto a = alphabet<C>(c);
    const auto& l = c.pick(locales_of<C>());
    S<C> s = gen<C>(c, 24, a);
    // more white space at the ends
    const auto pad = [&] { S<C> r; const std::size_t n = c.length(5); static const char ws[] = { ' ', '\t', '\n', '\v', '\f', '\r', '_', 'x', '\0', '\xa0', '\xe9' }; for (std::size_t i = 0; i < n; ++i) r.push_back(ch<C>(c.pick(ws))); return r; };
    s = pad() + s + pad();
    NOTE("strip with locale " << l.name << ": " << show(s));
    c.label(l.name);
    std::size_t b = 0, e = s.size();
    while (b < s.size() && is_space(l.locale, s[b])) ++b;
    while (e > 0 && is_space(l.locale, s[e - 1])) --e;
    c.nontrivial(b > 0 && e < s.size() && b < e);
    if (b == s.size() && b) c.label("only white space");
    const S<C> wl(s.begin() + static_cast<long>(b), s.end()), wr(s.begin(), s.begin() + static_cast<long>(e)), ws = b < e ? S<C>(s.begin() + static_cast<long>(b), s.begin() + static_cast<long>(e)) : S<C>();
    S<C> g = s;
    pluto::lstrip(g, l.locale);
    CHECK_EQ("lstrip", g, wl, "lstrip of " << show(s) << " locale " << l.name);
    g = s; pluto::rstrip(g, l.locale);
    CHECK_EQ("rstrip", g, wr, "rstrip of " << show(s) << " locale " << l.name);
    g = s; pluto::strip(g, l.locale);
    CHECK_EQ("strip", g, ws, "strip of " << show(s) << " locale " << l.name);
    if constexpr (standard_facet<C>) if (l.is_default)
    {
        g = s; pluto::lstrip(g); CHECK_EQ("lstrip", g, wl, "lstrip of " << show(s) << " default locale");
        g = s; pluto::rstrip(g); CHECK_EQ("rstrip", g, wr, "rstrip of " << show(s) << " default locale");
        g = s; pluto::strip(g); CHECK_EQ("strip", g, ws, "strip of " << show(s) << " default locale");
    }
}
PROPV(stripping, .quick = PART(800000)) { FOR_KIND(strip_case) }

template<class C> void case_functions(const S<C>& s, const NamedLocale& l)
{
    const auto& f = std::use_facet<std::ctype<C>>(l.locale);
    S<C> up, lo;
    bool any_upper = false, any_lower = false;
    for (C x : s)
    {
        up.push_back(f.toupper(x));
        lo.push_back(f.tolower(x));
        any_upper |= f.is(std::ctype_base::upper, x);
        any_lower |= f.is(std::ctype_base::lower, x);
        // single characters
        CHECK_EQ("lower(char)", pluto::lower(x, l.locale), f.tolower(x), "lower of a character, locale " << l.name);
        CHECK_EQ("upper(char)", pluto::upper(x, l.locale), f.toupper(x), "upper of a character, locale " << l.name);
        CHECK_EQ("is_lower(char)", pluto::is_lower(x, l.locale), !f.is(std::ctype_base::upper, x), "is_lower of character " << +x << ", locale " << l.name);
        CHECK_EQ("is_upper(char)", pluto::is_upper(x, l.locale), !f.is(std::ctype_base::lower, x), "is_upper of character " << +x << ", locale " << l.name);
        if constexpr (standard_facet<C>) if (l.is_default)
        {
            CHECK_EQ("lower(char)", pluto::lower(x), f.tolower(x), "lower of a character, default locale");
            CHECK_EQ("upper(char)", pluto::upper(x), f.toupper(x), "upper of a character, default locale");
            CHECK_EQ("is_lower(char)", pluto::is_lower(x), !f.is(std::ctype_base::upper, x), "is_lower of a character, default locale");
            CHECK_EQ("is_upper(char)", pluto::is_upper(x), !f.is(std::ctype_base::lower, x), "is_upper of a character, default locale");
        }
    }
    const auto run = [&](const char* name, auto convert, auto query, const S<C>& want)
    {
        S<C> g = s;
        convert(g, l.locale);
        CHECK_EQ(name, g, want, name << " of " << show(s) << ", locale " << l.name);
        S<C> again = g;
        convert(again, l.locale);
        CHECK_EQ(name, again, g, name << " is not idempotent on " << show(s) << ", locale " << l.name);
        bool opposite = false; // letters without a counterpart keep their case
        for (C x : g) opposite |= f.is(name[0] == 'l' ? std::ctype_base::upper : std::ctype_base::lower, x);
        CHECK(name, query(g, l.locale) == !opposite, "query is wrong after " << name << " of " << show(s) << " = " << show(g) << ", locale " << l.name);
        if constexpr (standard_facet<C>) if (l.is_default) { g = s; convert(g, pluto::default_locale()); CHECK_EQ(name, g, want, name << " with pluto::default_locale()"); }
    };
    run("lower", [](S<C>& x, const std::locale& y) { pluto::lower(x, y); }, [](const S<C>& x, const std::locale& y) { return pluto::is_lower(x, y); }, lo);
    run("upper", [](S<C>& x, const std::locale& y) { pluto::upper(x, y); }, [](const S<C>& x, const std::locale& y) { return pluto::is_upper(x, y); }, up);
    // pointer and size, on exact heap memory, in the middle of a larger buffer
    const std::size_t n = s.size();
    std::unique_ptr<C[]> p(new C[n + 4]);
    const auto fill = [&] { p[0] = p[1] = p[n + 2] = p[n + 3] = ch<C>('m'); for (std::size_t i = 0; i < n; ++i) p[i + 2] = s[i]; };
    fill(); pluto::lower(p.get() + 2, n, l.locale);
    CHECK("lower(pointer)", S<C>(p.get() + 2, n) == lo && p[1] == ch<C>('m') && p[n + 2] == ch<C>('m'), "lower(pointer, size) of " << show(s) << ", locale " << l.name);
    p[0] = p[1] = ch<C>('M'); p[n + 2] = ch<C>('M');
    fill(); p[1] = p[n + 2] = ch<C>('M'); pluto::upper(p.get() + 2, n, l.locale);
    CHECK("upper(pointer)", S<C>(p.get() + 2, n) == up, "upper(pointer, size) of " << show(s) << ", locale " << l.name);
    fill(); pluto::upper(p.get() + 2, n, l.locale);
    CHECK("upper(pointer)", p[1] == ch<C>('m') && p[n + 2] == ch<C>('m'), "upper(pointer, size) changed characters outside");
    std::unique_ptr<C[]> exact(new C[n]);
    for (std::size_t i = 0; i < n; ++i) exact[i] = s[i];
    const C* q = exact.get();
    CHECK_EQ("is_lower", pluto::is_lower(q, n, l.locale), !any_upper, "is_lower(pointer, size) of " << show(s) << ", locale " << l.name);
    CHECK_EQ("is_upper", pluto::is_upper(q, n, l.locale), !any_lower, "is_upper(pointer, size) of " << show(s) << ", locale " << l.name);
    CHECK_EQ("is_lower", pluto::is_lower(s, l.locale), !any_upper, "is_lower of " << show(s) << ", locale " << l.name);
    CHECK_EQ("is_upper", pluto::is_upper(s, l.locale), !any_lower, "is_upper of " << show(s) << ", locale " << l.name);
    CHECK_EQ("is_lower", pluto::is_lower<>(s, l.locale), !any_upper, "is_lower<> of " << show(s) << ", locale " << l.name);
    CHECK_EQ("is_upper", pluto::is_upper<>(s, l.locale), !any_lower, "is_upper<> of " << show(s) << ", locale " << l.name);
    if constexpr (standard_facet<C>) if (l.is_default)
    {
        S<C> g = s; pluto::lower(g); CHECK_EQ("lower", g, lo, "lower of " << show(s) << ", default locale");
        g = s; pluto::upper(g); CHECK_EQ("upper", g, up, "upper of " << show(s) << ", default locale");
        CHECK_EQ("is_lower", pluto::is_lower(s), !any_upper, "is_lower of " << show(s) << ", default locale");
        CHECK_EQ("is_upper", pluto::is_upper(s), !any_lower, "is_upper of " << show(s) << ", default locale");
        CHECK_EQ("is_lower", pluto::is_lower(q, n), !any_upper, "is_lower(pointer, size) of " << show(s) << ", default locale");
        CHECK_EQ("is_upper", pluto::is_upper(q, n), !any_lower, "is_upper(pointer, size) of " << show(s) << ", default locale");
    }
}
template<class C> void letters(pbt::Case& c)
{
    auto a = alphabet<C>(c);
    if (c.flag(0.5)) a.symbols = { ch<C>('a'), ch<C>('A'), ch<C>('1'), ch<C>('q'), ch<C>('Q'), ch<C>('!'), ch<C>('\xe9'), ch<C>('\xc9'), ch<C>('z'), ch<C>('Z'), ch<C>('@'), ch<C>('['), ch<C>('`'), ch<C>('{') }, a.wide = false;
    const auto& l = c.pick(locales_of<C>());
    const S<C> s = gen<C>(c, 12, a);
    NOTE("case functions, locale " << l.name << ": " << show(s));
    bool u = false, w = false;
    for (C x : s) { u |= std::use_facet<std::ctype<C>>(l.locale).is(std::ctype_base::upper, x); w |= std::use_facet<std::ctype<C>>(l.locale).is(std::ctype_base::lower, x); }
    c.nontrivial(u || w);
    if (u && w) c.label("mixed case");
    case_functions<C>(s, l);
}
PROPV(letter_case, .quick = PART(300000)) { FOR_KIND(letters) }

#ifndef VARIANT
// every narrow character and the whole of Unicode as wide characters, in every locale
PROP(all_characters, .quick = 0x1101, .thorough = 0x1101, .enumerate = true)
{
    const std::uint64_t k = c.draw(0x1101);
    NOTE("block " << k);
    c.nontrivial();
    for (const auto& l : locales())
        if (k == 0)
        {
            std::string s;
            for (int i = 0; i < 256; ++i) s.push_back(static_cast<char>(i));
            case_functions<char>(s, l);
            for (int i = 0; i < 256; ++i)
            {
                std::string one(1, static_cast<char>(i)), t = "a" + one + "b", g = t;
                pluto::strip(g, l.locale);
                case_functions<char>(one, l);
                g = one; pluto::strip(g, l.locale);
                CHECK_EQ("strip", g, is_space(l.locale, one[0]) ? "" : one, "strip of one character " << i << ", locale " << l.name);
            }
        }
        else
        {
            std::wstring s;
            for (std::uint64_t i = 0; i < 256; ++i) s.push_back(static_cast<wchar_t>((k - 1) * 256 + i));
            case_functions<wchar_t>(s, l);
            for (wchar_t x : s)
            {
                std::wstring g(1, x);
                pluto::strip(g, l.locale);
                CHECK_EQ("strip", g.empty(), is_space(l.locale, x), "strip of one character " << static_cast<long>(x) << ", locale " << l.name);
            }
        }
}
#endif
// long strings
template<class C> void long_case(pbt::Case& c)
{
    const auto a = alphabet<C>(c);
    const auto& l = c.pick(locales_of<C>());
    const S<C> pad = make<C>(" \t") + S<C>(1, symbol(c, a));
    const S<C> s = (c.flag(0.5) ? gen_long<C>(c, 70000, pad, a) : S<C>(c.large(70000), ch<C>(' '))) + gen_long<C>(c, 70000, pad, a) + S<C>(c.flag(0.5) ? c.large(70000) : 0, ch<C>('\t'));
    NOTE("locale " << l.name << ": " << show(s));
    c.nontrivial(s.size() > 100);
    if (s.size() > 65536) c.label("more than 65536 units");
    std::size_t b = 0, e = s.size();
    while (b < s.size() && is_space(l.locale, s[b])) ++b;
    while (e > 0 && is_space(l.locale, s[e - 1])) --e;
    const auto& f = std::use_facet<std::ctype<C>>(l.locale);
    S<C> up, lo;
    bool any_upper = false, any_lower = false;
    for (C x : s) { up.push_back(f.toupper(x)); lo.push_back(f.tolower(x)); any_upper |= f.is(std::ctype_base::upper, x); any_lower |= f.is(std::ctype_base::lower, x); }
    const auto same = [&](const char* name, const S<C>& got, const S<C>& want) { CHECK(name, got == want, name << " of a text of " << s.size() << " units, locale " << l.name << ": " << got.size() << " units, expected " << want.size() << ", first difference at " << differ(got, want)); };
    S<C> g = s; pluto::lstrip(g, l.locale); same("lstrip", g, s.substr(b));
    g = s; pluto::rstrip(g, l.locale); same("rstrip", g, s.substr(0, e));
    g = s; pluto::strip(g, l.locale); same("strip", g, b < e ? s.substr(b, e - b) : S<C>());
    g = s; pluto::lower(g, l.locale); same("lower", g, lo);
    CHECK_EQ("is_lower", pluto::is_lower(s, l.locale), !any_upper, "is_lower of a text of " << s.size() << " units, locale " << l.name);
    g = s; pluto::upper(g, l.locale); same("upper", g, up);
    CHECK_EQ("is_upper", pluto::is_upper(s, l.locale), !any_lower, "is_upper of a text of " << s.size() << " units, locale " << l.name);
}
PROPV(long_strings, .quick = PART(10000)) { FOR_KIND(long_case) }
}
#ifndef VARIANT
int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P06", "cases: narrow and wide strings in four locales (one with own facets); every character exhaustively; non-trivial: white space on both sides of other text (stripping), a letter with case (letter_case)");
}
#endif
