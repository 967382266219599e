// P08: value <-> text.
#include "pbt.hpp"
#include <pluto/string.hpp>
#include <complex>
#include <cstring>
#include <iomanip>
#include <limits>
#include <locale>
#include <memory>

namespace
{
struct Point { int x, y; bool operator==(const Point& o) const { return x == o.x && y == o.y; } };
template<class C> std::basic_ostream<C>& operator<<(std::basic_ostream<C>& s, const Point& p) { return s << p.x << ' ' << p.y; }
template<class C> std::basic_istream<C>& operator>>(std::basic_istream<C>& s, Point& p) { int a, b; if (s >> a >> b) { p.x = a; p.y = b; } return s; }
}
namespace pbt
{
    inline std::string show(const Point& p) { return "{" + std::to_string(p.x) + "," + std::to_string(p.y) + "}"; }
    inline std::string show(const std::complex<double>& p) { return show(p.real()) + "+i" + show(p.imag()); }
    inline std::string show(const void* p) { std::ostringstream s; s << p; return s.str(); }
}

using pbt::show;
template<class T> bool same(const T& a, const T& b) { return a == b; }
inline bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (a == b && std::signbit(a) == std::signbit(b)); }
inline bool same(float a, float b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
inline bool same(long double a, long double b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }

template<class C, class T> std::basic_string<C> ref_text(const T& v) { std::basic_ostringstream<C> s; s << v; return s.str(); }
template<class T, class C> T ref_parse(const std::basic_string<C>& t) { std::basic_istringstream<C> s(t); T v = T(); s >> v; return v; }

static std::wstring widen(const std::string& s) { std::wstring r; for (char x : s) r.push_back(static_cast<wchar_t>(static_cast<unsigned char>(x))); return r; }

// the process-wide locale decides the "standard" representation (digit grouping)
struct GlobalLocale
{
    std::locale before;
    explicit GlobalLocale(bool us) : before(std::locale::global(us ? std::locale("en_US.UTF-8") : std::locale::classic())) {}
    ~GlobalLocale() { std::locale::global(before); }
};

template<class T> void round_trip(pbt::Case& c, const T& v, const char* type)
{
    NOTE(type << " " << show(v) << "\n");
    const std::string t = pluto::str(v);
    CHECK_EQ("str", t, (ref_text<char>(v)), "str of the " << type << " " << show(v));
    const std::wstring w = pluto::wstr(v);
    CHECK_EQ("wstr", w, (ref_text<wchar_t>(v)), "wstr of the " << type << " " << show(v));
    T b = pluto::str_to<T>(t);
    CHECK("str_to(str)", same(b, v), "str_to<" << type << ">(" << show(t) << ") gives " << show(b) << ", expected " << show(v));
    b = pluto::wstr_to<T>(w);
    CHECK("wstr_to(wstr)", same(b, v), "wstr_to<" << type << ">(" << show(w) << ") gives " << show(b) << ", expected " << show(v));
    b = pluto::str_to<T>(t.data(), t.size());
    CHECK("str_to(str)", same(b, v), "str_to<" << type << ">(pointer, size) of " << show(t) << " gives " << show(b));
    b = pluto::wstr_to<T>(w.data(), w.size());
    CHECK("wstr_to(wstr)", same(b, v), "wstr_to<" << type << ">(pointer, size) of " << show(w) << " gives " << show(b));
}
// numbers that survive the six significant digits streams print
template<class T> T short_float(pbt::Case& c)
{
    const long long m = c.around(-999999, 999999);
    const int e = static_cast<int>(c.around(-30, 30));
    std::ostringstream s;
    s.imbue(std::locale::classic());
    s << m << "e" << e;
    std::istringstream i(s.str());
    i.imbue(std::locale::classic());
    T v{};
    i >> v;
    return v;
}
PROP(values, .quick = 400000)
{
    const bool us = c.flag(0.3);
    GlobalLocale g(us);
    if (us) { c.label("grouping locale"); NOTE("global locale en_US "); }
    c.nontrivial();
    switch (c.draw(15))
    {
    case 0: round_trip(c, c.integer<int>(), "int"); break;
    case 1: round_trip(c, c.integer<unsigned>(), "unsigned"); break;
    case 2: round_trip(c, c.integer<long>(), "long"); break;
    case 3: round_trip(c, c.integer<unsigned long>(), "unsigned long"); break;
    case 4: round_trip(c, c.integer<long long>(), "long long"); break;
    case 5: round_trip(c, c.integer<unsigned long long>(), "unsigned long long"); break;
    case 6: round_trip(c, c.integer<short>(), "short"); break;
    case 7: round_trip(c, c.integer<unsigned short>(), "unsigned short"); break;
    case 8: round_trip(c, c.flag(0.5), "bool"); break;
    case 9: round_trip(c, short_float<double>(c), "double"); break;
    case 10: round_trip(c, short_float<float>(c), "float"); break;
    case 11: round_trip(c, short_float<long double>(c), "long double"); break;
    case 12: round_trip(c, Point{ c.integer<int>(), c.integer<int>() }, "Point"); break;
    case 13:
    {
        const char v = static_cast<char>(0x21 + c.draw(0x5e));
        const wchar_t w = static_cast<wchar_t>(v);
        NOTE("character " << v);
        CHECK_EQ("str", pluto::str(v), std::string(1, v), "str of a character");
        CHECK_EQ("str_to(str)", pluto::str_to<char>(pluto::str(v)), v, "str_to<char>");
        CHECK_EQ("wstr", pluto::wstr(w), std::wstring(1, w), "wstr of a wide character");
        CHECK_EQ("wstr_to(wstr)", pluto::wstr_to<wchar_t>(pluto::wstr(w)), w, "wstr_to<wchar_t>");
        break;
    }
    default: round_trip(c, reinterpret_cast<void*>(c.draw(1ull << 47) | 1), "void*"); break;
    }
}
// any double prints as a stream prints it, and parses as a stream parses it
template<class T> void number(pbt::Case& c, T v, const char* type)
{
    NOTE(type << " " << show(v));
    CHECK_EQ("str", pluto::str(v), (ref_text<char>(v)), "str of the " << type << " " << show(v));
    CHECK_EQ("wstr", pluto::wstr(v), (ref_text<wchar_t>(v)), "wstr of the " << type << " " << show(v));
    std::ostringstream s;
    s << std::setprecision(std::numeric_limits<T>::max_digits10) << v;
    const T back = pluto::str_to<T>(s.str());
    const T want = ref_parse<T>(s.str());
    CHECK("str_to", same(back, want), "str_to<" << type << ">(" << s.str() << ") gives " << show(back));
    if (std::isfinite(v) && std::fpclassify(v) != FP_SUBNORMAL) CHECK("str_to", same(back, v), "str_to<" << type << ">(" << s.str() << ") gives " << show(back));
}
PROP(floating, .quick = 200000)
{
    const std::uint64_t b = c.bits();
    double d;
    std::memcpy(&d, &b, 8);
    c.nontrivial(std::isfinite(d) && d != 0);
    const std::uint32_t b4 = static_cast<std::uint32_t>(b >> 32);
    float f;
    std::memcpy(&f, &b4, 4);
    number(c, d, "double");
    number(c, f, "float");
    number(c, static_cast<long double>(d) / 3, "long double");
}

// a value that consists of everything its stream holds, unit by unit
struct Rest { std::vector<unsigned long> units; };
template<class Elem> std::basic_istream<Elem>& operator>>(std::basic_istream<Elem>& s, Rest& r)
{
    for (Elem e; s.get(e);) r.units.push_back(static_cast<std::make_unsigned_t<Elem>>(e));
    return s;
}
template<class Elem> std::vector<unsigned long> units(const std::basic_string<Elem>& s)
{
    std::vector<unsigned long> u;
    for (const Elem e : s) u.push_back(static_cast<std::make_unsigned_t<Elem>>(e));
    return u;
}
// strings pass through unchanged
PROP(strings, .quick = 200000)
{
    std::string s;
    const std::size_t n = c.length(40);
    for (std::size_t i = 0; i < n; ++i) s.push_back(c.flag(0.2) ? '\0' : static_cast<char>(c.draw(256)));
    const std::wstring w = widen(s);
    NOTE(show(s));
    c.nontrivial(s.find('\0') != s.npos);
    CHECK_EQ("str", pluto::str(s), s, "str of a string");
    CHECK_EQ("str", pluto::str(s.data(), s.size()), s, "str(pointer, size)");
    CHECK_EQ("wstr", pluto::wstr(w), w, "wstr of a wide string");
    CHECK_EQ("wstr", pluto::wstr(w.data(), w.size()), w, "wstr(pointer, size)");
    const std::u8string s8(s.begin(), s.end());
    const std::u16string s16(s.begin(), s.end());
    const std::u32string s32(s.begin(), s.end());
    CHECK("u8str", pluto::u8str(s8) == s8 && pluto::u8str(s8.data(), s8.size()) == s8, "u8str");
    CHECK("u16str", pluto::u16str(s16) == s16 && pluto::u16str(s16.data(), s16.size()) == s16, "u16str");
    CHECK("u32str", pluto::u32str(s32) == s32 && pluto::u32str(s32.data(), s32.size()) == s32, "u32str");
    const std::string z = s.c_str();
    CHECK_EQ("str", pluto::str(z.c_str()), z, "str of a character pointer");
    CHECK_EQ("str", pluto::str("literal"), "literal", "str of a literal");
    CHECK_EQ("wstr", pluto::wstr(L"literal"), std::wstring(L"literal"), "wstr of a literal");
    if (n) CHECK_EQ("str", pluto::str(s[0]), s.substr(0, 1), "str of a character");
    const std::string_view v(s);
    CHECK_EQ("str", pluto::str(v), s, "str of a view");
    // words parse as words
    CHECK_EQ("str_to", pluto::str_to<std::string>(s), ref_parse<std::string>(s), "str_to<string> of " << show(s));
    CHECK_EQ("wstr_to", pluto::wstr_to<std::wstring>(w), ref_parse<std::wstring>(w), "wstr_to<wstring> of " << show(w));
    CHECK_EQ("str_to", pluto::str_to<std::string>(s.data(), s.size()), ref_parse<std::string>(s), "str_to<string>(pointer, size) of " << show(s));
    CHECK_EQ("wstr_to", pluto::wstr_to<std::wstring>(w.data(), w.size()), ref_parse<std::wstring>(w), "wstr_to<wstring>(pointer, size) of " << show(w));
    CHECK_EQ("str_to", pluto::str_to<char>(s), ref_parse<char>(s), "str_to<char> of " << show(s));
    CHECK_EQ("str_to", pluto::str_to<unsigned char>(s.data(), s.size()), ref_parse<unsigned char>(s), "str_to<unsigned char>(pointer, size) of " << show(s));
    CHECK_EQ("wstr_to", pluto::wstr_to<wchar_t>(w.data(), w.size()), ref_parse<wchar_t>(w), "wstr_to<wchar_t>(pointer, size) of " << show(w));
    // a type whose extraction reads all of the text sees all of it
    CHECK("str_to", pluto::str_to<Rest>(s).units == units(s), "str_to of a type that reads everything, of " << show(s));
    CHECK("str_to", pluto::str_to<Rest>(s.data(), s.size()).units == units(s), "str_to(pointer, size) of a type that reads everything, of " << show(s));
    CHECK("wstr_to", pluto::wstr_to<Rest>(w).units == units(w), "wstr_to of a type that reads everything, of " << show(w));
    CHECK("wstr_to", pluto::wstr_to<Rest>(w.data(), w.size()).units == units(w), "wstr_to(pointer, size) of a type that reads everything, of " << show(w));
}

// arbitrary text: same as the stream; no value: zero, whatever was in memory before
template<class T> void parse(pbt::Case& c, const std::string& s, const char* type)
{
    const std::wstring w = widen(s);
    const T want = ref_parse<T>(s), wantw = ref_parse<T>(w);
    NOTE("parse " << show(s) << " as " << type << "\n");
    std::unique_ptr<char[]> p(new char[s.size()]);
    std::memcpy(p.get(), s.data(), s.size());
    const T a = pluto::str_to<T>(s), b = pluto::str_to<T>(p.get(), s.size()), d = pluto::wstr_to<T>(w), e = pluto::wstr_to<T>(w.data(), w.size());
    CHECK("str_to", same(a, want), "str_to<" << type << ">(" << show(s) << ") gives " << show(a) << ", a stream gives " << show(want));
    CHECK("str_to", same(b, want), "str_to<" << type << ">(pointer, size) of " << show(s) << " gives " << show(b) << ", a stream gives " << show(want));
    CHECK("wstr_to", same(d, wantw), "wstr_to<" << type << ">(" << show(s) << ") gives " << show(d) << ", a stream gives " << show(wantw));
    CHECK("wstr_to", same(e, wantw), "wstr_to<" << type << ">(pointer, size) of " << show(s) << " gives " << show(e) << ", a stream gives " << show(wantw));
    if (s.find_first_not_of(" \t\n") == s.npos)
    {
        c.label("no value in the text");
        CHECK("zero", same(a, T()) && same(d, T()), "text without a value must give the zero value");
    }
}
PROP(parsing, .quick = 400000)
{
    static const char* const parts[] = { " ", "\t", "\n", "-", "+", "0", "1", "7", "9", "12", "99999", "2147483647", "2147483648", "-2147483649", "18446744073709551615", "9223372036854775808", ".", "5", "e", "e5", "e-400", "e400", "0x", "ff", "inf", "nan", "true", "a", ",", "1,234", "\xe9", "x y" };
    std::string s;
    const std::size_t n = c.length(6);
    for (std::size_t i = 0; i < n; ++i) { if (c.flag(0.05)) s.push_back('\0'); s += c.pick(parts); }
    const bool us = c.flag(0.2);
    GlobalLocale g(us);
    c.nontrivial(n > 0);
    switch (c.draw(13))
    {
    case 0: parse<int>(c, s, "int"); break;
    case 1: parse<unsigned>(c, s, "unsigned"); break;
    case 2: parse<long>(c, s, "long"); break;
    case 3: parse<unsigned long long>(c, s, "unsigned long long"); break;
    case 4: parse<short>(c, s, "short"); break;
    case 5: parse<bool>(c, s, "bool"); break;
    case 6: parse<double>(c, s, "double"); break;
    case 7: parse<float>(c, s, "float"); break;
    case 8: parse<Point>(c, s, "Point"); break;
    case 9: parse<long double>(c, s, "long double"); break;
    case 10: parse<unsigned short>(c, s, "unsigned short"); break;
    case 11: parse<void*>(c, s, "void*"); break;
    default: parse<std::complex<double>>(c, s, "complex<double>"); break;
    }
}
// long texts: digits, white space and words around stream buffer sizes
PROP(long_texts, .quick = 4000)
{
    std::string s(c.flag(0.5) ? c.large(70000) : 0, c.flag(0.5) ? ' ' : '\n');
    if (c.flag(0.3)) s += '-';
    s += std::string(c.flag(0.5) ? c.large(70000) : 0, '0');
    s += std::to_string(c.draw(1000000));
    if (c.flag(0.3)) s += "." + std::string(c.large(5000), static_cast<char>('0' + c.draw(10))) + std::to_string(c.draw(1000));
    if (c.flag(0.3)) s += std::string(c.large(70000), c.flag(0.5) ? ' ' : 'z');
    const std::wstring w = widen(s);
    NOTE("parse " << show(s));
    c.nontrivial(s.size() > 100);
    CHECK_EQ("str_to", pluto::str_to<int>(s), ref_parse<int>(s), "str_to<int> of " << show(s));
    CHECK_EQ("wstr_to", pluto::wstr_to<long>(w), ref_parse<long>(w), "wstr_to<long> of " << show(s));
    CHECK("str_to", same(pluto::str_to<double>(s), ref_parse<double>(s)), "str_to<double> of " << show(s));
    CHECK("wstr_to", same(pluto::wstr_to<double>(w), ref_parse<double>(w)), "wstr_to<double> of " << show(s));
    CHECK("str_to", pluto::str_to<std::string>(s) == ref_parse<std::string>(s), "str_to<string> of " << show(s));
    CHECK("wstr_to", pluto::wstr_to<std::wstring>(w) == ref_parse<std::wstring>(w), "wstr_to<wstring> of " << show(s));
    CHECK("str", pluto::str(std::string_view(s)) == s, "str of a long view");
    CHECK("str", pluto::str(s.c_str()) == s, "str of a long C string");
    CHECK("wstr", pluto::wstr(w.c_str()) == w, "wstr of a long C string");
}
int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P08", "cases: values of 15 types under two global locales, arbitrary numeric-looking texts; non-trivial: any value (values), finite non-zero (floating), an embedded NUL (strings), non-empty text (parsing); automatic variables are filled with a pattern so that indeterminate results show");
}
