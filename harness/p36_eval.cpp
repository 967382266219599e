// P36: the calls whose results must not depend on how the program is built.  This file is compiled into one
// shared library per configuration (language standard, compiler, optimisation, macros); p36.cpp compares their
// answers.  It is written in the subset of C++ that all standards share.
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <climits>
#include <cmath>
#include <condition_variable>
#include <cstdlib>
#include <exception>
#include <forward_list>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iterator>
#include <limits>
#include <locale>
#include <mutex>
#include <new>
#include <numeric>
#include <stdexcept>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace p36
{
    struct ManualClock // shared by stopwatch and the logger's time stamps
    {
        typedef std::chrono::microseconds duration;
        typedef duration::rep rep;
        typedef duration::period period;
        typedef std::chrono::time_point<ManualClock> time_point;
        static const bool is_steady = false;
        static long long value;
        static time_point now() { return time_point(duration(value)); }
        static std::time_t to_time_t(const time_point& t) { return static_cast<std::time_t>(t.time_since_epoch().count() / 1000000); }
        static time_point from_time_t(const std::time_t t) { return time_point(duration(t * 1000000LL)); }
    };
    long long ManualClock::value = 0;
}
#define PLUTO_STOPWATCH_CLOCK_TYPE p36::ManualClock
#define PLUTO_LOGGER_CLOCK_TYPE p36::ManualClock
#include <pluto.hpp>

#if defined(__clang__)
#define COMPILER "clang++"
#else
#define COMPILER "g++"
#endif

namespace
{
typedef std::uint32_t u32;
struct In
{
    long long n[6];
    std::vector<u32> t[4]; // code points; 0x110000 + x is the bare unit x
};
std::ostringstream* g_out;
#define OUT (*g_out)

// ---- printing
template<class C> std::string units(const std::basic_string<C>& s)
{
    std::ostringstream o;
    o << '"';
    for (std::size_t i = 0; i < s.size(); ++i)
    {
        const unsigned long v = sizeof(C) == 1 ? static_cast<unsigned char>(s[i]) : static_cast<unsigned long>(static_cast<u32>(s[i]));
        if (v >= 0x20 && v < 0x7F && v != '"' && v != '\\') o << static_cast<char>(v);
        else o << '\\' << std::hex << v << std::dec << ';';
    }
    o << '"';
    return o.str();
}
template<class C> void print(const char* what, const std::basic_string<C>& s) { OUT << what << '=' << units(s) << '\n'; }
template<class C> void print(const char* what, const std::vector<std::basic_string<C>>& v)
{
    OUT << what << '=';
    for (std::size_t i = 0; i < v.size(); ++i) OUT << units(v[i]) << ' ';
    OUT << '\n';
}
void print(const char* what, const char* s) { OUT << what << '=' << s << '\n'; }
void print(const char* what, const bool b) { OUT << what << '=' << (b ? "true" : "false") << '\n'; }
void print(const char* what, const long long v) { OUT << what << '=' << v << '\n'; }
void print(const char* what, const unsigned long long v) { OUT << what << '=' << v << '\n'; }
void print(const char* what, const int v) { OUT << what << '=' << v << '\n'; }
void print(const char* what, const std::size_t v) { OUT << what << '=' << v << '\n'; }
void print(const char* what, const double v) { std::uint64_t b; std::memcpy(&b, &v, 8); OUT << what << '=' << (v != v ? "nan" : "") << std::hex << (v != v ? 0 : b) << std::dec << '\n'; }
void print(const char* what, const float v) { print(what, static_cast<double>(v)); }
template<class K> void print_all(const char* what, const K& k)
{
    OUT << what << '=';
    for (const auto& x : k) OUT << x << ' ';
    OUT << '\n';
}
template<class F> void attempt(const char* what, F f)
{
    try { f(); }
    catch (const std::exception&) { OUT << what << ": exception\n"; }
}

// ---- decoding
std::string narrow(const std::vector<u32>& t)
{
    std::string r;
    for (const u32 c : t)
    {
        if (c >= 0x110000) r.push_back(static_cast<char>(c));
        else if (c < 0x80) r.push_back(static_cast<char>(c));
        else if (c < 0x800) { r.push_back(static_cast<char>(0xC0 | (c >> 6))); r.push_back(static_cast<char>(0x80 | (c & 0x3F))); }
        else if (c < 0x10000) { r.push_back(static_cast<char>(0xE0 | (c >> 12))); r.push_back(static_cast<char>(0x80 | ((c >> 6) & 0x3F))); r.push_back(static_cast<char>(0x80 | (c & 0x3F))); }
        else { r.push_back(static_cast<char>(0xF0 | (c >> 18))); r.push_back(static_cast<char>(0x80 | ((c >> 12) & 0x3F))); r.push_back(static_cast<char>(0x80 | ((c >> 6) & 0x3F))); r.push_back(static_cast<char>(0x80 | (c & 0x3F))); }
    }
    return r;
}
std::u16string utf16(const std::vector<u32>& t)
{
    std::u16string r;
    for (const u32 c : t)
    {
        if (c >= 0x110000) r.push_back(static_cast<char16_t>(0xD700 + c % 0x900));
        else if (c < 0x10000) r.push_back(static_cast<char16_t>(c));
        else { r.push_back(static_cast<char16_t>(0xD800 + ((c - 0x10000) >> 10))); r.push_back(static_cast<char16_t>(0xDC00 + ((c - 0x10000) & 0x3FF))); }
    }
    return r;
}
std::u32string utf32(const std::vector<u32>& t) { std::u32string r; for (const u32 c : t) r.push_back(static_cast<char32_t>(c)); return r; }
std::wstring wide(const std::vector<u32>& t) { std::wstring r; for (const u32 c : t) r.push_back(static_cast<wchar_t>(c)); return r; }
template<class C> std::basic_string<C> as(const std::vector<u32>& t);
template<> std::string as<char>(const std::vector<u32>& t) { return narrow(t); }
template<> std::wstring as<wchar_t>(const std::vector<u32>& t) { return wide(t); }
template<> std::u16string as<char16_t>(const std::vector<u32>& t) { return utf16(t); }
template<> std::u32string as<char32_t>(const std::vector<u32>& t) { return utf32(t); }

std::vector<long long> numbers(const std::vector<u32>& t) { std::vector<long long> r; for (const u32 c : t) r.push_back(static_cast<long long>(c % 7) - 2); return r; }

// ---- operations
void unicode(const In& in)
{
    const auto c = as<char>(in.t[0]);
    const auto w = as<wchar_t>(in.t[0]);
    const auto s = as<char16_t>(in.t[0]);
    const auto d = as<char32_t>(in.t[0]);
    attempt("w>c", [&] { print("w>c", pluto::str(w)); });
    attempt("16>c", [&] { print("16>c", pluto::str(s)); });
    attempt("32>c", [&] { print("32>c", pluto::str(d)); });
    attempt("c>w", [&] { print("c>w", pluto::wstr(c)); });
    attempt("16>w", [&] { print("16>w", pluto::wstr(s)); });
    attempt("32>w", [&] { print("32>w", pluto::wstr(d)); });
    attempt("c>16", [&] { print("c>16", pluto::u16str(c)); });
    attempt("w>16", [&] { print("w>16", pluto::u16str(w)); });
    attempt("32>16", [&] { print("32>16", pluto::u16str(d)); });
    attempt("c>32", [&] { print("c>32", pluto::u32str(c)); });
    attempt("w>32", [&] { print("w>32", pluto::u32str(w)); });
    attempt("16>32", [&] { print("16>32", pluto::u32str(s)); });
    attempt("arrays", [&] {
        print("w>c", pluto::str(w.data(), w.size()));
        print("c>w", pluto::wstr(c.data(), c.size()));
        print("c>16", pluto::u16str(c.data(), c.size()));
        print("16>32", pluto::u32str(s.data(), s.size()));
        print("32>16", pluto::u16str(d.data(), d.size()));
        print("c>c", pluto::str(c.data(), c.size()));
        print("c>c", pluto::str(c));
        print("w>w", pluto::wstr(w));
    });
}
const std::locale& pick_locale(const long long n)
{
    switch (n & 3)
    {
    case 0: return pluto::c_locale();
    case 1: { static const std::locale l("C.utf8"); return l; }
    default: { static const std::locale l("en_US.UTF-8"); return l; }
    }
}
#if PLUTO_LOCALE_NO_STATIC
#define LOCALE(n) static_cast<std::locale>((n & 3) == 0 ? std::locale(pluto::c_locale()) : (n & 3) == 1 ? std::locale("C.utf8") : std::locale("en_US.UTF-8"))
#else
#define LOCALE(n) pick_locale(n)
#endif
template<class C> void cases(const In& in)
{
    const std::locale l = LOCALE(in.n[0]);
    const bool by_default = in.n[1] & 1;
    std::basic_string<C> a = as<C>(in.t[0]), b = a;
    print("is_lower", by_default ? pluto::is_lower(a) : pluto::is_lower(a, l));
    print("is_upper", by_default ? pluto::is_upper(a) : pluto::is_upper(a, l));
    if (by_default) { pluto::lower(a); pluto::upper(b); }
    else { pluto::lower(a, l); pluto::upper(b, l); }
    print("lower", a);
    print("upper", b);
    for (std::size_t i = 0; i < a.size(); ++i)
    {
        OUT << pluto::is_lower(b[i], l) << pluto::is_upper(b[i], l) << ' ';
        b[i] = by_default ? pluto::lower(b[i]) : pluto::lower(b[i], l);
        a[i] = by_default ? pluto::upper(a[i]) : pluto::upper(a[i], l);
    }
    print("elements", a);
    print("elements", b);
    pluto::lower(&a[0], a.size(), l);
    print("array", a);
    print("array", pluto::is_lower(a.data(), a.size(), l));
}
void values(const In& in)
{
    print("int", pluto::str(static_cast<int>(in.n[0])));
    print("ll", pluto::str(in.n[0]));
    print("ull", pluto::str(static_cast<unsigned long long>(in.n[0])));
    print("short", pluto::str(static_cast<short>(in.n[1])));
    print("bool", pluto::str((in.n[1] & 1) != 0));
    print("char", pluto::str(static_cast<char>(in.n[1] & 0x7F)));
    print("double", pluto::str(static_cast<double>(in.n[0]) / 256));
    print("c str", pluto::str("a c string"));
    print("wide int", pluto::wstr(in.n[2]));
    print("wide double", pluto::wstr(static_cast<double>(in.n[2]) / 1024));
    print("wide c str", pluto::wstr(L"a c string"));
    const std::string a = as<char>(in.t[0]);
    const std::wstring w = as<wchar_t>(in.t[0]);
    attempt("to int", [&] { print("to int", pluto::str_to<int>(a)); });
    attempt("to ll", [&] { print("to ll", pluto::str_to<long long>(a)); });
    attempt("to ull", [&] { print("to ull", pluto::str_to<unsigned long long>(a)); });
    attempt("to double", [&] { print("to double", pluto::str_to<double>(a)); });
    attempt("to string", [&] { print("to string", pluto::str_to<std::string>(a)); });
    attempt("to int", [&] { print("to int", pluto::str_to<int>(a.data(), a.size())); });
    attempt("w to ll", [&] { print("w to ll", pluto::wstr_to<long long>(w)); });
    attempt("w to double", [&] { print("w to double", pluto::wstr_to<double>(w)); });
    attempt("back", [&] { print("back", pluto::str_to<long long>(pluto::str(in.n[0]))); });
    attempt("back", [&] { print("back", pluto::wstr_to<long long>(pluto::wstr(in.n[0]))); });
}
template<class C> void searching(const In& in)
{
    const std::basic_string<C> a = as<C>(in.t[0]), b = as<C>(in.t[1]);
    print("equals", pluto::equals(a, b));
    print("starts", pluto::starts_with(a, b));
    print("ends", pluto::ends_with(a, b));
    print("find", static_cast<long long>(pluto::find(a, b) - a.begin()));
    print("contains", pluto::contains(a, b));
    print("equals", pluto::equals(a.data(), a.size(), b.data(), b.size()));
    print("starts", pluto::starts_with(a.data(), a.size(), b.data(), b.size()));
    print("ends", pluto::ends_with(a.data(), a.size(), b.data(), b.size()));
    print("find", static_cast<long long>(pluto::find(a.data(), a.size(), b.data(), b.size()) - a.data()));
    print("contains", pluto::contains(a.data(), a.size(), b.data(), b.size()));
}
template<class C> void ignoring_case(const In& in)
{
    const std::locale l = LOCALE(in.n[0]);
    const bool d = in.n[1] & 1;
    const std::basic_string<C> a = as<C>(in.t[0]), b = as<C>(in.t[1]);
    print("iequals", d ? pluto::iequals(a, b) : pluto::iequals(a, b, l));
    print("istarts", d ? pluto::istarts_with(a, b) : pluto::istarts_with(a, b, l));
    print("iends", d ? pluto::iends_with(a, b) : pluto::iends_with(a, b, l));
    print("ifind", static_cast<long long>((d ? pluto::ifind(a, b) : pluto::ifind(a, b, l)) - a.begin()));
    print("icontains", d ? pluto::icontains(a, b) : pluto::icontains(a, b, l));
    print("iequals", pluto::iequals(a.data(), a.size(), b.data(), b.size(), l));
    print("istarts", pluto::istarts_with(a.data(), a.size(), b.data(), b.size(), l));
    print("iends", pluto::iends_with(a.data(), a.size(), b.data(), b.size(), l));
    print("icontains", pluto::icontains(a.data(), a.size(), b.data(), b.size(), l));
    const C x = a.empty() ? C('a') : a[0], y = b.empty() ? C('A') : b[0];
    OUT << pluto::is_iequal<C>(l)(x, y) << pluto::is_not_iequal<C>(l)(x, y) << pluto::is_iless<C>(l)(x, y) << pluto::is_igreater<C>(l)(x, y)
        << pluto::is_iless_equal<C>(l)(x, y) << pluto::is_igreater_equal<C>(l)(x, y) << '\n';
}
template<class C> void splitting(const In& in)
{
    const std::basic_string<C> a = as<C>(in.t[0]), b = as<C>(in.t[1]);
    print("split", pluto::split(a, b));
    print("split any", pluto::split_any_of(a, b));
}
template<class C> void splitting_spaces(const In& in)
{
    const std::basic_string<C> a = as<C>(in.t[0]);
    print("split", pluto::split(a));
    print("split", pluto::split(a, LOCALE(in.n[0])));
    std::basic_string<C> x = a, y = a, z = a;
    pluto::lstrip(x);
    pluto::rstrip(y);
    pluto::strip(z);
    print("lstrip", x);
    print("rstrip", y);
    print("strip", z);
    x = y = z = a;
    pluto::lstrip(x, LOCALE(in.n[0]));
    pluto::rstrip(y, LOCALE(in.n[0]));
    pluto::strip(z, LOCALE(in.n[0]));
    print("lstrip", x);
    print("rstrip", y);
    print("strip", z);
}
template<class C> void replacing(const In& in)
{
    const std::basic_string<C> b = as<C>(in.t[1]), c = as<C>(in.t[2]);
    std::basic_string<C> a = as<C>(in.t[0]);
    pluto::replace(a, b, c);
    print("replace", a);
    a = as<C>(in.t[0]);
    pluto::replace_any_of(a, b, c);
    print("replace any", a);
}
template<class C> void joining(const In& in)
{
    const std::basic_string<C> sep = as<C>(in.t[3]);
    std::vector<std::basic_string<C>> v;
    for (int i = 0; i < 3 && i <= (in.n[0] & 3); ++i) v.push_back(as<C>(in.t[i]));
    if ((in.n[0] & 3) == 3) v.clear();
    const std::list<std::basic_string<C>> k(v.begin(), v.end());
    print("join", pluto::join(v, sep));
    print("join", pluto::join(k, sep));
    print("join", pluto::join(v.begin(), v.end(), sep));
    print("map_join", pluto::map_join(k, sep, [](const std::basic_string<C>& s) { return s + s; }));
    print("map_join", pluto::map_join(v.begin(), v.end(), sep, [](const std::basic_string<C>& s) { return s.substr(0, 1); }));
}
template<class T> void base(const long long n)
{
    const T v = static_cast<T>(n);
    OUT << pluto::bin(v) << ' ' << pluto::oct(v) << ' ' << pluto::hex(v) << '\n';
}
void digits(const In& in)
{
    for (int i = 0; i < 2; ++i)
    {
        base<signed char>(in.n[i]); base<unsigned char>(in.n[i]); base<short>(in.n[i]); base<unsigned short>(in.n[i]);
        base<int>(in.n[i]); base<unsigned>(in.n[i]); base<long>(in.n[i]); base<unsigned long>(in.n[i]); base<long long>(in.n[i]); base<unsigned long long>(in.n[i]);
    }
}
struct Tagged { long long key; int tag; };
template<class K> void container(const In& in)
{
    const auto va = numbers(in.t[0]), vb = numbers(in.t[1]);
    const K a(va.begin(), va.end()), b(vb.begin(), vb.end());
    const long long e = in.n[0] % 7 - 2;
    const auto at = [&](typename K::const_iterator i) { return static_cast<long long>(std::distance(a.begin(), i)); };
    const auto odd = [](const long long x) { return (x & 1) != 0; };
    print("equals", pluto::equals(a, b));
    print("starts", pluto::starts_with(a, b));
    print("ends", pluto::ends_with(a, b));
    print("starts", pluto::starts_with(a, b, pluto::is_less_equal{}));
    print("ends", pluto::ends_with(a, b, pluto::is_less_equal{}));
    print("find_elem", at(pluto::find_elem(a, e)));
    print("rfind_elem", at(pluto::rfind_elem(a, e)));
    print("find_sequence", at(pluto::find_sequence(a, b)));
    print("find_if", at(pluto::find_if(a, odd)));
    print("rfind_if", at(pluto::rfind_if(a, odd)));
    print("find_if_not", at(pluto::find_if_not(a, odd)));
    print("rfind_if_not", at(pluto::rfind_if_not(a, odd)));
    print("contains_elem", pluto::contains_elem(a, e));
    print("contains_sequence", pluto::contains_sequence(a, b));
    K c = a;
    print_all("reverse", pluto::reverse(c));
    c = a;
    print_all("filter", pluto::filter(c, odd));
    c = a;
    print_all("for_each", pluto::for_each(c, [](long long& x) { x = x * 2 + 1; }));
    print_all("map", pluto::map(a, [](const long long x) { return x + 10; }));
    print_all("map to", pluto::map<std::set<long long>>(a, [](const long long x) { return x * x; }));
    print_all("slice", pluto::slice(a, in.n[1] % 40 - 20, in.n[2] % 40 - 20));
    print_all("slice", pluto::slice(a, in.n[2] % 40 - 20));
    print("len", static_cast<std::size_t>(pluto::len(a)));
    print("any", pluto::any(a));
    print("all", pluto::all(a));
    print("any", pluto::any(a, odd));
    print("all", pluto::all(a, odd));
    print("count", pluto::count(a, e));
    print("count_if", pluto::count_if(a, odd));
    print("sum", pluto::sum(a));
    print("sum", pluto::sum(a, 5LL));
    if (!a.empty())
    {
        print("min", (pluto::min)(a));
        print("max", (pluto::max)(a));
        print("min", (pluto::min)(a, pluto::is_greater{}));
        print("max at", static_cast<long long>(&(pluto::max)(va) - va.data()));
        print("min at", static_cast<long long>(&(pluto::min)(va) - va.data()));
    }
}
void containers(const In& in)
{
    container<std::vector<long long>>(in);
    container<std::deque<long long>>(in);
    container<std::list<long long>>(in);
    auto v = numbers(in.t[0]);
    print_all("sort", pluto::sort(v));
    print_all("sort", pluto::sort(v, pluto::is_greater{}));
    const int array[5] = { 1, 0, static_cast<int>(in.n[0] & 3), 2, 1 };
    print("len", static_cast<std::size_t>(pluto::len(array)));
    static const char one[1] = {}, page[4096] = {}, large[70000] = {};
    static const double several[300] = {};
    static const std::string strings[17];
    print("len", static_cast<std::size_t>(pluto::len(one)));
    print("len", static_cast<std::size_t>(pluto::len(page)));
    print("len", static_cast<std::size_t>(pluto::len(large)));
    print("len", static_cast<std::size_t>(pluto::len(several)));
    print("len", static_cast<std::size_t>(pluto::len(strings)));
    print("sum", static_cast<long long>(pluto::sum(array, 1LL)));
}
void iterators(const In& in)
{
    auto v = numbers(in.t[0]);
    const auto w = numbers(in.t[1]);
    const long long e = in.n[0] % 7 - 2;
    const auto odd = [](const long long x) { return (x & 1) != 0; };
    const auto at = [&](std::vector<long long>::iterator i) { return static_cast<long long>(i - v.begin()); };
    print("equals", pluto::equals(v.begin(), v.end(), w.begin(), w.end()));
    if (w.size() >= v.size()) print("same size", pluto::equals_same_size(v.begin(), v.end(), w.begin()));
    print("starts", pluto::starts_with(v.begin(), v.end(), w.begin(), w.end()));
    print("ends", pluto::ends_with(v.begin(), v.end(), w.begin(), w.end()));
    print("find", at(pluto::find(v.begin(), v.end(), e)));
    print("rfind", at(pluto::rfind(v.begin(), v.end(), e)));
    print("find", at(pluto::find(v.begin(), v.end(), w.begin(), w.end())));
    print("find_if", at(pluto::find_if(v.begin(), v.end(), odd)));
    print("rfind_if", at(pluto::rfind_if(v.begin(), v.end(), odd)));
    print("find_if_not", at(pluto::find_if_not(v.begin(), v.end(), odd)));
    print("rfind_if_not", at(pluto::rfind_if_not(v.begin(), v.end(), odd)));
    print("contains", pluto::contains(v.begin(), v.end(), e));
    print("contains", pluto::contains(v.begin(), v.end(), w.begin(), w.end()));
    std::vector<long long> r;
    pluto::map(v.begin(), v.end(), std::back_inserter(r), [](const long long x) { return x * 3; });
    print_all("map", r);
    r.erase(pluto::filter(r.begin(), r.end(), odd), r.end());
    print_all("filter", r);
    long long total = 0;
    pluto::for_each(v.begin(), v.end(), [&](const long long x) { total = total * 3 + x; });
    print("for_each", total);
    pluto::reverse(v.begin(), v.end());
    print_all("reverse", v);
    pluto::sort(v.begin(), v.end());
    print_all("sort", v);
}
void plain_values(const In& in)
{
    const long long a = in.n[0] / 4, b = in.n[1] / 4;
    print("abs", pluto::abs(a));
    print("abs", pluto::abs(static_cast<int>(a >> 34)));
    print("abs", pluto::abs(static_cast<double>(a) / 16));
    print("copy", pluto::copy(a));
    print("min", (pluto::min)(a, b));
    print("max", (pluto::max)(a, b));
    print("min", &(pluto::min)(a, b) == &a);
    print("max", &(pluto::max)(a, b) == &a);
    print("min", (pluto::min)(a, b, pluto::is_greater{}));
    print("max", (pluto::max)(a, b, pluto::is_greater{}));
    const long long small = in.n[2] % 30, exponent = in.n[3] % 12;
    print("pow", static_cast<double>(pluto::pow(small, exponent)));
    print("pow", static_cast<double>(pluto::pow(static_cast<int>(small), static_cast<int>(exponent))));
    print("pow", static_cast<double>(pluto::pow(static_cast<float>(small), static_cast<float>(exponent))));
    print("pow", static_cast<double>(pluto::pow(static_cast<double>(small), static_cast<double>(exponent) / 2)));
    print("round", static_cast<double>(pluto::round(static_cast<double>(a >> 40) / 8)));
    print("round", static_cast<double>(pluto::round(static_cast<float>(a >> 48) / 4)));
    print("round", static_cast<double>(pluto::round(static_cast<int>(small))));
    const long long f = in.n[2] % 10, g = in.n[3] % 10, h = in.n[4] % 10, k = in.n[5] % 10;
    const pluto::range<long long> x(f, g), y(h, k);
    print("size", static_cast<long long>(x.size()));
    OUT << x.is_equal(y) << x.is_overlapping(y) << x.is_less(y) << x.is_less_no_overlap(y) << (x == y) << (x != y) << (x < y) << (x > y) << (x <= y) << (x >= y) << '\n';
    const pluto::range<double> dx(f / 2.0, g / 2.0), dy(h / 2.0, k / 2.0);
    OUT << dx.is_overlapping(dy) << dx.is_less(dy) << (dx == dy) << (dx < dy) << (dx >= dy) << dx.size() << '\n';
    OUT << pluto::is_true{}(f) << pluto::is_false{}(f) << pluto::is_equal{}(f, g) << pluto::is_not_equal{}(f, g) << pluto::is_less{}(f, g) << pluto::is_greater{}(f, g) << pluto::is_less_equal{}(f, g) << pluto::is_greater_equal{}(f, g) << '\n';
}
template<class Cache> void cache(const In& in)
{
    Cache k(static_cast<std::size_t>(in.n[0] & 7));
    for (const u32 c : in.t[0])
    {
        const int key = static_cast<int>((c >> 4) % 6), value = static_cast<int>(c >> 8);
        int got = -1;
        switch (c % 8)
        {
        case 0: case 1: OUT << 'i' << k.insert(key, value); break;
        case 2: OUT << 'a' << k.insert_or_assign(key, value); break;
        case 3: case 4: { const bool found = k.get(key, got); OUT << 'g' << found << ',' << got; break; }
        case 5: OUT << 'r' << k.remove(key); break;
        case 6: OUT << 'c' << k.contains(key); break;
        default: k.capacity(static_cast<std::size_t>(value % 7)); OUT << 'C' << k.capacity();
        }
        OUT << ':' << k.size() << k.empty() << ' ';
    }
    OUT << '\n';
}
void caches(const In& in)
{
    cache<pluto::lru_cache<int, int>>(in);
    cache<pluto::safe_lru_cache<int, int>>(in);
}
void scopes(const In& in)
{
    std::string log;
    const auto run = [&](const bool failing)
    {
        try
        {
            pluto::on_scope_exit e([&] { log += 'e'; });
            pluto::on_scope_success s([&] { log += 's'; });
            pluto::on_scope_fail f([&] { log += 'f'; });
            for (const u32 c : in.t[0])
            {
                const char name = static_cast<char>('0' + (c / 4) % 10);
                const auto task = [&log, name, c] { log += name; if (c & 0x40) throw 1; };
                switch (c % 4)
                {
                case 0: e.add(task); break;
                case 1: s.add(task); break;
                case 2: f.add(task); break;
                default: if (c & 0x80) e.add(std::function<void()>()); else s.add([&, task] { s.add(task); log += '+'; });
                }
            }
            if (failing) throw 2;
            log += '|';
        }
        catch (const int x) { log += x == 2 ? 'C' : '!'; }
    };
    run(false);
    run(true);
    run((in.n[0] & 1) != 0);
    OUT << log << '\n';
}
void platform(const In& in)
{
    std::string path = as<char>(in.t[0]);
    path = path.c_str();
    print("file_name", std::string(pluto::file_name(path.c_str())));
    const std::time_t t = static_cast<std::time_t>(in.n[0] % 4000000000LL);
    const std::tm a = pluto::local_time(t), b = pluto::gm_time(t);
    OUT << a.tm_year << ' ' << a.tm_mon << ' ' << a.tm_mday << ' ' << a.tm_hour << ' ' << a.tm_min << ' ' << a.tm_sec << ' ' << a.tm_yday << '\n';
    OUT << b.tm_year << ' ' << b.tm_mon << ' ' << b.tm_mday << ' ' << b.tm_hour << ' ' << b.tm_min << ' ' << b.tm_sec << ' ' << b.tm_yday << '\n';
}
void log_lines(const In& in)
{
    const auto level = static_cast<pluto::log_level>(in.n[0] % 11 - 1);
    OUT << pluto::log_level_to_c_str(level) << ' ' << pluto::log_level_to_title(level) << ' ' << pluto::log_level_to_shortened(level) << ' ' << pluto::log_level_to_char(level) << '\n';
    std::string file = as<char>(in.t[0]), function = as<char>(in.t[1]);
    file = file.c_str();
    function = function.c_str();
    const std::string message = as<char>(in.t[2]);
    const long long us = (in.n[1] < 0 ? -(in.n[1] / 2) : in.n[1]) % 4000000000000000LL;
    const pluto::log_entry entry(p36::ManualClock::time_point(std::chrono::microseconds(us)), static_cast<std::size_t>(in.n[2]), level, pluto::source_info(file.c_str(), static_cast<int>(in.n[3] % 200000), function.c_str()), message);
    std::ostringstream line;
    pluto::logger::default_log_writer(line, entry);
    line << '\n';
    pluto::logger::default_header_writer(line);
    line << '\n';
    pluto::logger::default_log_writer(line, entry);
    print("lines", line.str());
}
void watches(const In& in)
{
    p36::ManualClock::value = in.n[0] % 1000000000LL;
    pluto::stopwatch w((in.n[1] & 1) != 0);
    for (const u32 c : in.t[0])
    {
        p36::ManualClock::value += static_cast<long long>(c) * (1 + in.n[2] % 100000);
        switch (c % 6)
        {
        case 0: w.start(); break;
        case 1: w.stop(); break;
        case 2: w.reset(); break;
        case 3: w.restart(); break;
        case 4: OUT << 'S' << w.stop_and_time().count(); break;
        default: break;
        }
        OUT << w.is_running() << ' ' << w.time().count() << ' ' << w.in_nanoseconds() << ' ' << w.in_microseconds() << ' ' << w.in_milliseconds() << ' ' << w.in_seconds() << ' ' << w.in_minutes() << ' ' << w.in_hours()
            << ' ' << w.nanoseconds_part() << ' ' << w.microseconds_part() << ' ' << w.milliseconds_part() << ' ' << w.seconds_part() << ' ' << w.minutes_part() << ' ' << w.hours_part() << '\n';
    }
}
// ---- from C++17 on
#if __cplusplus >= 201703L
template<class C> void searching_back(const In& in)
{
    const std::basic_string<C> a = as<C>(in.t[0]), b = as<C>(in.t[1]);
    print("rfind", static_cast<long long>(pluto::rfind(a, b) - a.begin()));
    print("rfind", static_cast<long long>(pluto::rfind(a.data(), a.size(), b.data(), b.size()) - a.data()));
    const std::list<C> ka(a.begin(), a.end()), kb(b.begin(), b.end());
    print("rfind_sequence", static_cast<long long>(std::distance(ka.begin(), pluto::rfind_sequence(ka, kb))));
    print("rfind", static_cast<long long>(std::distance(a.begin(), pluto::rfind(a.begin(), a.end(), b.begin(), b.end()))));
}
template<class C> void isearching_back(const In& in)
{
    const std::basic_string<C> a = as<C>(in.t[0]), b = as<C>(in.t[1]);
    print("irfind", static_cast<long long>(pluto::irfind(a, b, LOCALE(in.n[0])) - a.begin()));
    print("irfind", static_cast<long long>(pluto::irfind(a, b) - a.begin()));
}
#endif
// ---- from C++20 on
#if __cplusplus >= 202002L
void unicode8(const In& in)
{
    const auto c = as<char>(in.t[0]);
    const auto w = as<wchar_t>(in.t[0]);
    const auto s = as<char16_t>(in.t[0]);
    const auto d = as<char32_t>(in.t[0]);
    const std::u8string e(c.begin(), c.end());
    print("8>c", pluto::str(e));
    print("8>w", pluto::wstr(e));
    print("8>16", pluto::u16str(e));
    print("8>32", pluto::u32str(e));
    print("c>8", pluto::u8str(c));
    print("w>8", pluto::u8str(w));
    print("16>8", pluto::u8str(s));
    print("32>8", pluto::u8str(d));
    print("split", pluto::split_any_of(e, e.substr(0, 1)));
    print("contains", pluto::contains(e, e.substr(e.size() / 2)));
    std::u8string f = e;
    pluto::replace(f, e.substr(0, 1), e);
    print("replace", f);
}
#endif

struct Op { const char* name; int since; void (*run)(const In&); };
const Op ops[] = {
    { "unicode", 14, unicode },
    { "case char", 14, cases<char> }, { "case wchar_t", 14, cases<wchar_t> },
    { "str and str_to", 14, values },
    { "search char", 14, searching<char> }, { "search wchar_t", 14, searching<wchar_t> }, { "search char16_t", 14, searching<char16_t> }, { "search char32_t", 14, searching<char32_t> },
    { "ignoring case char", 14, ignoring_case<char> }, { "ignoring case wchar_t", 14, ignoring_case<wchar_t> },
    { "split char", 14, splitting<char> }, { "split wchar_t", 14, splitting<wchar_t> }, { "split char32_t", 14, splitting<char32_t> },
    { "spaces char", 14, splitting_spaces<char> }, { "spaces wchar_t", 14, splitting_spaces<wchar_t> },
    { "replace char", 14, replacing<char> }, { "replace wchar_t", 14, replacing<wchar_t> }, { "replace char16_t", 14, replacing<char16_t> },
    { "join char", 14, joining<char> }, { "join wchar_t", 14, joining<wchar_t> }, { "join char32_t", 14, joining<char32_t> },
    { "bin oct hex", 14, digits },
    { "containers", 14, containers }, { "iterators", 14, iterators },
    { "values and ranges", 14, plain_values },
    { "caches", 14, caches },
    { "scope guards", 14, scopes },
    { "platform", 14, platform },
    { "log lines", 14, log_lines },
    { "stopwatch", 14, watches },
#if __cplusplus >= 201703L
    { "rfind char", 17, searching_back<char> }, { "rfind wchar_t", 17, searching_back<wchar_t> }, { "irfind char", 17, isearching_back<char> }, { "irfind wchar_t", 17, isearching_back<wchar_t> },
#else
    { "rfind char", 17, nullptr }, { "rfind wchar_t", 17, nullptr }, { "irfind char", 17, nullptr }, { "irfind wchar_t", 17, nullptr },
#endif
#if __cplusplus >= 202002L
    { "unicode char8_t", 20, unicode8 },
#else
    { "unicode char8_t", 20, nullptr },
#endif
};
}

extern "C" __attribute__((visibility("default"))) unsigned p36_count() { return sizeof(ops) / sizeof(ops[0]); }
extern "C" __attribute__((visibility("default"))) const char* p36_name(const unsigned i) { return ops[i].name; }
extern "C" __attribute__((visibility("default"))) int p36_has(const unsigned i) { return ops[i].run != nullptr; }
extern "C" __attribute__((visibility("default"))) const char* p36_build()
{
    static char text[200];
    std::snprintf(text, sizeof text, "%s %ld %s%s%s", COMPILER, __cplusplus,
#ifdef __OPTIMIZE__
        "optimised",
#else
        "not optimised",
#endif
        PLUTO_LOCALE_NO_STATIC ? ", PLUTO_LOCALE_NO_STATIC" : "", PLUTO_STRING_OVERLOAD_FOR_UNICODE ? ", PLUTO_STRING_OVERLOAD_FOR_UNICODE" : "");
    return text;
}
// the answer, valid until the next call
extern "C" __attribute__((visibility("default"))) const char* p36_eval(const unsigned op, const long long* n, const std::uint32_t* const* texts, const std::size_t* sizes, std::size_t* size)
{
    static std::string answer;
    In in;
    for (int i = 0; i < 6; ++i) in.n[i] = n[i];
    for (int i = 0; i < 4; ++i) in.t[i].assign(texts[i], texts[i] + sizes[i]);
    std::ostringstream out;
    g_out = &out;
    try { ops[op].run(in); }
    catch (const std::exception& e) { out << "exception"; }
    answer = out.str();
    *size = answer.size();
    return answer.data();
}
