// P14: scalar helpers.
#include "pbt.hpp"
#include <any>
#include <climits>
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <pluto/value.hpp>
using pbt::show;

template<class T> void absolute(T v, const char* name)
{
    const T r = pluto::abs(v);
    const __int128 w = static_cast<__int128>(v);
    CHECK("abs", static_cast<__int128>(r) == (w < 0 ? -w : w), "abs of " << name << " " << show(v) << ": got " << show(r));
}
template<class T> T int_value(pbt::Case& c)
{
    T v = c.integer<T>();
    if (std::is_signed<T>::value && v == std::numeric_limits<T>::min()) ++v;    // no absolute value in the type
    return v;
}
double real(pbt::Case& c)
{
    switch (c.weighted({ 4, 3, 2, 1 }))
    {
    case 0: return static_cast<double>(c.around(-40, 40)) / 2;
    case 1: { const std::uint64_t b = c.bits(); double d; static_assert(sizeof d == sizeof b, ""); __builtin_memcpy(&d, &b, sizeof d); return d; }
    case 2: { double d = static_cast<double>(c.around(-1000, 1000)) + 0.5; switch (c.draw(3)) { case 0: return d; case 1: return std::nextafter(d, 1e30); default: return std::nextafter(d, -1e30); } }
    default:
    {
        static const double edges[] = { 0.0, -0.0, 0.49999999999999994, -0.49999999999999994, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 4503599627370495.5, -4503599627370495.5, 4503599627370496.0, 4503599627370497.0, 9007199254740991.0, 9007199254740993.0, 1e300, -1e300,
            std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::max(), 2147483647.5, -2147483648.5, 9223372036854775807.0 };
        return c.pick(edges);
    }
    }
}
PROP(absolute_values, .quick = 1000000)
{
    switch (c.draw(8))
    {
    case 0: { const int v = int_value<int>(c); NOTE("int " << v); c.nontrivial(v < 0); absolute(v, "int"); break; }
    case 1: { const long long v = int_value<long long>(c); NOTE("long long " << v); c.nontrivial(v < 0); absolute(v, "long long"); break; }
    case 2: { const short v = int_value<short>(c); NOTE("short " << v); c.nontrivial(v < 0); absolute(v, "short"); break; }
    case 3: { const signed char v = int_value<signed char>(c); NOTE("signed char " << +v); c.nontrivial(v < 0); absolute(v, "signed char"); break; }
    case 4: { const unsigned v = int_value<unsigned>(c); NOTE("unsigned " << v); c.nontrivial(v != 0); absolute(v, "unsigned"); break; }
    case 5: { const long v = int_value<long>(c); NOTE("long " << v); c.nontrivial(v < 0); absolute(v, "long"); break; }
    default:
    {
        const double v = real(c);
        NOTE("double " << show(v));
        c.nontrivial(v < 0);
        const double r = pluto::abs(v);
        const float f = static_cast<float>(v), rf = pluto::abs(f);
        const long double l = v, rl = pluto::abs(l);
        if (std::isnan(v)) { CHECK("abs", std::isnan(r), "abs(nan) is not nan"); break; }
        CHECK("abs", r == std::fabs(v), "abs(" << show(v) << ") = " << show(r));
        CHECK("abs", rf == std::fabs(f), "abs(float " << show(f) << ") = " << show(rf));
        CHECK("abs", rl == std::fabs(l), "abs(long double " << show(v) << ")");
    }
    }
}
template<class T> void rounding_of(T v)
{
    const auto r = pluto::round(v);
    static_assert(std::is_same<decltype(r), const T>::value, "rounding keeps the floating point type");
    if (std::isnan(v)) { CHECK("round", std::isnan(r), "round(nan) is not nan"); return; }
    // half away from zero: truncate, and step away if the (exact) remainder is at least a half
    const T t = std::trunc(v);
    const T rest = std::isinf(v) ? 0 : std::fabs(v - t);
    const T expected = rest >= T(0.5) ? t + (v < 0 ? T(-1) : T(1)) : t;
    CHECK("round", r == expected, "round(" << show(v) << ") = " << show(r) << ", expected " << show(expected));
    CHECK("round sign", std::signbit(r) == std::signbit(v), "round(" << show(v) << ") has the wrong sign");
}
PROP(rounding, .quick = 1000000)
{
    const double v = real(c);
    NOTE(show(v));
    c.nontrivial(v != std::trunc(v));
    rounding_of(v);
    rounding_of(static_cast<float>(v));
    rounding_of(static_cast<long double>(v));
    rounding_of(static_cast<long double>(v) / 3);
    const int i = c.integer<int>();
    CHECK("round", pluto::round(i) == static_cast<double>(i), "round of the integer " << i);
    const long long ll = c.integer<long long>() >> 12;
    CHECK("round", pluto::round(ll) == static_cast<double>(ll), "round of the integer " << ll);
    const unsigned u = c.integer<unsigned>();
    CHECK("round", pluto::round(u) == static_cast<double>(u), "round of the integer " << u);
}
template<class T> bool same(T a, T b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }
PROP(power, .quick = 300000)
{
    // exact cases: small integers
    const int base = static_cast<int>(c.around(-12, 12)), exponent = static_cast<int>(c.around(-8, 13));
    NOTE(base << "^" << exponent);
    c.nontrivial(base != 0 && base != 1 && exponent != 0 && exponent != 1);
    if (base != 0 || exponent >= 0)
    {
        __int128 e = 1;
        for (int i = 0; i < std::abs(exponent); ++i) e *= base;
        const double expected = exponent >= 0 ? static_cast<double>(e) : 1.0 / static_cast<double>(e);
        const auto close = [&](double got, double rel, const char* what) { CHECK("pow", std::fabs(got - expected) <= rel * std::fabs(expected), "pow(" << base << ", " << exponent << ") as " << what << ": got " << show(got) << ", expected " << show(expected)); };
        close(pluto::pow(base, exponent), 1e-15, "int");
        close(pluto::pow(static_cast<long long>(base), static_cast<long long>(exponent)), 1e-15, "long long");
        close(pluto::pow(static_cast<short>(base), static_cast<short>(exponent)), 1e-15, "short");
        close(pluto::pow(static_cast<double>(base), static_cast<double>(exponent)), 1e-15, "double");
        close(pluto::pow(static_cast<float>(base), static_cast<float>(exponent)), 1e-6, "float");
        close(static_cast<double>(pluto::pow(static_cast<long double>(base), static_cast<long double>(exponent))), 1e-15, "long double");
        if (base >= 0 && exponent >= 0) close(pluto::pow(static_cast<unsigned>(base), static_cast<unsigned>(exponent)), 1e-15, "unsigned");
        const long double third = pluto::pow(static_cast<long double>(base) / 3, static_cast<long double>(exponent));
        CHECK("pow long double", same(third, std::pow(static_cast<long double>(base) / 3, static_cast<long double>(exponent))), "long double precision is kept");
        static_assert(std::is_same<decltype(pluto::pow(1.0f, 1.0f)), float>::value && std::is_same<decltype(pluto::pow(1.0, 1.0)), double>::value && std::is_same<decltype(pluto::pow(1.0L, 1.0L)), long double>::value && std::is_same<decltype(pluto::pow(1, 1)), double>::value, "");
    }
    // the standard function everywhere, special values included
    const double x = real(c), y = real(c);
    NOTE(" and " << show(x) << "^" << show(y));
    CHECK("pow", same(pluto::pow(x, y), std::pow(x, y)), "pow(" << show(x) << ", " << show(y) << ") differs from the standard function");
    CHECK("pow", same(pluto::pow(static_cast<float>(x), static_cast<float>(y)), std::pow(static_cast<float>(x), static_cast<float>(y))), "pow(float " << show(x) << ", " << show(y) << ") differs from the standard function");
    const long long li = static_cast<long long>(c.bits()), lj = c.around(-5, 5);
    CHECK("pow", same(pluto::pow(li, lj), std::pow(static_cast<double>(li), static_cast<double>(lj))), "pow(long long " << li << ", " << lj << ")");
}
struct Item { int key; int id; bool operator<(const Item& o) const { return key < o.key; } };
template<class T> void extremes(const T& a, const T& b, bool a_less_b, bool b_less_a, const char* what)
{
    CHECK("min", &(pluto::min)(a, b) == (b_less_a ? &b : &a), "min of two " << what << " is not the proper argument itself");
    CHECK("max", &(pluto::max)(a, b) == (a_less_b ? &b : &a), "max of two " << what << " is not the proper argument itself");
}
PROP(min_max, .quick = 500000)
{
    const Item a{ static_cast<int>(c.around(-3, 3)), 0 }, b{ static_cast<int>(c.around(-3, 3)), 1 };
    NOTE(a.key << ", " << b.key);
    c.nontrivial(a.key != b.key);
    if (a.key == b.key) c.label("tie");
    extremes(a, b, a.key < b.key, b.key < a.key, "items");
    const auto greater = [](const Item& x, const Item& y) { return x.key > y.key; };
    const auto magnitude = [](const Item& x, const Item& y) { return std::abs(x.key) < std::abs(y.key); };
    CHECK("min", &(pluto::min)(a, b, greater) == (b.key > a.key ? &b : &a), "min by greater");
    CHECK("max", &(pluto::max)(a, b, greater) == (a.key > b.key ? &b : &a), "max by greater");
    CHECK("min", &(pluto::min)(a, b, magnitude) == (std::abs(b.key) < std::abs(a.key) ? &b : &a), "min by magnitude");
    CHECK("max", &(pluto::max)(a, b, magnitude) == (std::abs(a.key) < std::abs(b.key) ? &b : &a), "max by magnitude");
    const int i = c.integer<int>(), j = c.flag(0.2) ? i : c.integer<int>();
    extremes(i, j, i < j, j < i, "int");
    const auto u = c.integer<unsigned long long>(), w = c.integer<unsigned long long>();
    extremes(u, w, u < w, w < u, "unsigned long long");
    const double x = real(c), y = real(c);
    extremes(x, y, x < y, y < x, "double");
    const std::string s(static_cast<std::size_t>(a.key + 3), 'k'), t(static_cast<std::size_t>(b.key + 3), 'k');
    extremes(s, t, s < t, t < s, "string");
}
struct Json
{
    int number{ 0 };
    std::vector<Json> list;
    bool is_list{ false };
    Json() = default;
    Json(int n) : number(n) {}
    Json(std::initializer_list<Json> l) : list(l), is_list(true) {}
    bool operator==(const Json& o) const { return number == o.number && is_list == o.is_list && list == o.list; }
};
PROP(copying, .quick = 100000)
{
    std::vector<int> v;
    const std::size_t n = c.length(20);
    for (std::size_t i = 0; i < n; ++i) v.push_back(static_cast<int>(c.draw(50)));
    NOTE(show(v));
    c.nontrivial(n > 0);
    {
        auto w = pluto::copy(v);
        static_assert(std::is_same<decltype(w), std::vector<int>>::value, "");
        CHECK("copy", w == v, "copy of a vector<int>");
        const auto keep = v;
        w.push_back(1);
        if (!w.empty()) w[0] = -1;
        CHECK("copy independent", v == keep, "changing the copy changed the original");
    }
    {
        const std::string s(v.begin(), v.end());
        const auto t = pluto::copy(s);
        CHECK("copy", t == s && (s.size() == 0 || t.data() != s.data()), "copy of a string");
        const std::map<int, std::string> m{ { 1, s }, { static_cast<int>(n) + 2, "x" } };
        CHECK("copy", pluto::copy(m) == m, "copy of a map");
        std::vector<std::string> words(n, s);
        CHECK("copy", pluto::copy(words) == words, "copy of a vector<string>");
        std::vector<std::vector<int>> nested(n % 3, v);
        CHECK("copy", pluto::copy(nested) == nested, "copy of a vector<vector<int>>");
    }
    {
        std::vector<std::any> a;
        for (int x : v) a.emplace_back(x);
        const auto b = pluto::copy(a);
        CHECK("copy any", b.size() == a.size(), "copy of a vector<any> of " << a.size() << " elements has " << b.size());
        for (std::size_t i = 0; i < b.size(); ++i) { const int* x = std::any_cast<int>(&b[i]); CHECK("copy any", x && *x == v[i], "copy of a vector<any>: element " << i); }
        const std::any one(v);
        const auto two = pluto::copy(one);
        const auto* inner = std::any_cast<std::vector<int>>(&two);
        CHECK("copy any", inner && *inner == v, "copy of an any");
        Json j;
        if (n & 1) { j.is_list = true; for (int x : v) j.list.push_back(Json(x)); } else j.number = static_cast<int>(n);
        CHECK("copy json", pluto::copy(j) == j, "copy of a value type with an initializer list constructor");
        const std::vector<Json> list(n, j);
        CHECK("copy json", pluto::copy(list) == list, "copy of a vector of such values");
    }
    {
        const auto p = std::make_shared<int>(static_cast<int>(n));
        const auto q = pluto::copy(p);
        CHECK("copy", q == p && p.use_count() == 2, "copy of a shared_ptr");
        const int i = c.integer<int>();
        CHECK("copy", pluto::copy(i) == i, "copy of an int");
        const char ch = c.integer<char>();
        CHECK("copy", pluto::copy(ch) == ch, "copy of a char");
        const bool flag = n & 1;
        CHECK("copy", pluto::copy(flag) == flag, "copy of a bool");
        const double d = real(c);
        CHECK("copy", same(pluto::copy(d), d), "copy of a double");
        const int* ptr = &i;
        CHECK("copy", pluto::copy(ptr) == ptr, "copy of a pointer");
        const std::function<int()> fn = [i] { return i; };
        CHECK("copy", pluto::copy(fn)() == i, "copy of a function");
        const std::pair<std::vector<int>, std::string> pr(v, "p");
        CHECK("copy", pluto::copy(pr) == pr, "copy of a pair");
        struct Aggregate { int a; double b; };
        const Aggregate g{ i, 2.5 }, h = pluto::copy(g);
        CHECK("copy", h.a == g.a && h.b == g.b, "copy of an aggregate");
    }
}
struct OnlyNot { bool v; bool operator!() const { return !v; } };
template<class T> void truth(const T& v, bool expected, const char* what)
{
    CHECK_EQ("truth", pluto::is_true{}(v), expected, "is_true of " << what);
    CHECK_EQ("truth", pluto::is_false{}(v), !expected, "is_false of " << what);
}
PROP(truth, .quick = 300000)
{
    const std::uint64_t b = c.flag(0.3) ? 0 : c.bits();
    NOTE(b);
    c.nontrivial(b != 0 && (b & 1) == 0);
    truth(b, b != 0, "unsigned 64 bit");
    truth(static_cast<int>(b), static_cast<int>(b) != 0, "int");
    truth(static_cast<signed char>(b), static_cast<signed char>(b) != 0, "signed char");
    truth(static_cast<__int128>(b) << 64, b != 0, "__int128");
    const double d = real(c);
    truth(d, d != 0, "double");
    truth(static_cast<float>(d), static_cast<float>(d) != 0, "float");
    truth((b & 1) != 0, (b & 1) != 0, "bool");
    truth(OnlyNot{ (b & 1) != 0 }, (b & 1) != 0, "type with only operator!");
    truth((b & 1) ? &b : nullptr, (b & 1) != 0, "pointer");
    const std::unique_ptr<int> u((b & 1) ? new int : nullptr);
    truth(u, (b & 1) != 0, "unique_ptr");
    const std::function<void()> f = (b & 1) ? std::function<void()>([] {}) : std::function<void()>();
    truth(f, (b & 1) != 0, "function");
    std::vector<bool> bits{ (b & 1) != 0, (b & 2) != 0 };
    truth(bits[1], (b & 2) != 0, "vector<bool> element");
}
int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P14", "cases: values of integer and floating point types from edges, halves and their neighbours and uniform bits, pairs of values with ties, objects of many types; non-trivial: negative / not integral / base and exponent not 0 or 1 / different / not empty / even and not zero");
}
