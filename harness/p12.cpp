// P12: slicing against Python's rules.
#include "pbt.hpp"
#include <any>
#include <climits>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <pluto/container.hpp>
using pbt::show;

// Python: slice(start, stop).indices(len)
std::pair<std::size_t, std::size_t> indices(long long start, long long stop, std::size_t size)
{
    const __int128 n = static_cast<__int128>(size);
    __int128 a = start, b = stop;
    if (a < 0) { a += n; if (a < 0) a = 0; } else if (a > n) a = n;
    if (b < 0) { b += n; if (b < 0) b = 0; } else if (b > n) b = n;
    if (b < a) b = a;
    return { static_cast<std::size_t>(a), static_cast<std::size_t>(b) };
}
// a value that can be made from anything, also from its own container
struct Json
{
    int number{ 0 };
    std::vector<Json> list;
    bool is_list{ false };
    Json() = default;
    Json(int n) : number(n) {}
    Json(std::initializer_list<Json> l) : list(l), is_list(true) {}
    Json(const std::vector<Json>& l) : list(l), is_list(true) {}
    template<class It, class = typename std::iterator_traits<It>::iterator_category> Json(It) : number(-1) {}
    bool operator==(const Json& o) const { return number == o.number && is_list == o.is_list && list == o.list; }
};
struct Any
{
    std::any value;
    Any() = default;
    template<class T, class = typename std::enable_if<!std::is_same<typename std::decay<T>::type, Any>::value>::type> Any(T&& v) : value(std::forward<T>(v)) {}
    bool operator==(const Any& o) const
    {
        const int* a = std::any_cast<int>(&value); const int* b = std::any_cast<int>(&o.value);
        return a && b && *a == *b;
    }
};
template<class C, class Equal> void check(const C& k, long long start, long long stop, const char* what, Equal equal)
{
    const auto same = [&](const C& result, std::size_t from, std::size_t to, const char* form)
    {
        CHECK_EQ("slice size", static_cast<std::size_t>(std::distance(result.begin(), result.end())), to - from, form << " of " << what << ": elements");
        auto it = k.begin();
        std::advance(it, from);
        std::size_t n = from;
        for (const auto& e : result) { CHECK("slice elements", equal(e, *it), form << " of " << what << ": element from position " << n << " differs"); ++it; ++n; }
    };
    const C before(k);
    const auto i = indices(start, stop, k.size());
    same(pluto::slice(k, start, stop), i.first, i.second, "slice(start, stop)");
    const auto j = indices(0, stop, k.size());
    same(pluto::slice(k, stop), j.first, j.second, "slice(stop)");
    CHECK("slice source", k.size() == before.size() && std::equal(k.begin(), k.end(), before.begin(), equal), "slice changed the source");
}
struct Eq { template<class T> bool operator()(const T& a, const T& b) const { return a == b; } };
struct AnyEq
{
    bool operator()(const std::any& a, const std::any& b) const
    {
        const int* x = std::any_cast<int>(&a); const int* y = std::any_cast<int>(&b);
        return x && y && *x == *y;
    }
};
long long bound(pbt::Case& c, std::size_t n)
{
    const long long size = static_cast<long long>(n);
    switch (c.weighted({ 6, 2, 1 }))
    {
    case 0: return c.around(-size - 2, size + 2);
    case 1: { static const long long edges[] = { LLONG_MIN, LLONG_MIN + 1, LLONG_MAX, LLONG_MAX - 1, INT_MIN, INT_MAX, -1, 0, 1, 1LL << 32, -(1LL << 32), 1LL << 31, -(1LL << 31) - 1 };
        long long e = c.pick(edges);
        const long long d = c.around(-size - 1, size + 1);
        return (d > 0 && e > LLONG_MAX - d) || (d < 0 && e < LLONG_MIN - d) ? e : e + d; }
    default: return static_cast<long long>(c.bits());
    }
}
void all(const std::vector<int>& v, long long start, long long stop, unsigned which)
{
    const auto words = [&] { std::vector<std::string> w; for (int x : v) w.push_back(std::string(static_cast<std::size_t>(x % 40), static_cast<char>('a' + x % 26))); return w; };
    switch (which)
    {
    case 0: check(v, start, stop, "vector<int>", Eq{}); break;
    case 1: check(std::deque<int>(v.begin(), v.end()), start, stop, "deque<int>", Eq{}); break;
    case 2: check(std::list<int>(v.begin(), v.end()), start, stop, "list<int>", Eq{}); break;
    case 3: { std::string s; for (int x : v) s += static_cast<char>(x); check(s, start, stop, "string", Eq{}); break; }
    case 4: { std::wstring s; for (int x : v) s += static_cast<wchar_t>(x); check(s, start, stop, "wstring", Eq{}); break; }
    case 5: { std::u16string s; for (int x : v) s += static_cast<char16_t>(x); check(s, start, stop, "u16string", Eq{}); break; }
    case 6: check(std::set<int>(v.begin(), v.end()), start, stop, "set<int>", Eq{}); break;
    case 7: check(std::multiset<int>(v.begin(), v.end()), start, stop, "multiset<int>", Eq{}); break;
    case 8: { std::map<int, int> m; for (std::size_t i = 0; i < v.size(); ++i) m[v[i]] = static_cast<int>(i); check(m, start, stop, "map<int, int>", Eq{}); break; }
    case 9: check(words(), start, stop, "vector<string>", Eq{}); break;
    case 10: { const auto w = words(); check(std::list<std::string>(w.begin(), w.end()), start, stop, "list<string>", Eq{}); break; }
    case 11: { std::vector<bool> b; for (int x : v) b.push_back(x & 1); check(b, start, stop, "vector<bool>", Eq{}); break; }
    case 12: { std::vector<std::any> a; for (int x : v) a.emplace_back(x); check(a, start, stop, "vector<any>", AnyEq{}); break; }
    case 13: { std::vector<Json> a; for (int x : v) a.emplace_back(x); check(a, start, stop, "vector<Json>", Eq{}); break; }
    case 14: { std::deque<Any> a; for (int x : v) a.emplace_back(x); check(a, start, stop, "deque<Any>", Eq{}); break; }
    case 15: { std::list<std::any> a; for (int x : v) a.emplace_back(x); check(a, start, stop, "list<any>", AnyEq{}); break; }
    case 16: { std::vector<const int*> a; for (const int& x : v) a.push_back(&x); check(a, start, stop, "vector<const int*>", Eq{}); break; }
    default: { std::vector<std::vector<int>> a; for (int x : v) a.push_back(std::vector<int>(static_cast<std::size_t>(x % 5), x)); check(a, start, stop, "vector<vector<int>>", Eq{}); }
    }
}
// every size up to 12 with every pair of bounds from -size-2 to size+2, all container kinds
PROP(small_exhaustive, .quick = 13 * 18, .thorough = 13 * 18, .enumerate = true)
{
    const std::uint64_t n = c.draw(13 * 18);
    const int size = static_cast<int>(n % 13);
    const unsigned which = static_cast<unsigned>(n / 13);
    NOTE("size " << size << " container kind " << which);
    c.nontrivial(size > 0);
    std::vector<int> v;
    for (int i = 0; i < size; ++i) v.push_back(i * 3 + 1);
    for (int a = -size - 2; a <= size + 2; ++a)
        for (int b = -size - 2; b <= size + 2; ++b)
            all(v, a, b, which);
}
PROP(bounds, .quick = 1500000)
{
    std::vector<int> v;
    const std::size_t n = c.length(70);
    for (std::size_t i = 0; i < n; ++i) v.push_back(static_cast<int>(c.draw(100)));
    const unsigned which = static_cast<unsigned>(c.draw(18));
    const long long a = bound(c, n), b = bound(c, n);
    NOTE(show(v) << "[" << a << ":" << b << "] kind " << which);
    const auto i = indices(a, b, n);
    c.nontrivial(i.second > i.first && i.second - i.first < n);
    if (a < 0 || b < 0) c.label("negative bound");
    if (i.first == i.second) c.label("empty result");
    all(v, a, b, which);
}
// large containers
PROP(large_containers, .quick = 4000)
{
    const std::size_t n = c.large(100000);
    std::vector<int> v(n);
    for (std::size_t i = 0; i < n; ++i) v[i] = static_cast<int>(i * 7919 % 100);
    static const unsigned kinds[] = { 0, 1, 2, 3, 4, 5, 9, 11, 16 };
    const unsigned which = c.pick(kinds);
    const auto end = [&]() -> long long { const long long d = static_cast<long long>(c.large(n + 3)); switch (c.draw(4)) { case 0: return d; case 1: return -d; case 2: return static_cast<long long>(n) - d; default: return d - static_cast<long long>(n); } };
    const long long a = c.flag(0.1) ? bound(c, n) : end(), b = c.flag(0.1) ? bound(c, n) : end();
    NOTE(n << " elements[" << a << ":" << b << "] kind " << which);
    const auto i = indices(a, b, n);
    c.nontrivial(i.second - i.first > 50 && i.second - i.first < n);
    if (i.second - i.first > 65536) c.label("result of more than 65536 elements");
    all(v, a, b, which);
}
int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P12", "cases: container (18 kinds) with contents, start and stop; non-trivial: result neither empty nor everything");
}
