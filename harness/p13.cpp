// P13: aggregates.
#include "pbt.hpp"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <pluto/container.hpp>
#include <pluto/value.hpp>
using pbt::show;

struct Item
{
    int key{ 0 }, id{ 0 };
    bool operator<(const Item& o) const { return key < o.key; }
    bool operator>(const Item& o) const { return key > o.key; }
    bool operator<=(const Item& o) const { return key <= o.key; }
    bool operator>=(const Item& o) const { return key >= o.key; }
    bool operator==(int k) const { return key == k; }
    bool operator!=(int k) const { return key != k; }
    explicit operator bool() const { return key != 0; }
    bool operator!() const { return key == 0; }
};
enum Test { ZERO, NEG, ODD, NEVER, ALWAYS, TESTS };
bool holds(int t, int k)
{
    switch (t)
    {
    case ZERO: return k == 0;
    case NEG: return k < 0;
    case ODD: return k & 1;
    case NEVER: return false;
    default: return true;
    }
}
enum Order { LESS, GREATER, MAGNITUDE, EQUAL, ORDERS };
bool before(int order, int a, int b)
{
    switch (order)
    {
    case LESS: return a < b;
    case GREATER: return a > b;
    case MAGNITUDE: return std::abs(a) < std::abs(b);
    default: return false;
    }
}
// where the first minimum / maximum is: no element precedes it, and every element before it is preceded by it
std::size_t extreme(const std::vector<int>& v, int order, bool maximum)
{
    for (std::size_t i = 0; i < v.size(); ++i)
    {
        bool ok = true;
        for (std::size_t j = 0; j < v.size(); ++j)
        {
            const bool better = maximum ? before(order, v[i], v[j]) : before(order, v[j], v[i]);
            if (better) ok = false;
        }
        if (ok) return i;
    }
    return v.size();
}
template<class C> void check(const C& k, const std::vector<int>& v, int test, int order, int value, const std::string& what)
{
    bool any = false, all = true, anyT = false, allT = true;
    std::size_t count = 0, countIf = 0;
    for (int x : v)
    {
        any = any || x != 0; all = all && x != 0;
        anyT = anyT || holds(test, x); allT = allT && holds(test, x);
        count += x == value; countIf += holds(test, x);
    }
    const auto pred = [test](const Item& i) { return holds(test, i.key); };
    CHECK_EQ("any", pluto::any(k), any, "any" << what);
    CHECK_EQ("all", pluto::all(k), all, "all" << what);
    CHECK_EQ("any", pluto::any(k, pluto::is_false{}), !all, "any with is_false" << what);
    CHECK_EQ("all", pluto::all(k, pluto::is_false{}), !any, "all with is_false" << what);
    CHECK_EQ("any", pluto::any(k, pred), anyT, "any with predicate" << what);
    CHECK_EQ("all", pluto::all(k, pred), allT, "all with predicate" << what);
    CHECK_EQ("count", pluto::count(k, value), count, "count" << what);
    CHECK_EQ("count_if", pluto::count_if(k, pred), countIf, "count_if" << what);
    if (v.empty()) return;
    const auto at = [&](std::size_t n) { auto it = std::begin(k); std::advance(it, n); return &*it; };
    const auto less = [order](const Item& a, const Item& b) { return before(order, a.key, b.key); };
    const auto& mn = pluto::min(k); const auto& mx = pluto::max(k);
    CHECK("min", &mn == at(extreme(v, LESS, false)), "min" << what << " is not the first smallest element itself");
    CHECK("max", &mx == at(extreme(v, LESS, true)), "max" << what << " is not the first largest element itself");
    const auto& pmn = pluto::min(k, less); const auto& pmx = pluto::max(k, less);
    CHECK("min", &pmn == at(extreme(v, order, false)), "min by order " << order << what << " is not the first smallest element itself");
    CHECK("max", &pmx == at(extreme(v, order, true)), "max by order " << order << what << " is not the first largest element itself");
}
PROP(aggregates, .quick = 300000)
{
    std::vector<int> v;
    const std::size_t n = c.length(30);
    const int spread = 1 + static_cast<int>(c.draw(6));
    for (std::size_t i = 0; i < n; ++i) v.push_back(static_cast<int>(c.around(-spread, spread)));
    const int test = static_cast<int>(c.draw(TESTS)), order = static_cast<int>(c.draw(ORDERS)), value = static_cast<int>(c.around(-3, 3));
    NOTE(show(v) << " test " << test << " order " << order << " value " << value);
    c.nontrivial(n > 1);
    if (n == 0) c.label("empty");
    std::vector<Item> items;
    for (std::size_t i = 0; i < n; ++i) { Item it; it.key = v[i]; it.id = static_cast<int>(i); items.push_back(it); }
    check(items, v, test, order, value, "(vector)");
    const std::deque<Item> dq(items.begin(), items.end());
    const std::list<Item> ls(items.begin(), items.end());
    const std::forward_list<Item> fl(items.begin(), items.end());
    const std::multiset<Item> ms(items.begin(), items.end());
    check(dq, v, test, order, value, "(deque)");
    check(ls, v, test, order, value, "(list)");
    check(fl, v, test, order, value, "(forward_list)");
    std::vector<int> sorted;
    for (auto& i : ms) sorted.push_back(i.key);
    check(ms, sorted, test, order, value, "(multiset)");
    std::array<Item, 6> a{};
    Item raw[6];
    std::vector<int> six;
    for (std::size_t i = 0; i < 6; ++i) { if (i < n) a[i] = items[i]; raw[i] = a[i]; six.push_back(a[i].key); }
    check(a, six, test, order, value, "(array)");
    check(raw, six, test, order, value, "(C array)");
    CHECK_EQ("len", pluto::len(items), n, "len(vector)");
    CHECK_EQ("len", pluto::len(dq), n, "len(deque)");
    CHECK_EQ("len", pluto::len(ls), n, "len(list)");
    CHECK_EQ("len", pluto::len(ms), n, "len(multiset)");
    CHECK_EQ("len", pluto::len(a), std::size_t{ 6 }, "len(array)");
    CHECK_EQ("len", pluto::len(raw), std::size_t{ 6 }, "len(C array)");
    const std::string text(n, 'x');
    CHECK_EQ("len", pluto::len(text), n, "len(string)");
    const std::set<int> st(v.begin(), v.end());
    CHECK_EQ("len", pluto::len(st), st.size(), "len(set)");
    {   // elements of other kinds
        std::vector<bool> bits;
        std::vector<std::string> words;
        std::vector<const int*> ptrs;
        std::size_t ones = 0, nulls = 0, same = 0;
        const std::string w = std::string(static_cast<std::size_t>(value + 3), 'w');
        for (int& x : v) { bits.push_back(x & 1); ones += x & 1; ptrs.push_back(x == value ? nullptr : &x); nulls += x == value; words.push_back(std::string(static_cast<std::size_t>(x + 8), 'w')); same += words.back() == w; }
        CHECK_EQ("any", pluto::any(bits), ones != 0, "any(vector<bool>)");
        CHECK_EQ("all", pluto::all(bits), ones == n, "all(vector<bool>)");
        CHECK_EQ("count", pluto::count(bits, true), ones, "count(vector<bool>)");
        CHECK_EQ("any", pluto::any(ptrs), nulls != n, "any(vector of pointers)");
        CHECK_EQ("all", pluto::all(ptrs), nulls == 0, "all(vector of pointers)");
        CHECK_EQ("count", pluto::count(ptrs, nullptr), nulls, "count(vector of pointers)");
        CHECK_EQ("count", pluto::count(words, w), same, "count(vector<string>)");
        CHECK_EQ("count", pluto::count(words, w.c_str()), same, "count(vector<string>, text)");
        if (n) { CHECK("min", &pluto::min(words) == &words[extreme(v, LESS, false)], "min(vector<string>)"); CHECK("max", &pluto::max(words) == &words[extreme(v, LESS, true)], "max(vector<string>)"); }
        std::vector<std::unique_ptr<int>> up;
        for (int x : v) up.push_back(std::unique_ptr<int>(x == value ? nullptr : new int(x)));
        CHECK_EQ("any", pluto::any(up), nulls != n, "any(vector<unique_ptr>)");
        CHECK_EQ("all", pluto::all(up), nulls == 0, "all(vector<unique_ptr>)");
        std::vector<double> d(v.begin(), v.end());
        for (double& x : d) x /= 4;    // 0.25 is true
        bool anyD = false, allD = true;
        for (double x : d) { anyD = anyD || x != 0; allD = allD && x != 0; }
        CHECK_EQ("any", pluto::any(d), anyD, "any(vector<double>)");
        CHECK_EQ("all", pluto::all(d), allD, "all(vector<double>)");
        std::vector<long long> big;
        for (int x : v) big.push_back(static_cast<long long>(x) << 32);    // truth must not be taken from the low half
        bool anyB = false, allB = true;
        for (long long x : big) { anyB = anyB || x != 0; allB = allB && x != 0; }
        CHECK_EQ("any", pluto::any(big), anyB, "any(vector<long long>)");
        CHECK_EQ("all", pluto::all(big), allB, "all(vector<long long>)");
        std::map<int, int> m;
        for (std::size_t i = 0; i < n; ++i) m[v[i]] = static_cast<int>(i);
        std::size_t odd = 0;
        for (auto& p : m) odd += p.second & 1;
        CHECK_EQ("count_if", pluto::count_if(m, [](const std::pair<const int, int>& p) { return (p.second & 1) != 0; }), odd, "count_if(map)");
        CHECK_EQ("len", pluto::len(m), m.size(), "len(map)");
    }
}
PROP(sums, .quick = 300000)
{
    std::vector<std::int64_t> v;
    const std::size_t n = c.length(40);
    for (std::size_t i = 0; i < n; ++i) v.push_back(static_cast<std::int64_t>(c.bits()) >> 10);
    NOTE(show(v));
    c.nontrivial(n > 1);
    unsigned __int128 total = 0;
    for (auto x : v) total += static_cast<unsigned __int128>(static_cast<__int128>(x));
    const auto start = static_cast<std::int64_t>(c.bits()) >> 10;
    CHECK_EQ("sum", pluto::sum(v), static_cast<std::int64_t>(total), "sum(vector<int64>)");
    CHECK_EQ("sum", pluto::sum(v, start), static_cast<std::int64_t>(total + static_cast<unsigned __int128>(static_cast<__int128>(start))), "sum(vector<int64>, start)");
    CHECK("sum", pluto::sum(v, __int128{ start }) == static_cast<__int128>(total) + start, "sum into a wider type");
    std::list<std::uint32_t> u;
    std::uint32_t mod = 0;
    std::uint64_t wide = 0;
    for (auto x : v) { u.push_back(static_cast<std::uint32_t>(x)); mod += u.back(); wide += u.back(); }
    CHECK_EQ("sum", pluto::sum(u), mod, "sum(list<uint32>)");
    CHECK_EQ("sum", pluto::sum(u, std::uint64_t{ 0 }), wide, "sum(list<uint32>, 64 bit start)");
    // concatenation shows the order
    std::deque<std::string> words;
    std::string joined;
    for (auto x : v) { words.push_back(std::to_string(x)); joined += words.back(); }
    CHECK_EQ("sum", pluto::sum(words), joined, "sum(deque<string>)");
    CHECK_EQ("sum", pluto::sum(words, std::string("start:")), "start:" + joined, "sum(deque<string>, start)");
    std::vector<double> d;
    double ds = 0.5;
    for (auto x : v) { d.push_back(static_cast<double>(x) / 3); ds += d.back(); }
    CHECK_EQ("sum", pluto::sum(d, 0.5), ds, "sum(vector<double>)");
    std::array<int, 4> a{ { 1, 2, 3, static_cast<int>(n) } };
    CHECK_EQ("sum", pluto::sum(a), 6 + static_cast<int>(n), "sum(array)");
}
PROP(large_containers, .quick = 4000)
{
    const std::size_t n = c.large(140000);
    const int value = static_cast<int>(c.draw(3));
    const std::uint64_t mode = c.draw(4);
    const std::size_t odd = n ? c.large(n - 1) : 0;
    std::vector<Item> v(n);
    for (std::size_t i = 0; i < n; ++i) { v[i].id = static_cast<int>(i); v[i].key = mode == 0 ? 1 : mode == 1 ? 0 : mode == 2 ? static_cast<int>(i % 3) : 2; }
    if (n && mode != 2) v[odd].key = mode == 0 ? 0 : mode == 1 ? 1 : static_cast<int>(c.draw(4));
    NOTE(n << " elements, mode " << mode << ", different at " << odd << ", value " << value);
    c.nontrivial(n > 100);
    if (n > 65536) c.label("more than 65536 elements");
    bool any = false, all = true;
    std::size_t count = 0, mn = 0, mx = 0;
    std::int64_t total = 0;
    for (std::size_t i = 0; i < n; ++i)
    {
        any |= v[i].key != 0; all &= v[i].key != 0; count += v[i].key == value; total += v[i].key;
        if (v[i].key < v[mn].key) mn = i;
        if (v[i].key > v[mx].key) mx = i;
    }
    const auto check2 = [&](const auto& k)
    {
        CHECK_EQ("any", pluto::any(k), any, "any of " << n << " elements");
        CHECK_EQ("all", pluto::all(k), all, "all of " << n << " elements");
        CHECK("count", static_cast<std::uint64_t>(pluto::count(k, value)) == count, "count of " << n << " elements: " << pluto::count(k, value) << ", expected " << count);
        CHECK("count_if", static_cast<std::uint64_t>(pluto::count_if(k, [&](const Item& i) { return i.key == value; })) == count, "count_if of " << n << " elements");
        CHECK("len", static_cast<std::uint64_t>(pluto::len(k)) == n, "len of " << n << " elements");
        if (n)
        {
            CHECK_EQ("min", pluto::min(k).id, static_cast<int>(mn), "min of " << n << " elements: position");
            CHECK_EQ("max", pluto::max(k).id, static_cast<int>(mx), "max of " << n << " elements: position");
        }
    };
    static const char one[1] = {}, page[4096] = {}, huge[70000] = {};
    CHECK("len", pluto::len(one) == 1 && pluto::len(page) == 4096 && pluto::len(huge) == 70000, "len of arrays of 1, 4096 and 70000 characters");
    check2(v);
    check2(std::list<Item>(v.begin(), v.end()));
    std::vector<std::int64_t> nums;
    std::vector<char> small;
    for (auto& i : v) { nums.push_back(static_cast<std::int64_t>(i.key) << 20); small.push_back(static_cast<char>(i.key)); }
    CHECK_EQ("sum", pluto::sum(nums), total << 20, "sum of " << n << " numbers");
    CHECK_EQ("sum", pluto::sum(small, 0), static_cast<int>(total), "sum of " << n << " characters into an int");
    CHECK("count", static_cast<std::uint64_t>(pluto::count(small, static_cast<char>(value))) == count, "count of " << n << " characters");
}
int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P13", "cases: element sequences with duplicates, test, order and value, over 7 kinds of container; non-trivial: at least two elements");
}
