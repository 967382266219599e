// P11: sort, reverse, filter, for_each and map against naive models.
#include "pbt.hpp"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <vector>
#include <pluto/container.hpp>
#include <pluto/compare.hpp>
using pbt::show;

struct Item
{
    int key{ 0 }, id{ -1 };
    bool operator==(const Item& o) const { return key == o.key && id == o.id; }
    bool operator<(const Item& o) const { return key < o.key; }
    bool operator>(const Item& o) const { return key > o.key; }
};
std::string show(const Item& i) { return std::to_string(i.key) + "#" + std::to_string(i.id); }
typedef std::vector<Item> Items;
typedef std::unique_ptr<Item> Ptr;

Items gen(pbt::Case& c, std::size_t max = 40)
{
    Items v;
    const std::size_t n = c.length(max);
    const std::uint64_t symbols = 1 + c.draw(12);
    for (std::size_t i = 0; i < n; ++i) v.push_back(Item{ static_cast<int>(c.draw(symbols)) - 3, static_cast<int>(i) });
    return v;
}
std::vector<int> keys(const Items& v) { std::vector<int> r; for (auto& i : v) r.push_back(i.key); return r; }
template<class C> Items items(const C& k) { Items r; for (auto& i : k) r.push_back(i); return r; }

// ---------------------------------------------------------------- sort
enum Order { LESS, GREATER, BY_MAGNITUDE, ALL_EQUAL, EVEN_FIRST, ORDERS };
bool before(int order, int a, int b)
{
    switch (order)
    {
    case LESS: return a < b;
    case GREATER: return a > b;
    case BY_MAGNITUDE: return std::abs(a) < std::abs(b);
    case ALL_EQUAL: return false;
    default: return (a & 1) == 0 && (b & 1) != 0;
    }
}
void check_sorted(const Items& was, const Items& now, int order, std::size_t from, std::size_t to, const std::string& what)
{
    CHECK_EQ("sort size", now.size(), was.size(), what);
    std::vector<bool> seen(was.size());
    for (std::size_t i = 0; i < now.size(); ++i)
    {
        if (i < from || i >= to) CHECK_EQ("sort outside", now[i], was[i], what << ": element " << i << " outside the sorted range");
        const int id = now[i].id;
        CHECK("sort permutation", id >= 0 && id < static_cast<int>(was.size()) && !seen[static_cast<std::size_t>(id)] && was[static_cast<std::size_t>(id)] == now[i], what << ": not a permutation, element " << i << " is " << show(now[i]) << " in " << show(now));
        seen[static_cast<std::size_t>(id)] = true;
    }
    for (std::size_t i = from; i + 1 < to; ++i)
        for (std::size_t j = i + 1; j < to && j < i + 3; ++j)
            CHECK("sort order", !before(order, now[j].key, now[i].key), what << ": not in order: " << show(now));
}
template<class C> void sort_container(C k, const Items& was, int order, const std::string& what)
{
    int calls = 0;
    const auto pred = [order, &calls](const Item& a, const Item& b) { ++calls; return before(order, a.key, b.key); };
    {
        C k2 = k;
        if (order == LESS) { auto& r = pluto::sort(k2); CHECK("sort returns", &r == &k2, what); }
        else if (order == GREATER) { auto& r = pluto::sort(k2, pluto::is_greater{}); CHECK("sort returns", &r == &k2, what); }
        else { auto& r = pluto::sort(k2, pred); CHECK("sort returns", &r == &k2, what); }
        check_sorted(was, items(k2), order, 0, was.size(), what);
    }
    auto& r = pluto::sort(k, pred);
    CHECK("sort returns", &r == &k, what);
    check_sorted(was, items(k), order, 0, was.size(), what);
}
PROP(sorting, .quick = 150000)
{
    const Items v = gen(c, 60);
    const int order = static_cast<int>(c.draw(ORDERS));
    NOTE(show(v) << " order " << order);
    bool unsorted = false;
    for (std::size_t i = 0; i + 1 < v.size(); ++i) unsorted = unsorted || before(order, v[i + 1].key, v[i].key);
    c.nontrivial(unsorted);
    if (v.size() > 16) c.label("more than 16 elements");
    sort_container(v, v, order, "sort(vector)");
    sort_container(std::deque<Item>(v.begin(), v.end()), v, order, "sort(deque)");
    {
        std::array<Item, 20> a{};
        Items was;
        for (std::size_t i = 0; i < a.size(); ++i) { a[i] = Item{ i < v.size() ? v[i].key : static_cast<int>(i % 3), static_cast<int>(i) }; was.push_back(a[i]); }
        sort_container(a, was, order, "sort(array)");
        Item raw[20];
        std::copy(was.begin(), was.end(), raw);
        auto& r = pluto::sort(raw, [order](const Item& x, const Item& y) { return before(order, x.key, y.key); });
        CHECK("sort returns", &r == &raw, "sort(C array)");
        check_sorted(was, items(raw), order, 0, 20, "sort(C array)");
    }
    {
        std::vector<Ptr> p;
        for (auto& i : v) p.push_back(Ptr(new Item(i)));
        pluto::sort(p, [order](const Ptr& x, const Ptr& y) { return before(order, x->key, y->key); });
        Items now;
        for (auto& i : p) { CHECK("sort move-only", !!i, "sort lost a move-only element"); now.push_back(*i); }
        check_sorted(v, now, order, 0, v.size(), "sort(vector of unique_ptr)");
    }
    // part of a container
    Items part = v;
    const std::size_t from = c.draw(v.size() + 1), to = from + c.draw(v.size() - from + 1);
    NOTE(" part " << from << ".." << to);
    const auto b = part.begin() + static_cast<long>(from), e = part.begin() + static_cast<long>(to);
    if (order == LESS && c.flag(0.5)) pluto::sort(b, e);
    else pluto::sort(b, e, [order](const Item& x, const Item& y) { return before(order, x.key, y.key); });
    check_sorted(v, part, order, from, to, "sort(iterators)");
    // case insensitive order
    std::string s;
    for (auto& i : v) s += "AbBaCc-zZ_yY"[(i.key + 12) % 12];
    std::string t = s;
    auto& sr = pluto::sort(t, pluto::is_iless<char>{ std::locale::classic() });
    CHECK("sort returns", &sr == &t, "sort(string)");
    CHECK("sort permutation", std::multiset<char>(s.begin(), s.end()) == std::multiset<char>(t.begin(), t.end()), "sort(string)");
    for (std::size_t i = 0; i + 1 < t.size(); ++i) CHECK("sort order", std::toupper(t[i]) <= std::toupper(t[i + 1]), "case insensitive sort: " << show(t));
}

// ---------------------------------------------------------------- reverse
template<class C> void reverse_container(C k, const std::string& what)
{
    std::vector<typename C::value_type> expected(k.begin(), k.end());
    for (std::size_t i = 0, j = expected.size(); i + 1 < j; ++i) { const typename C::value_type t = expected[i]; expected[i] = expected[--j]; expected[j] = t; }
    auto& r = pluto::reverse(k);
    CHECK("reverse returns", &r == &k, what);
    CHECK("reverse", (std::vector<typename C::value_type>(k.begin(), k.end()) == expected), what);
}
PROP(reversing, .quick = 150000)
{
    const Items v = gen(c);
    NOTE(show(v));
    c.nontrivial(v.size() > 1);
    reverse_container(v, "reverse(vector)");
    reverse_container(std::deque<Item>(v.begin(), v.end()), "reverse(deque)");
    reverse_container(std::list<Item>(v.begin(), v.end()), "reverse(list)");
    const std::vector<int> ks = keys(v);
    std::string s;
    std::vector<bool> bits;
    for (int k : ks) { s += static_cast<char>('a' + k + 3); bits.push_back(k & 1); }
    reverse_container(s, "reverse(string)");
    reverse_container(bits, "reverse(vector<bool>)");
    {
        std::array<int, 7> a{};
        for (std::size_t i = 0; i < 7; ++i) a[i] = i < ks.size() ? ks[i] : 100 + static_cast<int>(i);
        reverse_container(a, "reverse(array)");
        int raw[7], raw2[7];
        for (std::size_t i = 0; i < 7; ++i) raw[i] = raw2[i] = a[i];
        auto& r = pluto::reverse(raw);
        CHECK("reverse returns", &r == &raw, "reverse(C array)");
        for (std::size_t i = 0; i < 7; ++i) CHECK("reverse", raw[i] == raw2[6 - i], "reverse(C array)");
    }
    std::list<Ptr> p;
    for (auto& i : v) p.push_back(Ptr(new Item(i)));
    pluto::reverse(p);
    std::size_t n = v.size();
    for (auto& i : p) CHECK("reverse", i && *i == v[--n], "reverse(list of unique_ptr)");
    Items part = v;
    const std::size_t from = c.draw(v.size() + 1), to = from + c.draw(v.size() - from + 1);
    pluto::reverse(part.begin() + static_cast<long>(from), part.begin() + static_cast<long>(to));
    for (std::size_t i = 0; i < v.size(); ++i) CHECK_EQ("reverse", part[i], v[i < from || i >= to ? i : from + to - 1 - i], "reverse(iterators) element " << i);
}

// ---------------------------------------------------------------- filter
enum Keep { EVEN, POSITIVE, NONE, EVERYTHING, ODD_ID, ONE_ID, KEEPS };
struct Keeper
{
    int keep, id;
    bool operator()(const Item& i) const
    {
        switch (keep)
        {
        case EVEN: return (i.key & 1) == 0;
        case POSITIVE: return i.key > 0;
        case NONE: return false;
        case EVERYTHING: return true;
        case ODD_ID: return i.id & 1;
        default: return i.id != id;
        }
    }
};
template<class C> void filter_container(C k, const Items& expected, Keeper keeper, const std::string& what)
{
    auto& r = pluto::filter(k, keeper);
    CHECK("filter returns", &r == &k, what);
    CHECK_EQ("filter", items(k), expected, what);
}
PROP(filtering, .quick = 150000)
{
    const Items v = gen(c);
    const Keeper keeper{ static_cast<int>(c.draw(KEEPS)), static_cast<int>(c.draw(v.size() + 1)) };
    NOTE(show(v) << " keep " << keeper.keep << "/" << keeper.id);
    Items expected;
    for (auto& i : v) if (keeper(i)) expected.push_back(i);
    c.nontrivial(!expected.empty() && expected.size() < v.size());
    filter_container(v, expected, keeper, "filter(vector)");
    filter_container(std::deque<Item>(v.begin(), v.end()), expected, keeper, "filter(deque)");
    filter_container(std::list<Item>(v.begin(), v.end()), expected, keeper, "filter(list)");
    std::vector<Ptr> p;
    for (auto& i : v) p.push_back(Ptr(new Item(i)));
    pluto::filter(p, [&](const Ptr& i) { return keeper(*i); });
    Items now;
    for (auto& i : p) { CHECK("filter", !!i, "filter(vector of unique_ptr) left a null"); now.push_back(*i); }
    CHECK_EQ("filter", now, expected, "filter(vector of unique_ptr)");
    {
        std::string s, e;
        std::vector<bool> b, be;
        for (auto& i : v) { s += static_cast<char>('a' + i.key + 3); b.push_back(i.key & 1); }
        const char skip = static_cast<char>('a' + (keeper.keep + keeper.id) % 8);
        for (char x : s) if (x != skip) e += x;
        pluto::filter(s, [skip](char x) { return x != skip; });
        CHECK_EQ("filter", s, e, "filter(string)");
        const bool want = keeper.id & 1;
        for (bool x : b) if (x == want) be.push_back(x);
        pluto::filter(b, [want](bool x) { return x == want; });
        CHECK("filter", b == be, "filter(vector<bool>)");
    }
    // part of a container: the front of the part is the result, everything outside is untouched
    Items part = v;
    const std::size_t from = c.draw(v.size() + 1), to = from + c.draw(v.size() - from + 1);
    NOTE(" part " << from << ".." << to);
    Items pe;
    for (std::size_t i = from; i < to; ++i) if (keeper(v[i])) pe.push_back(v[i]);
    const auto b = part.begin() + static_cast<long>(from), e = part.begin() + static_cast<long>(to);
    const auto end = pluto::filter(b, e, keeper);
    CHECK_EQ("filter", Items(b, end), pe, "filter(iterators)");
    for (std::size_t i = 0; i < v.size(); ++i) if (i < from || i >= to) CHECK_EQ("filter outside", part[i], v[i], "filter(iterators) element " << i);
    std::forward_list<Item> f(v.begin(), v.end());
    const auto fend = pluto::filter(f.begin(), f.end(), keeper);
    CHECK_EQ("filter", Items(f.begin(), fend), expected, "filter(forward_list iterators)");
}

// ---------------------------------------------------------------- for_each
template<class C> void for_each_container(C k, const std::string& what)
{
    const Items was = items(k);
    Items seen;
    {
        const C& ck = k;
        auto& r = pluto::for_each(ck, [&seen](const Item& i) { seen.push_back(i); });
        CHECK("for_each returns", &r == &ck, what);
        CHECK_EQ("for_each", seen, was, what << " over a const container");
    }
    seen.clear();
    auto& r = pluto::for_each(k, [&seen](Item& i) { seen.push_back(i); i.key = i.key * 2 + 1; });
    CHECK("for_each returns", &r == &k, what);
    CHECK_EQ("for_each", seen, was, what);
    std::size_t n = 0;
    for (auto& i : k) { CHECK("for_each modifies", i.key == was[n].key * 2 + 1 && i.id == was[n].id, what << ": element " << n << " is " << show(i)); ++n; }
}
struct Summer
{
    unsigned sum{ 0 }; int calls{ 0 };
    void operator()(const Item& i) { sum = sum * 3u + static_cast<unsigned>(i.key); ++calls; }
};
PROP(for_each, .quick = 150000)
{
    const Items v = gen(c);
    NOTE(show(v));
    c.nontrivial(v.size() > 1);
    for_each_container(v, "for_each(vector)");
    for_each_container(std::deque<Item>(v.begin(), v.end()), "for_each(deque)");
    for_each_container(std::list<Item>(v.begin(), v.end()), "for_each(list)");
    for_each_container(std::forward_list<Item>(v.begin(), v.end()), "for_each(forward_list)");
    {
        std::array<Item, 5> a{};
        for (std::size_t i = 0; i < 5 && i < v.size(); ++i) a[i] = v[i];
        for_each_container(a, "for_each(array)");
        Item raw[5];
        std::copy(a.begin(), a.end(), raw);
        Items seen;
        pluto::for_each(raw, [&seen](Item& i) { seen.push_back(i); });
        CHECK_EQ("for_each", seen, items(raw), "for_each(C array)");
    }
    {
        std::map<int, Item> m;
        for (auto& i : v) m[i.key] = i;
        std::vector<int> seen, expected;
        for (auto& i : m) expected.push_back(i.first);
        pluto::for_each(m, [&seen](std::pair<const int, Item>& i) { seen.push_back(i.first); i.second.id = -7; });
        CHECK_EQ("for_each", seen, expected, "for_each(map)");
        for (auto& i : m) CHECK("for_each modifies", i.second.id == -7, "for_each(map)");
    }
    const std::size_t from = c.draw(v.size() + 1), to = from + c.draw(v.size() - from + 1);
    const auto f = pluto::for_each(v.begin() + static_cast<long>(from), v.begin() + static_cast<long>(to), Summer{});
    int sum = 0;
    for (std::size_t i = from; i < to; ++i) sum = static_cast<int>(static_cast<unsigned>(sum) * 3u + static_cast<unsigned>(v[i].key));
    CHECK_EQ("for_each function", f.calls, static_cast<int>(to - from), "calls counted by the returned function of for_each(iterators)");
    CHECK_EQ("for_each function", f.sum, static_cast<unsigned>(sum), "state of the returned function of for_each(iterators)");
}

// ---------------------------------------------------------------- map
template<class Dest, class Source> void map_append(const Source& s, Dest d, const std::string& what)
{
    Items was(s.begin(), s.end()), seen;
    std::vector<int> expected(d.begin(), d.end());
    for (auto& i : was) expected.push_back(i.key * 100 + i.id);
    auto& r = pluto::map(s, d, [&seen](const Item& i) { seen.push_back(i); return i.key * 100 + i.id; });
    CHECK("map returns", &r == &d, what);
    CHECK_EQ("map calls", seen, was, what);
    CHECK_EQ("map", std::vector<int>(d.begin(), d.end()), expected, what);
    CHECK_EQ("map source", Items(s.begin(), s.end()), was, what << " changed its source");
    seen.clear();
    const Dest fresh = pluto::map<Dest>(s, [&seen](const Item& i) { seen.push_back(i); return i.key * 100 + i.id; });
    expected.erase(expected.begin(), expected.end() - static_cast<long>(was.size()));
    CHECK_EQ("map calls", seen, was, what);
    CHECK_EQ("map", std::vector<int>(fresh.begin(), fresh.end()), expected, what << " into a new container");
}
template<template<class...> class C> void map_same(const Items& v, const std::string& what)
{
    const C<Item> s(v.begin(), v.end());
    Items seen;
    const C<std::string> r = pluto::map(s, [&seen](const Item& i) { seen.push_back(i); return std::to_string(i.key); });
    std::vector<std::string> expected;
    for (auto& i : v) expected.push_back(std::to_string(i.key));
    CHECK_EQ("map calls", seen, v, what);
    CHECK("map", (std::vector<std::string>(r.begin(), r.end()) == expected), what << " to the same kind of container");
}
PROP(mapping, .quick = 100000)
{
    const Items v = gen(c);
    const Items prior = gen(c, 10);
    NOTE(show(v) << " appended to " << show(prior));
    c.nontrivial(v.size() > 1 && !prior.empty());
    const std::vector<int> pk = keys(prior);
    const std::deque<Item> dq(v.begin(), v.end());
    const std::list<Item> ls(v.begin(), v.end());
    const std::forward_list<Item> fl(v.begin(), v.end());
    switch (c.draw(4))
    {
    case 0: map_append(v, pk, "map(vector, vector)"); break;
    case 1: map_append(v, std::deque<int>(pk.begin(), pk.end()), "map(vector, deque)"); break;
    case 2: map_append(v, std::list<int>(pk.begin(), pk.end()), "map(vector, list)"); break;
    default: map_append(ls, pk, "map(list, vector)"); break;
    }
    switch (c.draw(3))
    {
    case 0: map_append(dq, std::list<int>(pk.begin(), pk.end()), "map(deque, list)"); break;
    case 1: map_append(fl, pk, "map(forward_list, vector)"); break;
    default: map_append(fl, std::deque<int>(pk.begin(), pk.end()), "map(forward_list, deque)"); break;
    }
    map_same<std::vector>(v, "map(vector)");
    map_same<std::deque>(v, "map(deque)");
    map_same<std::list>(v, "map(list)");
    {   // associative destinations and sources
        std::multiset<int> ms(pk.begin(), pk.end()), mse = ms;
        std::set<int> st(pk.begin(), pk.end()), ste = st;
        for (auto& i : v) { mse.insert(i.key); ste.insert(i.key); }
        auto& r1 = pluto::map(v, ms, [](const Item& i) { return i.key; });
        auto& r2 = pluto::map(v, st, [](const Item& i) { return i.key; });
        CHECK("map returns", &r1 == &ms && &r2 == &st, "map into sets");
        CHECK_EQ("map", ms, mse, "map into a multiset");
        CHECK_EQ("map", st, ste, "map into a set");
        const std::set<int> s2 = pluto::map(st, [](int x) { return -x / 2; });
        std::set<int> s2e;
        for (int x : st) s2e.insert(-x / 2);
        CHECK_EQ("map", s2, s2e, "map(set)");
        const auto m = pluto::map<std::map<int, int>>(v, [](const Item& i) { return std::make_pair(i.key, i.id); });
        std::map<int, int> me;
        for (auto& i : v) me.insert(std::make_pair(i.key, i.id));
        CHECK_EQ("map", m, me, "map into a map");
        const auto back = pluto::map<std::vector<int>>(m, [](const std::pair<const int, int>& p) { return p.second; });
        std::vector<int> backe;
        for (auto& p : me) backe.push_back(p.second);
        CHECK_EQ("map", back, backe, "map from a map");
    }
    {   // text, C arrays, bits
        std::string s;
        for (auto& i : v) s += static_cast<char>('a' + i.key + 3);
        std::string d = "start", de = d;
        for (char x : s) de += static_cast<char>(x - 32);
        pluto::map(s, d, [](char x) { return static_cast<char>(x - 32); });
        CHECK_EQ("map", d, de, "map(string, string)");
        int raw[4] = { 3, 1, 2, 1 };
        std::vector<int> out(pk), oute(pk);
        for (int x : raw) oute.push_back(x * x);
        pluto::map(raw, out, [](int x) { return x * x; });
        CHECK_EQ("map", out, oute, "map(C array, vector)");
        const auto bits = pluto::map<std::vector<bool>>(s, [](char x) { return (x & 1) != 0; });
        std::vector<bool> bitse;
        for (char x : s) bitse.push_back(x & 1);
        CHECK("map", bits == bitse, "map into vector<bool>");
    }
    {   // iterators: into an existing place, also in place, stateful function
        std::vector<int> place(v.size() + 4, -99);
        const std::size_t off = c.draw(5);
        int counter = 0;
        const auto end = pluto::map(v.begin(), v.end(), place.begin() + static_cast<long>(off), [&counter](const Item& i) { return i.key * 1000 + counter++; });
        CHECK("map iterator", end == place.begin() + static_cast<long>(off + v.size()), "map(iterators) returns the end of what it wrote");
        for (std::size_t i = 0; i < place.size(); ++i)
            CHECK_EQ("map", place[i], (i < off || i >= off + v.size() ? -99 : v[i - off].key * 1000 + static_cast<int>(i - off)), "map(iterators) place " << i);
        std::vector<int> self = keys(v), selfe = self;
        for (int& x : selfe) x = x * 7 + 1;
        pluto::map(self.begin(), self.end(), self.begin(), [](int x) { return x * 7 + 1; });
        CHECK_EQ("map", self, selfe, "map(iterators) in place");
        std::vector<Ptr> p;
        pluto::map(v, p, [](const Item& i) { return Ptr(new Item(i)); });
        CHECK("map", p.size() == v.size(), "map into a vector of unique_ptr");
        for (std::size_t i = 0; i < v.size(); ++i) CHECK("map", p[i] && *p[i] == v[i], "map into a vector of unique_ptr");
    }
}
// ---------------------------------------------------------------- the same on large containers
PROP(large_containers, .quick = 3000)
{
    const std::size_t n = c.large(100000);
    const int shape = static_cast<int>(c.draw(6)), keysN = 1 + static_cast<int>(c.large(70000)), order = static_cast<int>(c.draw(ORDERS));
    Items v;
    v.reserve(n);
    std::uint64_t x = c.draw(1000000);
    for (std::size_t i = 0; i < n; ++i)
    {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        const int r = static_cast<int>((x >> 33) % static_cast<unsigned>(keysN)), k = static_cast<int>(i);
        int key;
        switch (shape)
        {
        case 0: key = r; break;
        case 1: key = k; break;                             // ascending
        case 2: key = -k; break;                            // descending
        case 3: key = k % keysN; break;                     // saw tooth
        case 4: key = k < static_cast<int>(n / 2) ? k : static_cast<int>(n) - k; break;   // organ pipe
        default: key = (x >> 40) % 100 ? k : r; break;      // nearly sorted
        }
        v.push_back(Item{ key, k });
    }
    NOTE(n << " elements of shape " << shape << " with " << keysN << " keys, order " << order);
    c.nontrivial(n > 100);
    if (n > 65536) c.label("more than 65536 elements");
    const std::string what = " of " + std::to_string(n) + " elements of shape " + std::to_string(shape) + ", order " + std::to_string(order);
    const auto same = [&](const char* name, const Items& got, const Items& want)
    {
        std::size_t at = 0;
        while (at < got.size() && at < want.size() && got[at] == want[at]) ++at;
        CHECK(name, got.size() == want.size() && at == got.size(), name << what << ": " << got.size() << " elements, expected " << want.size() << ", first difference at " << at);
    };
    const auto sorted = [&](const Items& now, std::size_t from, std::size_t to)
    {
        CHECK_EQ("sort size", now.size(), n, "sort" << what);
        std::vector<bool> seen(n);
        for (std::size_t i = 0; i < n; ++i)
        {
            const std::size_t id = static_cast<std::size_t>(now[i].id);
            CHECK("sort permutation", id < n && !seen[id] && v[id] == now[i], "sort" << what << ": not a permutation at element " << i);
            seen[id] = true;
            if (i < from || i >= to) CHECK("sort outside", now[i] == v[i], "sort" << what << ": element " << i << " outside the sorted range");
            else if (i > from) CHECK("sort order", !before(order, now[i].key, now[i - 1].key), "sort" << what << ": elements " << i - 1 << " and " << i << " not in order");
        }
    };
    const auto less = [order](const Item& a, const Item& b) { return before(order, a.key, b.key); };
    const auto half = [&](const Item& i) { return before(order, 0, i.key) || (i.id & 3) == 0; };
    switch (c.draw(7))
    {
    case 0: { Items k = v; pluto::sort(k, less); sorted(k, 0, n); break; }
    case 1: { std::deque<Item> k(v.begin(), v.end()); pluto::sort(k, less); sorted(items(k), 0, n); break; }
    case 2: { Items k = v; const std::size_t from = c.large(n), to = from + c.large(n - from); pluto::sort(k.begin() + static_cast<long>(from), k.begin() + static_cast<long>(to), less); sorted(k, from, to); break; }
    case 3:
    {
        const Items want(v.rbegin(), v.rend());
        Items k = v; pluto::reverse(k); same("reverse", k, want);
        std::list<Item> l(v.begin(), v.end()); pluto::reverse(l); same("reverse", items(l), want);
        break;
    }
    case 4:
    {
        Items want;
        for (auto& i : v) if (half(i)) want.push_back(i);
        Items k = v; pluto::filter(k, half); same("filter", k, want);
        std::list<Item> l(v.begin(), v.end()); pluto::filter(l, half); same("filter", items(l), want);
        std::deque<Item> d(v.begin(), v.end()); pluto::filter(d, half); same("filter", items(d), want);
        break;
    }
    case 5:
    {
        Items seen;
        pluto::for_each(v, [&](const Item& i) { seen.push_back(i); });
        same("for_each", seen, v);
        Items k = v;
        for_each_container(std::deque<Item>(v.begin(), v.end()), "for_each(deque)");
        break;
    }
    default:
    {
        const std::size_t prior = c.large(1000);
        std::vector<int> d(prior, 7), want = d;
        for (auto& i : v) want.push_back(i.key + i.id);
        std::size_t calls = 0;
        pluto::map(v, d, [&](const Item& i) { ++calls; return i.key + i.id; });
        CHECK("map", d == want && calls == n, "map" << what << ": " << d.size() << " elements after " << prior << ", " << calls << " calls");
        const std::list<Item> l(v.begin(), v.end());
        const auto r = pluto::map<std::deque<int>>(l, [&](const Item& i) { return i.key + i.id; });
        CHECK("map", std::equal(r.begin(), r.end(), want.begin() + static_cast<long>(prior), want.end()), "map to a deque" << what);
    }
    }
}
int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P11", "cases: element sequences with duplicates and identities, an order, predicate or function, a sub-range and a destination; non-trivial: not yet sorted / at least two elements / some but not all elements kept / destination not empty");
}
