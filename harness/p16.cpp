// P16: histories of cache operations against the ideal LRU map.
#include "pbt.hpp"
#include "lru_model.hpp"
#include <any>
#include <memory>
#include <string>
#include <pluto/safe_lru_cache.hpp>
using pbt::show;

// keys that order by part of themselves and may be compared only with <
struct Key
{
    int id{ 0 };
    std::shared_ptr<int> payload{ std::make_shared<int>(0) };
    Key() = default;
    Key(int i) : id(i) {}
    bool operator<(const Key& o) const { return *payload + id < o.id + *o.payload; }
};
std::string show(const Key& k) { return std::to_string(k.id); }
// values without default construction from equal types, self checking
struct Value
{
    std::string text;
    std::vector<int> data;
    Value() = default;
    Value(int n) : text("value number " + std::to_string(n)), data(static_cast<std::size_t>(n % 7), n) {}
    bool operator==(const Value& o) const { return text == o.text && data == o.data; }
};
std::string show(const Value& v) { return v.text; }

template<class T> T make(int n) { return T(n); }
template<> std::string make<std::string>(int n) { return std::string(static_cast<std::size_t>(n % 40), 'k') + std::to_string(n); }

const char* const OPS[] = { "insert", "insert_or_assign", "get", "remove", "capacity", "contains", "clear" };

template<class Cache, class K, class V> struct Run
{
    Cache cache;
    LruModel<K, V> model;
    std::vector<K> universe;
    int evictions{ 0 };

    Run(std::size_t capacity, const std::vector<K>& keys) : cache(capacity), universe(keys) { model.capacity = capacity; }
    void state(const char* after)
    {
        const Cache& k = cache;
        CHECK_EQ("size", k.size(), model.items.size(), "size after " << after);
        CHECK("capacity bound", k.size() <= k.capacity(), "size exceeds capacity after " << after);
        CHECK_EQ("capacity", k.capacity(), model.capacity, "capacity after " << after);
        CHECK_EQ("empty", k.empty(), model.items.empty(), "empty after " << after);
        for (auto& u : universe) CHECK("contains", k.contains(u) == model.contains(u), "after " << after << " key " << show(u) << " is " << (model.contains(u) ? "missing" : "present"));
    }
    void apply(std::size_t op, const K& key, const V& value, std::size_t n)
    {
        const std::size_t before = model.items.size();
        const bool had = model.contains(key);
        switch (op)
        {
        case 0: CHECK_EQ("insert result", cache.insert(key, value), model.insert(key, value), "insert(" << show(key) << ")"); break;
        case 1: CHECK_EQ("insert_or_assign result", cache.insert_or_assign(key, value), model.insert_or_assign(key, value), "insert_or_assign(" << show(key) << ")"); break;
        case 2:
        {
            V got = value, expected = value;    // a failed get leaves it alone
            const bool a = cache.get(key, got), b = model.get(key, expected);
            CHECK_EQ("get result", a, b, "get(" << show(key) << ")");
            CHECK("get value", got == expected, "get(" << show(key) << ") gave " << show(got) << ", expected " << show(expected));
            break;
        }
        case 3: CHECK_EQ("remove result", cache.remove(key), model.remove(key), "remove(" << show(key) << ")"); break;
        case 4: cache.capacity(n); model.resize(n); break;
        case 5: CHECK_EQ("contains result", cache.contains(key), model.contains(key), "contains(" << show(key) << ")"); break;
        default: cache.clear(); model.items.clear(); break;
        }
        if (op < 2 && !had && model.items.size() == before && model.capacity) ++evictions;
        if (op == 4 && model.items.size() < before) ++evictions;
        state(OPS[op]);
    }
    // evict one by one: reveals the whole order; first check the values in an order of their own
    void drain(bool values)
    {
        if (values)
            for (auto& u : universe)
            {
                V got{}, expected{};
                const bool a = cache.get(u, got), b = model.get(u, expected);
                CHECK_EQ("get result", a, b, "get(" << show(u) << ") at the end");
                CHECK("get value", got == expected, "get(" << show(u) << ") at the end gave " << show(got) << ", expected " << show(expected));
            }
        while (!model.items.empty())
        {
            const K last = model.items.back().first;
            cache.capacity(model.items.size() - 1);
            model.resize(model.items.size() - 1);
            CHECK("eviction order", !cache.contains(last), "the oldest entry " << show(last) << " is not the one evicted");
            state("capacity - 1");
        }
    }
};

template<class Cache, class K, class V> void history(pbt::Case& c, const char* name)
{
    const std::size_t nkeys = 1 + c.draw(8);
    std::vector<K> universe;
    for (std::size_t i = 0; i < nkeys; ++i) universe.push_back(make<K>(static_cast<int>(i)));
    std::size_t capacity = c.draw(6);
    if (c.flag(0.05)) capacity = static_cast<std::size_t>(-1) - c.draw(3);
    NOTE(name << ", capacity " << capacity << ", " << nkeys << " keys:");
    Run<Cache, K, V> r(capacity, universe);
    r.state("construction");
    const std::size_t n = c.length(60);
    int serial = 0;
    for (std::size_t i = 0; i < n; ++i)
    {
        const std::size_t op = c.weighted({ 6, 5, 5, 2.5, 1.2, 1, 0.3 });
        const std::size_t k = c.draw(nkeys);
        std::size_t cap = 0;
        if (op == 4) { cap = c.flag(0.05) ? static_cast<std::size_t>(-1) : c.draw(8); }
        NOTE(" " << OPS[op]);
        if (op == 4) NOTE("(" << cap << ")"); else if (op != 6) NOTE("(" << show(universe[k]) << ")");
        r.apply(op, make<K>(static_cast<int>(k)), make<V>(++serial % 64), cap);
    }
    if (r.evictions) c.label("with evictions");
    if (r.evictions > 5) c.label("more than 5 evictions");
    c.nontrivial(r.evictions > 0);
    r.drain(c.flag(0.5));
}
PROP(histories, .quick = 150000)
{
    switch (c.draw(5))
    {
    case 0: history<pluto::lru_cache<int, int>, int, int>(c, "lru_cache<int, int>"); break;
    case 1: history<pluto::lru_cache<std::string, std::string>, std::string, std::string>(c, "lru_cache<string, string>"); break;
    case 2: history<pluto::lru_cache<Key, Value>, Key, Value>(c, "lru_cache<Key, Value>"); break;
    case 3: history<pluto::safe_lru_cache<int, int>, int, int>(c, "safe_lru_cache<int, int>"); break;
    default: history<pluto::safe_lru_cache<std::string, Value>, std::string, Value>(c, "safe_lru_cache<string, Value>"); break;
    }
}
// every history of 4 (thorough: 5) operations over 3 keys and capacities 0..3
template<template<class, class> class Cache> void all_histories(pbt::Case& c, int length)
{
    std::uint64_t n = c.draw(pbt::thorough() ? 4ull * 17 * 17 * 17 * 17 * 17 : 4ull * 17 * 17 * 17 * 17);
    const std::size_t capacity = n % 4;
    n /= 4;
    NOTE("capacity " << capacity << ":");
    Run<Cache<int, int>, int, int> r(capacity, { 0, 1, 2 });
    for (int i = 0; i < length; ++i, n /= 17)
    {
        const std::size_t o = n % 17;
        const std::size_t op = o < 12 ? o / 3 : o < 16 ? 4 : 6;
        const int key = static_cast<int>(o % 3);
        NOTE(" " << OPS[op]);
        if (op == 4) NOTE("(" << o - 12 << ")"); else if (op != 6) NOTE("(" << key << ")");
        r.apply(op, key, 10 + i, op == 4 ? o - 12 : 0);
    }
    c.nontrivial(r.evictions > 0);
    r.drain(true);
}
PROP(all_short_histories, .quick = 4 * 17 * 17 * 17 * 17, .thorough = 4 * 17 * 17 * 17 * 17 * 17, .enumerate = true) { all_histories<pluto::lru_cache>(c, pbt::thorough() ? 5 : 4); }
PROP(all_short_histories_safe, .quick = 4 * 17 * 17 * 17 * 17, .thorough = 4 * 17 * 17 * 17 * 17 * 17, .enumerate = true) { all_histories<pluto::safe_lru_cache>(c, pbt::thorough() ? 5 : 4); }

// keys and values that are the same object, and values the pair constructor could misread
PROP(aliased_arguments, .quick = 30000)
{
    pluto::lru_cache<std::string, std::string> cache(1 + c.draw(4));
    LruModel<std::string, std::string> model;
    model.capacity = cache.capacity();
    pluto::lru_cache<int, std::vector<std::any>> anys(2);
    const std::size_t n = c.length(30);
    NOTE("capacity " << model.capacity << ":");
    for (std::size_t i = 0; i < n; ++i)
    {
        std::string x = make<std::string>(static_cast<int>(c.draw(6))), y = x;
        const auto op = c.draw(3);
        NOTE(" " << OPS[op] << "(" << show(x) << ")");
        switch (op)
        {
        case 0: CHECK_EQ("aliased", cache.insert(x, x), model.insert(y, y), "insert(x, x)"); break;
        case 1: CHECK_EQ("aliased", cache.insert_or_assign(x, x), model.insert_or_assign(y, y), "insert_or_assign(x, x)"); break;
        default: CHECK_EQ("aliased", cache.get(x, x), model.get(y, y), "get(x, x)"); CHECK_EQ("aliased", x, y, "get(x, x) value"); break;
        }
        std::vector<std::any> v(i % 4, std::any(static_cast<int>(i))), w;
        anys.insert_or_assign(static_cast<int>(i % 3), v);
        CHECK("any values", anys.get(static_cast<int>(i % 3), w) && w.size() == v.size() && (w.empty() || std::any_cast<int>(w[0]) == static_cast<int>(i)), "a vector<any> value came back different");
    }
    c.nontrivial(n > 2);
    for (int k = 0; k < 6; ++k) CHECK_EQ("aliased", cache.contains(make<std::string>(k)), model.contains(make<std::string>(k)), "contains at the end");
}
// large caches: stretches of operations on up to 100000 keys
template<class Cache> void large_history(pbt::Case& c)
{
    const std::size_t biggest = c.large(100000);
    Cache cache(biggest);
    BigLru model;
    model.capacity = biggest;
    NOTE("capacity " << biggest << ":");
    std::size_t peak = 0, evicted = 0;
    const auto state = [&](const char* after)
    {
        CHECK_EQ("size", cache.size(), model.items.size(), "size after " << after);
        CHECK_EQ("capacity", cache.capacity(), model.capacity, "capacity after " << after);
        CHECK_EQ("empty", cache.empty(), model.items.empty(), "empty after " << after);
    };
    const std::size_t steps = 1 + c.draw(8);
    int serial = 0;
    for (std::size_t i = 0; i < steps; ++i)
    {
        const std::size_t op = i ? c.weighted({ 4, 3, 4, 2, 1.5, 2, 0.3 }) : 0;
        const int from = static_cast<int>(c.flag(0.5) ? 0 : c.large(100000)), stride = 1 + static_cast<int>(c.flag(0.7) ? 0 : c.draw(3));
        const int n = static_cast<int>(c.flag(0.2) ? biggest + c.draw(3) : c.large(100000));
        if (op == 4)
        {
            const std::size_t cap = c.large(100000), was = model.items.size();
            NOTE(" capacity(" << cap << ")");
            cache.capacity(cap); model.resize(cap);
            evicted += was - model.items.size();
        }
        else if (op == 6) { NOTE(" clear"); cache.clear(); model.clear(); }
        else
        {
            NOTE(" " << OPS[op] << " x " << n << " from " << from << " by " << stride);
            for (int j = 0; j < n; ++j)
            {
                const int k = from + j * stride;
                const std::size_t was = model.items.size();
                switch (op)
                {
                case 0: { const bool a = cache.insert(k, ++serial), e = model.insert(k, serial); if (e && model.items.size() == was) ++evicted; CHECK("insert result", a == e, "insert(" << k << ") with " << was << " entries"); break; }
                case 1: { const bool a = cache.insert_or_assign(k, ++serial), e = model.insert_or_assign(k, serial); if (e && model.items.size() == was) ++evicted; CHECK("insert_or_assign result", a == e, "insert_or_assign(" << k << ") with " << was << " entries"); break; }
                case 2: { int x = -1, y = -1; const bool a = cache.get(k, x), e = model.get(k, y); CHECK("get result", a == e && x == y, "get(" << k << ") with " << was << " entries gave " << x << ", expected " << y); break; }
                case 3: CHECK("remove result", cache.remove(k) == model.remove(k), "remove(" << k << ") with " << was << " entries"); break;
                default: CHECK("contains result", cache.contains(k) == model.contains(k), "contains(" << k << ") with " << was << " entries"); break;
                }
            }
        }
        peak = std::max(peak, model.items.size());
        state(OPS[op]);
    }
    c.nontrivial(peak > 100);
    if (peak > 65536) c.label("more than 65536 entries");
    if (evicted > 65536) c.label("more than 65536 evictions");
    // evict in growing steps: the oldest must go
    std::size_t step = 1;
    while (!model.items.empty())
    {
        std::vector<int> gone;
        const std::size_t left = model.items.size() - std::min(model.items.size(), step);
        auto it = model.items.rbegin();
        for (std::size_t k = model.items.size(); k > left; --k) gone.push_back((it++)->first);
        if (it != model.items.rend()) CHECK("eviction order", cache.contains(it->first), "entry " << it->first << " is missing among " << model.items.size());
        cache.capacity(left);
        model.resize(left);
        for (int k : gone) CHECK("eviction order", !cache.contains(k), "the old entry " << k << " survives a capacity of " << left);
        state("capacity");
        step *= 2;
    }
}
PROP(large_histories, .quick = 1500) { if (c.draw(2)) large_history<pluto::safe_lru_cache<int, int>>(c); else large_history<pluto::lru_cache<int, int>>(c); }

int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P16", "cases: histories of operations on caches of five type combinations, up to 60 operations over up to 8 keys; all histories of 4 (thorough 5) operations over 3 keys and capacities 0..3; after every operation size, capacity, emptiness and membership of all keys are compared with the model, at the end all values and the whole eviction order; non-trivial: at least one eviction");
}
