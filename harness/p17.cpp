// P17: families of copied, moved and assigned caches, each against its own model.
#include "pbt.hpp"
#include "lru_model.hpp"
#include <memory>
#include <string>
#include <pluto/lru_cache.hpp>
using pbt::show;

template<class T> T make(int n) { return T(n); }
template<> std::string make<std::string>(int n) { return std::string(static_cast<std::size_t>(n % 3) * 20, 'k') + std::to_string(n); }

template<class K, class V> struct Slot
{
    std::unique_ptr<pluto::lru_cache<K, V>> cache;
    LruModel<K, V> model;
    bool moved{ false };
};
template<class K, class V> void check(const Slot<K, V>& s, const std::vector<K>& universe, const std::string& what)
{
    const auto& k = *s.cache;
    CHECK_EQ("size", k.size(), s.model.items.size(), what << ": size");
    CHECK_EQ("capacity", k.capacity(), s.model.capacity, what << ": capacity");
    CHECK_EQ("empty", k.empty(), s.model.items.empty(), what << ": empty");
    for (auto& u : universe) CHECK("contains", k.contains(u) == s.model.contains(u), what << ": key " << show(u) << " is " << (s.model.contains(u) ? "missing" : "present"));
}
template<class K, class V> void drain(Slot<K, V>& s, const std::vector<K>& universe, bool values, const std::string& what)
{
    if (values)
        for (auto& u : universe)
        {
            V got{}, expected{};
            const bool a = s.cache->get(u, got), b = s.model.get(u, expected);
            CHECK_EQ("get result", a, b, what << ": get(" << show(u) << ")");
            CHECK("get value", got == expected, what << ": get(" << show(u) << ") gave " << show(got) << ", expected " << show(expected));
        }
    while (!s.model.items.empty())
    {
        s.cache->capacity(s.model.items.size() - 1);
        s.model.resize(s.model.items.size() - 1);
        check(s, universe, what + ", evicting one by one");
    }
}
template<class K, class V> void family(pbt::Case& c, const char* name)
{
    typedef pluto::lru_cache<K, V> Cache;
    const std::size_t nkeys = 2 + c.draw(6);
    std::vector<K> universe;
    for (std::size_t i = 0; i < nkeys; ++i) universe.push_back(make<K>(static_cast<int>(i)));
    std::vector<Slot<K, V>> slots(3);
    NOTE(name << ", " << nkeys << " keys, capacities");
    for (auto& s : slots) { s.model.capacity = c.draw(6); s.cache.reset(new Cache(s.model.capacity)); NOTE(" " << s.model.capacity); }
    NOTE(":");
    const std::size_t n = c.length(50);
    int serial = 0, transfers = 0;
    for (std::size_t i = 0; i < n; ++i)
    {
        const std::size_t a = c.draw(slots.size()), op = c.weighted({ 8, 3, 3, 2, 1, 0.4, 2, 2, 1.5, 1.5, 1, 1, 0.5 });
        Slot<K, V>& s = slots[a];
        // a moved-from cache may only be destroyed, cleared or assigned to
        if (s.moved && op < 5) continue;
        const K key = make<K>(static_cast<int>(c.draw(nkeys)));
        const V value = make<V>(++serial % 50);
        switch (op)
        {
        case 0: NOTE(" " << a << ".insert_or_assign(" << show(key) << ")"); CHECK_EQ("insert_or_assign", s.cache->insert_or_assign(key, value), s.model.insert_or_assign(key, value), "insert_or_assign"); break;
        case 1: NOTE(" " << a << ".insert(" << show(key) << ")"); CHECK_EQ("insert", s.cache->insert(key, value), s.model.insert(key, value), "insert"); break;
        case 2: { NOTE(" " << a << ".get(" << show(key) << ")"); V x{}, y{}; CHECK_EQ("get", s.cache->get(key, x), s.model.get(key, y), "get"); CHECK("get value", x == y, "get(" << show(key) << ") gave " << show(x) << ", expected " << show(y)); break; }
        case 3: NOTE(" " << a << ".remove(" << show(key) << ")"); CHECK_EQ("remove", s.cache->remove(key), s.model.remove(key), "remove"); break;
        case 4: { const std::size_t cap = c.draw(7); NOTE(" " << a << ".capacity(" << cap << ")"); s.cache->capacity(cap); s.model.resize(cap); break; }
        case 5: NOTE(" " << a << ".clear()"); s.cache->clear(); s.model.items.clear(); if (s.moved) { s.model.capacity = s.cache->capacity(); s.moved = false; } break;
        case 6: case 7: case 8: case 9: case 10:
        {
            const std::size_t b = c.draw(slots.size());
            Slot<K, V>& t = slots[b];
            if (t.moved) continue;
            if (b == a && (op == 8 || op == 9)) continue;    // no self move
            ++transfers;
            switch (op)
            {
            case 6: NOTE(" " << a << " = copy of " << b); { std::unique_ptr<Cache> fresh(new Cache(*t.cache)); const auto m = t.model; s.cache = std::move(fresh); s.model = m; s.moved = false; } break;
            case 7: NOTE(" " << a << " = " << b << " (assigned)"); { auto& r = (*s.cache = *t.cache); CHECK("assignment returns", &r == s.cache.get(), "operator= returns the target"); const auto m = t.model; s.model = m; s.moved = false; } break;
            case 8: NOTE(" " << a << " = moved " << b); s.cache.reset(new Cache(std::move(*t.cache))); s.model = t.model; s.moved = false; t.moved = true; break;
            case 9: NOTE(" " << a << " = " << b << " (move assigned)"); { auto& r = (*s.cache = std::move(*t.cache)); CHECK("assignment returns", &r == s.cache.get(), "operator= returns the target"); s.model = t.model; s.moved = false; t.moved = true; } break;
            default: NOTE(" swap " << a << " " << b); if (s.moved) continue; if (a != b) { using std::swap; swap(*s.cache, *t.cache); std::swap(s.model, t.model); } break;
            }
            break;
        }
        case 11: if (slots.size() < 6) { const std::size_t cap = c.draw(5); NOTE(" new " << slots.size() << "(" << cap << ")"); Slot<K, V> f; f.model.capacity = cap; f.cache.reset(new Cache(cap)); slots.push_back(std::move(f)); } break;
        default: if (slots.size() > 2) { NOTE(" destroy " << a); slots.erase(slots.begin() + static_cast<long>(a)); } break;
        }
        for (std::size_t k = 0; k < slots.size(); ++k) if (!slots[k].moved) check(slots[k], universe, "after operation " + std::to_string(i) + ", cache " + std::to_string(k));
    }
    int filled = 0;
    for (auto& s : slots) filled += !s.moved && !s.model.items.empty();
    c.nontrivial(transfers > 0 && filled > 0);
    if (transfers > 3) c.label("more than 3 transfers");
    // take them apart in a drawn order, destroying each before the next is examined
    const bool values = c.flag(0.5);
    while (!slots.empty())
    {
        const std::size_t a = c.draw(slots.size());
        if (!slots[a].moved) drain(slots[a], universe, values, "cache " + std::to_string(a) + " of " + std::to_string(slots.size()));
        slots.erase(slots.begin() + static_cast<long>(a));
    }
}
PROP(families, .quick = 200000)
{
    switch (c.draw(3))
    {
    case 0: family<int, int>(c, "int, int"); break;
    case 1: family<std::string, std::string>(c, "string, string"); break;
    default: family<int, std::vector<std::string>>(c, "int, vector<string>"); break;
    }
}
// large caches copied and moved: contents, order and independence
PROP(large_families, .quick = 1500)
{
    typedef pluto::lru_cache<int, int> Cache;
    const std::size_t n = c.large(70000), cap = c.flag(0.5) ? n : c.large(70000);
    std::unique_ptr<Cache> a(new Cache(cap));
    BigLru ma, mb;
    ma.capacity = cap;
    for (std::size_t i = 0; i < n; ++i) { a->insert(static_cast<int>(i), static_cast<int>(i * 3)); ma.insert(static_cast<int>(i), static_cast<int>(i * 3)); }
    for (std::size_t i = 0, m = c.large(n); i < m; ++i) { int x; const int k = static_cast<int>(i * 7 % (n + 1)); a->get(k, x); ma.touch(k); }
    const std::size_t how = c.draw(6);
    NOTE(n << " keys, capacity " << cap << ", way " << how);
    c.nontrivial(ma.items.size() > 100);
    if (ma.items.size() > 32768) c.label("more than 32768 entries");
    std::unique_ptr<Cache> b(new Cache(c.large(1000)));
    mb.capacity = b->capacity();
    for (int i = 0; i < 5; ++i) { b->insert(-i - 1, i); mb.insert(-i - 1, i); }
    const auto check = [&](Cache& k, BigLru& m, const char* what)
    {
        CHECK_EQ("size", k.size(), m.items.size(), what << ": size");
        CHECK_EQ("capacity", k.capacity(), m.capacity, what << ": capacity");
        for (int i = -6; i < static_cast<int>(n) + 3; ++i) CHECK("contains", k.contains(i) == m.contains(i), what << ": key " << i << " is " << (m.contains(i) ? "missing" : "present"));
        std::size_t step = 1;
        while (!m.items.empty())
        {   // values of the newest and oldest, then the oldest go
            const auto front = m.items.front();
            int x = -1;
            CHECK("get value", k.get(front.first, x) && x == front.second, what << ": get(" << front.first << ") gave " << x << ", expected " << front.second);
            const std::size_t left = m.items.size() - std::min(m.items.size(), step);
            std::vector<int> gone;
            auto it = m.items.rbegin();
            for (std::size_t j = m.items.size(); j > left; --j) gone.push_back((it++)->first);
            k.capacity(left);
            m.resize(left);
            CHECK_EQ("size", k.size(), left, what << ": size after capacity(" << left << ")");
            for (int g : gone) CHECK("eviction order", !k.contains(g), what << ": the old entry " << g << " survives a capacity of " << left);
            step *= 2;
        }
    };
    bool b_gone = false, a_gone = false;
    switch (how)
    {
    case 0: b.reset(new Cache(*a)); mb.copy_from(ma); break;
    case 1: *b = *a; mb.copy_from(ma); break;
    case 2: b.reset(new Cache(std::move(*a))); mb.copy_from(ma); a_gone = true; break;
    case 3: *b = std::move(*a); mb.copy_from(ma); a_gone = true; break;
    case 4: *a = *b; ma.copy_from(mb); break;
    default: { using std::swap; swap(*a, *b); BigLru t; t.copy_from(ma); ma.copy_from(mb); mb.copy_from(t); break; }
    }
    if (c.flag(0.5)) { if (!a_gone) check(*a, ma, "the first cache"); a.reset(); check(*b, mb, "the second cache"); }
    else { if (!b_gone) check(*b, mb, "the second cache"); b.reset(); if (!a_gone) check(*a, ma, "the first cache"); }
}
int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P17", "cases: histories over up to 6 caches of ordinary operations, copy and move construction and assignment (also to itself, copying), swap, creation and destruction; every cache is compared with its own model after every operation and taken apart at the end; non-trivial: at least one copy or move and a non-empty cache at the end");
}
