// P19: concurrent histories of a thread-safe cache, decided by searching for a linearization.
#include "pbt.hpp"
#include "vsched.hpp"
#include "lru_model.hpp"
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <pluto/safe_lru_cache.hpp>
#ifndef VARIANT
#define VARIANT
#define VPROP(NAME, ...) PROP(NAME, __VA_ARGS__)
#else
#define VPROP2(NAME, VAR, ...) PROP(NAME##_##VAR, __VA_ARGS__)
#define VPROP1(NAME, VAR, ...) VPROP2(NAME, VAR, __VA_ARGS__)
#define VPROP(NAME, ...) VPROP1(NAME, VARIANT, __VA_ARGS__)
#endif

namespace
{
    // keys and values whose copies and comparisons are scheduling points: an operation can be interrupted in its middle
    struct Key
    {
        int id{ 0 };
        Key() = default;
        Key(int i) : id(i) {}
        Key(const Key& o) : id(o.id) { vs::point(); }
        Key& operator=(const Key& o) { vs::point(); id = o.id; return *this; }
        friend bool operator<(const Key& a, const Key& b) { vs::point(); return a.id < b.id; }
        friend bool operator==(const Key& a, const Key& b) { vs::point(); return a.id == b.id; }
    };
    struct Value
    {
        int id{ -1 };
        std::string heap;
        Value() = default;
        Value(int i) : id(i), heap(std::to_string(i) + std::string(30, 'v')) {}
        Value(const Value& o) : id(o.id) { vs::point(); heap = o.heap; }
        Value& operator=(const Value& o) { id = o.id; vs::point(); heap = o.heap; return *this; }
        bool sound() const { return id == -1 ? heap.empty() : heap == std::to_string(id) + std::string(30, 'v'); }
    };
}
namespace std
{
    template<> struct hash<Key> { std::size_t operator()(const Key& k) const { vs::point(); return static_cast<std::size_t>(k.id % 2); } };
}
namespace
{
    enum Kind { SIZE, CAPACITY, EMPTY, CONTAINS, CLEAR, RESIZE, INSERT, ASSIGN, GET, REMOVE };
    const char* const names[] = { "size", "capacity", "empty", "contains", "clear", "capacity", "insert", "insert_or_assign", "get", "remove" };
    struct Op
    {
        Kind kind; int key, value;
        int thread{ 0 };
        std::uint64_t called{ 0 }, returned{ 0 };
        long long result{ 0 };      // size, capacity or boolean
        int got{ -1 };
        std::string text() const
        {
            std::string s = names[kind];
            s += "(";
            if (kind == CONTAINS || kind == INSERT || kind == ASSIGN || kind == GET || kind == REMOVE) s += "k" + std::to_string(key);
            if (kind == RESIZE) s += std::to_string(value);
            if (kind == INSERT || kind == ASSIGN) s += ", " + std::to_string(value);
            s += ")";
            if (returned && kind != CLEAR && kind != RESIZE) s += "=" + std::to_string(result);
            if (returned && kind == GET && result) s += " value " + std::to_string(got);
            return s;
        }
    };
    typedef pluto::safe_lru_cache<Key, Value> Cache;
    typedef LruModel<int, int> Model;

    Op draw_op(pbt::Case& c, int keys, int& serial)
    {
        Op o{};
        o.kind = static_cast<Kind>(c.weighted({ 1, 0.6, 0.6, 2, 0.5, 1, 4, 4, 4, 2 }));
        o.key = static_cast<int>(c.draw(static_cast<std::uint64_t>(keys)));
        o.value = o.kind == RESIZE ? static_cast<int>(c.draw(5)) : (o.kind == INSERT || o.kind == ASSIGN) ? ++serial : 0;
        return o;
    }
    void execute(Cache& cache, Op& o)
    {
        o.thread = vs::self();
        o.called = vs::stamp();
        vs::point();
        switch (o.kind)
        {
        case SIZE: o.result = static_cast<long long>(cache.size()); break;
        case CAPACITY: o.result = static_cast<long long>(cache.capacity()); break;
        case EMPTY: o.result = cache.empty(); break;
        case CONTAINS: o.result = cache.contains(Key(o.key)); break;
        case CLEAR: cache.clear(); break;
        case RESIZE: cache.capacity(static_cast<std::size_t>(o.value)); break;
        case INSERT: o.result = cache.insert(Key(o.key), Value(o.value)); break;
        case ASSIGN: o.result = cache.insert_or_assign(Key(o.key), Value(o.value)); break;
        case GET:
        {
            Value v;
            o.result = cache.get(Key(o.key), v);
            vs::Quiet q;
            CHECK("torn value", v.sound(), "get(k" << o.key << ") delivered a value that was never stored: id " << v.id << " with text " << pbt::show(v.heap));
            o.got = v.id;
            break;
        }
        case REMOVE: o.result = cache.remove(Key(o.key)); break;
        }
        vs::point();
        o.returned = vs::stamp();
    }
    // applies the operation to the model; false if the recorded result differs
    bool step(Model& m, const Op& o)
    {
        long long r = 0;
        int v = -1;
        switch (o.kind)
        {
        case SIZE: r = static_cast<long long>(m.items.size()); break;
        case CAPACITY: r = static_cast<long long>(m.capacity); break;
        case EMPTY: r = m.items.empty(); break;
        case CONTAINS: r = m.contains(o.key); break;
        case CLEAR: m.items.clear(); break;
        case RESIZE: m.resize(static_cast<std::size_t>(o.value)); break;
        case INSERT: r = m.insert(o.key, o.value); break;
        case ASSIGN: r = m.insert_or_assign(o.key, o.value); break;
        case GET: r = m.get(o.key, v); break;
        case REMOVE: r = m.remove(o.key); break;
        }
        return r == o.result && (o.kind != GET || !r || v == o.got);
    }
    bool linearizable(const std::vector<Op>& ops, const Model& initial)
    {
        std::set<std::vector<int>> failed;
        std::function<bool(std::uint64_t, const Model&)> go = [&](std::uint64_t done, const Model& m) -> bool
        {
            std::uint64_t first_return = ~std::uint64_t(0);
            bool any = false;
            for (std::size_t i = 0; i < ops.size(); ++i)
                if (!(done >> i & 1)) { any = true; first_return = std::min(first_return, ops[i].returned); }
            if (!any) return true;
            std::vector<int> memo{ static_cast<int>(done), static_cast<int>(done >> 32), static_cast<int>(m.capacity) };
            for (auto& e : m.items) { memo.push_back(e.first); memo.push_back(e.second); }
            if (failed.count(memo)) return false;
            for (std::size_t i = 0; i < ops.size(); ++i)
            {
                if (done >> i & 1 || ops[i].called > first_return) continue;
                Model next = m;
                if (step(next, ops[i]) && go(done | std::uint64_t(1) << i, next)) return true;
            }
            failed.insert(memo);
            return false;
        };
        return go(0, initial);
    }
}

VPROP(histories, .quick = 150000, .thorough = 2000000)
{
    const int keys = 2 + static_cast<int>(c.draw(3));
    const std::size_t capacity = c.draw(5);
    const std::size_t nthreads = 2 + c.draw(3);
    int serial = 0;
    std::vector<Op> before;
    for (std::size_t i = 0, n = c.draw(5); i < n; ++i) { Op o = draw_op(c, keys, serial); if (o.kind == GET || o.kind == ASSIGN || o.kind == INSERT || o.kind == REMOVE) before.push_back(o); }
    std::vector<std::vector<Op>> plan(nthreads);
    std::size_t total = 0;
    for (auto& p : plan) { const std::size_t n = c.length(nthreads == 2 ? 7 : 5); for (std::size_t i = 0; i < n; ++i, ++total) p.push_back(draw_op(c, keys, serial)); }
    NOTE("capacity " << capacity << ", " << keys << " keys; before:");
    for (auto& o : before) NOTE(" " << o.text());
    for (std::size_t t = 0; t < nthreads; ++t) { NOTE("; thread " << t + 1 << ":"); for (auto& o : plan[t]) NOTE(" " << o.text()); }

    std::vector<Op> history;
    Model model;
    model.capacity = capacity;
    vs::run(c, [&]
    {
        std::unique_ptr<Cache> cache(new Cache(capacity));
        for (auto& o : before)
        {
            execute(*cache, o);
            vs::Quiet q;
            CHECK("sequential", step(model, o), "before any concurrency: " << o.text() << " is not what the ideal cache does");
        }
        std::vector<std::thread> threads;
        for (std::size_t t = 0; t < nthreads; ++t) threads.emplace_back([&, t] { for (auto& o : plan[t]) execute(*cache, o); });
        for (auto& t : threads) t.join();
        for (auto& p : plan) history.insert(history.end(), p.begin(), p.end());
        // the final state, in the history's own terms
        const auto probe = [&](Op o) { execute(*cache, o); history.push_back(o); return o.result; };
        for (int k = 0; k < keys; ++k) probe(Op{ CONTAINS, k, 0 });
        probe(Op{ CAPACITY, 0, 0 });
        for (long long size = probe(Op{ SIZE, 0, 0 }); size > 0 && size <= keys; --size)
        {
            probe(Op{ RESIZE, 0, static_cast<int>(size - 1) });
            for (int k = 0; k < keys; ++k) probe(Op{ CONTAINS, k, 0 });
        }
        probe(Op{ EMPTY, 0, 0 });
        cache.reset();
    });
    const bool ok = linearizable(history, model);
    bool overlap = false;
    for (auto& a : history) for (auto& b : history) if (a.thread != b.thread && a.called < b.returned && b.called < a.returned) overlap = true;
    if (!ok)
    {
        NOTE("\nhistory (call..return):");
        for (auto& o : history) NOTE("\n  thread " << o.thread << " [" << o.called << ".." << o.returned << "] " << o.text());
    }
    CHECK("not linearizable", ok, "no order of the operations of this history explains their results");
    c.nontrivial(overlap && total >= 3);
    if (overlap) c.label("operations overlap");
    bool mutators = false;
    for (auto& a : history) for (auto& b : history) if (a.thread != b.thread && a.called < b.returned && b.called < a.returned && a.kind > CONTAINS && b.kind > CONTAINS) mutators = true;
    if (mutators) c.label("modifying operations overlap");
}
