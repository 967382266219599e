// P18: faults (throwing copies, assignments, comparisons, allocations) injected at every point of cache operations.
#include "pbt.hpp"
#include <algorithm>
#include <cstdlib>
#include <memory>
#include <new>
#include <set>
#include <pluto/safe_lru_cache.hpp>
using pbt::show;

namespace
{
    struct Fault { const char* where; };
    long countdown = -1;          // -1: no faults; n: the n-th fault point from now on fails
    int kinds = 15;               // which kinds of points count
    const char* fired = nullptr;
    long points = 0;
    enum { COPY = 1, ASSIGN = 2, COMPARE = 4, ALLOCATE = 8 };
    bool point(int kind, const char* where)
    {
        if (countdown < 0 || !(kinds & kind)) return false;
        ++points;
        if (countdown-- != 0) return false;
        fired = where;    // countdown is now -1: one fault only
        return true;
    }
}
void* operator new(std::size_t n)
{
    if (point(ALLOCATE, "allocation")) throw std::bad_alloc();
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }

namespace
{
    struct Key
    {
        int id;
        int* self;    // finds copies made without the copy constructor and use after destruction
        explicit Key(int i) : id(i), self(&id) {}
        Key(const Key& o) : id(o.id), self(&id) { o.alive(); if (point(COPY, "copying a key")) throw Fault{ fired }; }
        Key& operator=(const Key& o) { o.alive(); alive(); if (point(ASSIGN, "assigning a key")) throw Fault{ fired }; id = o.id; return *this; }
        ~Key() { alive(); self = nullptr; }
        void alive() const { if (self != &id) std::abort(); }
        bool operator<(const Key& o) const { alive(); o.alive(); if (point(COMPARE, "comparing keys")) throw Fault{ fired }; return id < o.id; }
    };
    struct Value
    {
        int n;
        std::unique_ptr<int> data;
        explicit Value(int x = 0) : n(x), data(new int(x)) {}
        Value(const Value& o) : n(o.n) { if (point(COPY, "copying a value")) throw Fault{ fired }; data.reset(new int(o.get())); }
        // gives the basic guarantee only
        Value& operator=(const Value& o) { if (point(ASSIGN, "assigning a value")) throw Fault{ fired }; std::unique_ptr<int> d(new int(o.get())); n = o.n; data = std::move(d); return *this; }
        int get() const { if (*data != n) std::abort(); return n; }
    };
    enum Op { INSERT, ASSIGN_OP, GET, REMOVE, CAPACITY, CONTAINS, COPY_CTOR, COPY_ASSIGN, COPY_ASSIGN_FROM, CLEAR, OPS };
    const char* const NAMES[] = { "insert", "insert_or_assign", "get", "remove", "capacity", "contains", "copy", "assign from another", "assign to another", "clear" };
    typedef std::vector<std::pair<int, int>> Contents;    // most recently used first

    template<class Cache> struct Copyable { static const bool value = false; };
    template<class K, class V> struct Copyable<pluto::lru_cache<K, V>> { static const bool value = true; };

    template<class Cache> struct Run
    {
        Cache cache;
        std::size_t capacity;
        Contents model;
        int nkeys;
        int faults{ 0 };
        int serial{ 0 };

        Run(std::size_t cap, int keys) : cache(cap), capacity(cap), nkeys(keys) {}

        static long at(const Contents& m, int k) { for (std::size_t i = 0; i < m.size(); ++i) if (m[i].first == k) return static_cast<long>(i); return -1; }
        void check(const Cache& k, const Contents& m, std::size_t cap, const std::string& what)
        {
            CHECK_EQ("size", k.size(), m.size(), what << ": size");
            CHECK_EQ("capacity", k.capacity(), cap, what << ": capacity");
            CHECK("bound", k.size() <= k.capacity(), what << ": size " << k.size() << " exceeds the capacity " << k.capacity());
            CHECK_EQ("empty", k.empty(), m.empty(), what << ": empty");
            for (int i = 0; i < nkeys; ++i) CHECK("contains", k.contains(Key(i)) == (at(m, i) >= 0), what << ": key " << i << " is " << (at(m, i) >= 0 ? "missing" : "present"));
        }
        // what an operation does when nothing fails
        void expect(Contents& m, std::size_t& cap, int op, int key, int value, std::size_t n)
        {
            const long i = at(m, key);
            const auto front = [&](long x) { const auto e = m[static_cast<std::size_t>(x)]; m.erase(m.begin() + x); m.insert(m.begin(), e); };
            switch (op)
            {
            case INSERT: case ASSIGN_OP:
                if (i < 0) { if (cap) { while (m.size() >= cap) m.pop_back(); m.insert(m.begin(), { key, value }); } }
                else if (op == ASSIGN_OP) { m[static_cast<std::size_t>(i)].second = value; front(i); }
                break;
            case GET: if (i >= 0) front(i); break;
            case REMOVE: if (i >= 0) m.erase(m.begin() + i); break;
            case CAPACITY: cap = n; while (m.size() > cap) m.pop_back(); break;
            case CLEAR: m.clear(); break;
            default: break;
            }
        }
        // after a failed operation: read the contents back and judge them
        Contents read_back(std::size_t cap, const std::string& what)
        {
            const Cache& k = cache;
            std::vector<int> present;
            for (int i = 0; i < nkeys; ++i) if (k.contains(Key(i))) present.push_back(i);
            CHECK_EQ("size", k.size(), present.size(), what << ": size differs from the number of keys found");
            CHECK_EQ("empty", k.empty(), present.empty(), what << ": empty");
            CHECK_EQ("capacity", k.capacity(), cap, what << ": capacity");
            CHECK("bound", k.size() <= cap, what << ": size " << k.size() << " exceeds the capacity " << cap);
            Contents m;
            for (int i : present) m.push_back({ i, 0 });
            return m;
        }
        // one operation with the fault armed
        void apply(int op, int key, std::size_t n, long fault, int kind)
        {
            const int value = ++serial;
            const Contents before = model;
            const std::size_t capBefore = capacity;
            Contents after = model;
            std::size_t capAfter = capacity;
            expect(after, capAfter, op, key, value, n);
            const Key k(key);
            const Value v(value);
            Value out(-1);
            Key okey(0);
            bool result = false, threw = false;
            Cache other(2);
            Contents otherContents;
            if (op == COPY_ASSIGN || op == COPY_ASSIGN_FROM)
                for (int i = 0; i < 2 && i < nkeys; ++i) { other.insert_or_assign(Key(i), Value(900 + i)); otherContents.insert(otherContents.begin(), { i, 900 + i }); }
            fired = nullptr;
            kinds = kind;
            std::unique_ptr<Cache> made;
            countdown = fault;
            try
            {
                switch (op)
                {
                case INSERT: result = cache.insert(k, v); break;
                case ASSIGN_OP: result = cache.insert_or_assign(k, v); break;
                case GET: result = cache.get(k, out); break;
                case REMOVE: result = cache.remove(k); break;
                case CAPACITY: cache.capacity(n); break;
                case CONTAINS: result = cache.contains(k); break;
                case CLEAR: cache.clear(); break;
                case COPY_CTOR: if constexpr (Copyable<Cache>::value) made.reset(new Cache(cache)); break;
                case COPY_ASSIGN: if constexpr (Copyable<Cache>::value) cache = other; break;
                case COPY_ASSIGN_FROM: if constexpr (Copyable<Cache>::value) other = cache; break;
                }
            }
            catch (const Fault&) { threw = true; }
            catch (const std::bad_alloc&) { threw = true; }
            countdown = -1;
            const std::string what = std::string("after ") + NAMES[op] + (op == CAPACITY ? "(" + std::to_string(n) + ")" : "(" + std::to_string(key) + ")") + (fired ? std::string(" failing at ") + fired : std::string());
            CHECK("failure reaches the caller", threw == (fired != nullptr), what << (fired ? ": the exception was swallowed" : ": an exception without fault"));
            if (!threw)
            {
                const bool had = at(before, key) >= 0;
                if (op == INSERT || op == ASSIGN_OP) CHECK_EQ("result", result, !had, what << ": result");
                if (op == GET || op == REMOVE || op == CONTAINS) CHECK_EQ("result", result, had, what << ": result");
                if (op == GET && had) CHECK_EQ("value", out.get(), before[static_cast<std::size_t>(at(before, key))].second, what << ": value");
                if constexpr (Copyable<Cache>::value)
                {
                    if (op == COPY_CTOR) { check(*made, after, capAfter, what + ", the copy"); check_order(*made, after, capAfter, what + ", the copy"); }
                    if (op == COPY_ASSIGN_FROM) { check(other, after, capAfter, what + ", the other"); check_order(other, after, capAfter, what + ", the other"); }
                    if (op == COPY_ASSIGN) { after = otherContents; capAfter = 2; }
                }
                model = after;
                capacity = capAfter;
                check(cache, model, capacity, what);
                return;
            }
            ++faults;
            (void)out.get();
            // which entries may have changed: the one operated on, and those due for eviction
            std::set<int> free;
            const bool isNew = at(before, key) < 0;
            if (op == INSERT || op == ASSIGN_OP || op == GET || op == REMOVE) free.insert(key);
            if ((op == INSERT || op == ASSIGN_OP) && isNew) { std::size_t s = before.size(); while (s && s >= capBefore) free.insert(before[--s].first); }
            if (op == CAPACITY) for (std::size_t i = n; i < before.size(); ++i) free.insert(before[i].first);
            const std::size_t cap = cache.capacity();
            if (op == CAPACITY) CHECK("capacity", cap == n || cap == capBefore, what << ": capacity is " << cap);
            Contents found = read_back(op == CAPACITY ? cap : capBefore, what);
            for (auto& e : before) if (!free.count(e.first)) CHECK("entry lost", at(found, e.first) >= 0, what << ": the entry " << e.first << " was lost");
            for (auto& e : found) if (at(before, e.first) < 0) CHECK("entry invented", free.count(e.first), what << ": the entry " << e.first << " appeared");
            capacity = cap;
            resolve(op, before, free, found, key, value, what);
            if constexpr (Copyable<Cache>::value)
                if (op == COPY_ASSIGN_FROM) { check(other, otherContents, 2, what + ", the other (target)"); check_order(other, otherContents, 2, what + ", the other (target)"); }
        }
        // takes k apart
        void check_order(Cache& k, Contents m, std::size_t cap, const std::string& what)
        {
            (void)cap;
            while (!m.empty())
            {
                m.pop_back();
                k.capacity(m.size());
                check(k, m, m.size(), what + ", evicting one by one");
            }
        }
        // find out the position and value of the free entries; the others must be as before
        void resolve(int op, const Contents& before, const std::set<int>& free, const Contents& found, int key, int value, const std::string& what)
        {
            Contents base;
            for (auto& e : before) if (at(found, e.first) >= 0) base.push_back(e);
            // old or new value; a new entry at the front or at the back
            std::vector<Contents> candidates;
            const long i = at(base, key);
            if (at(found, key) >= 0 && free.count(key))
            {
                for (int which = 0; which < 2; ++which)
                {
                    Contents m = base;
                    if (i < 0) { if (which == 0) { m.insert(m.begin(), { key, value }); candidates.push_back(m); } else { m.push_back({ key, value }); candidates.push_back(m); } }
                    else
                    {
                        // an operation that failed does not count as a use: the order stays as it was
                        candidates.push_back(m);
                        m[static_cast<std::size_t>(i)].second = value;
                        if (op == ASSIGN_OP) candidates.push_back(m);
                        break;
                    }
                }
            }
            else candidates.push_back(base);
            if (candidates.size() == 1) { model = candidates[0]; return; }
            if constexpr (Copyable<Cache>::value)
            {
                // a copy tells the value and the order
                Cache copy(cache);
                Contents order;
                std::vector<int> left;
                for (auto& e : found) left.push_back(e.first);
                while (!left.empty())
                {
                    copy.capacity(left.size() - 1);
                    CHECK_EQ("size", copy.size(), left.size() - 1, what << ": evicting from a copy");
                    int gone = -1;
                    for (int k : left) if (!copy.contains(Key(k))) { CHECK("consistent", gone < 0, what << ": one eviction removed two entries"); gone = k; }
                    CHECK("consistent", gone >= 0, what << ": an eviction removed nothing");
                    order.insert(order.begin(), { gone, 0 });
                    left.erase(std::find(left.begin(), left.end(), gone));
                }
                Cache copy2(cache);
                for (auto& e : order) { Value v; CHECK("consistent", copy2.get(Key(e.first), v), what << ": key " << e.first << " in a copy"); e.second = v.get(); }
                for (auto& m : candidates) if (m == order) { model = m; return; }
                pbt::fail("altered", what + ": contents are " + show(order) + ", before the operation they were " + show(before));
            }
            else
            {
                // reading the operand makes its position known; its value must be the old or the new one
                Value v;
                CHECK("consistent", cache.get(Key(key), v), what << ": the entry is there but cannot be queried");
                CHECK("altered", v.get() == value || (i >= 0 && v.get() == base[static_cast<std::size_t>(i)].second), what << ": the entry has the value " << v.get());
                Contents m = base;
                if (i >= 0) m.erase(m.begin() + i);
                m.insert(m.begin(), { key, v.get() });
                model = m;
            }
        }
        void finish()
        {
            for (int i = 0; i < nkeys; ++i)
            {
                Value v(-5);
                const long p = at(model, i);
                const bool got = cache.get(Key(i), v);
                CHECK_EQ("get result", got, (p >= 0), "at the end: get(" << i << ")");
                if (p >= 0)
                {
                    CHECK_EQ("value", v.get(), model[static_cast<std::size_t>(p)].second, "at the end: value of " << i);
                    const auto e = model[static_cast<std::size_t>(p)];
                    model.erase(model.begin() + p);
                    model.insert(model.begin(), e);
                }
                if (i == nkeys / 2) break;    // leave part of the order as it was
            }
            check_order(cache, model, capacity, "at the end");
            // and it still works as a cache
            cache.capacity(2);
            cache.insert(Key(0), Value(1)); cache.insert(Key(1), Value(2)); cache.insert(Key(2), Value(3));
            CHECK("works", cache.size() == 2 && !cache.contains(Key(0)) && cache.contains(Key(1)) && cache.contains(Key(2)), "the cache no longer works at the end");
        }
    };
    template<class Cache> void history(pbt::Case& c)
    {
        const int nkeys = 3 + static_cast<int>(c.draw(5));
        const std::size_t capacity = c.draw(6);
        NOTE("capacity " << capacity << ", " << nkeys << " keys:");
        Run<Cache> r(capacity, nkeys);
        const std::size_t n = c.length(40);
        for (std::size_t i = 0; i < n; ++i)
        {
            const int op = static_cast<int>(c.weighted({ 6, 5, 3, 2, 2, 1, 1.5, 1, 1, 0.2 }));
            const int key = static_cast<int>(c.draw(static_cast<std::uint64_t>(nkeys)));
            const std::size_t cap = op == CAPACITY ? c.draw(7) : 0;
            static const int masks[] = { 15, COPY, ASSIGN, COMPARE, ALLOCATE };
            const long fault = c.flag(0.5) ? static_cast<long>(c.draw(op == COPY_CTOR || op == COPY_ASSIGN || op == COPY_ASSIGN_FROM ? 40 : 14)) : -1;
            const int kind = fault < 0 ? 15 : c.pick(masks);
            const int had = r.faults;
            NOTE(" " << NAMES[op] << "(" << (op == CAPACITY ? static_cast<int>(cap) : key) << ")");
            r.apply(op, key, cap, fault, kind);
            if (r.faults != had) { NOTE(" FAILS at " << fired); c.label(fired); }
        }
        c.nontrivial(r.faults > 0);
        if (r.faults > 3) c.label("more than 3 faults in one history");
        r.finish();
    }
    // every fault point of every operation on small caches
    template<class Cache> void enumerate(pbt::Case& c)
    {
        std::uint64_t i = c.draw(5 * 6 * 10 * 5 * 24);
        const std::size_t capacity = i % 5; i /= 5;
        const int entries = static_cast<int>(i % 6); i /= 6;
        const int op = static_cast<int>(i % 10); i /= 10;
        const int key = static_cast<int>(i % 5); i /= 5;
        const long fault = static_cast<long>(i);
        NOTE("capacity " << capacity << ", " << entries << " inserted, " << NAMES[op] << "(" << key << ") failing at point " << fault);
        for (std::size_t cap = 0; cap < (op == CAPACITY ? 6 : 1); ++cap)
        {
            Run<Cache> r(capacity, 6);
            for (int e = 0; e < entries; ++e) r.apply(INSERT, e, 0, -1, 15);
            r.apply(op, key, cap, fault, 15);
            c.nontrivial(r.faults > 0);
            r.apply(GET, 0, 0, -1, 15);
            r.apply(INSERT, 5, 0, -1, 15);
            r.apply(ASSIGN_OP, key, 0, -1, 15);
            r.finish();
        }
    }
}
PROP(histories, .quick = 150000) { history<pluto::lru_cache<Key, Value>>(c); }
PROP(histories_safe, .quick = 80000) { history<pluto::safe_lru_cache<Key, Value>>(c); }
PROP(all_fault_points, .quick = 5 * 6 * 10 * 5 * 24, .thorough = 5 * 6 * 10 * 5 * 24, .enumerate = true) { enumerate<pluto::lru_cache<Key, Value>>(c); }
PROP(all_fault_points_safe, .quick = 5 * 6 * 10 * 5 * 24, .thorough = 5 * 6 * 10 * 5 * 24, .enumerate = true) { enumerate<pluto::safe_lru_cache<Key, Value>>(c); }
int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P18", "cases: operation histories with a fault (throwing copy, assignment, comparison or allocation) armed at a drawn point of half of the operations; every operation on caches of capacity 0..4 with 0..5 insertions with a fault at each of its first 24 points; non-trivial: at least one fault fired");
}
