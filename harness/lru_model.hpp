// The ideal least-recently-used map.
#pragma once
#include <cstddef>
#include <list>
#include <unordered_map>
#include <utility>
#include <vector>

template<class K, class V> struct LruModel
{
    std::size_t capacity{ 0 };
    std::vector<std::pair<K, V>> items;    // most recently used first

    std::size_t find(const K& k) const
    {
        for (std::size_t i = 0; i < items.size(); ++i) if (!(items[i].first < k) && !(k < items[i].first)) return i;
        return items.size();
    }
    bool contains(const K& k) const { return find(k) != items.size(); }
    void front(std::size_t i)
    {
        const std::pair<K, V> e = items[i];
        items.erase(items.begin() + static_cast<long>(i));
        items.insert(items.begin(), e);
    }
    void trim() { while (items.size() > capacity) items.pop_back(); }
    bool insert(const K& k, const V& v)
    {
        if (contains(k)) return false;
        if (capacity) { while (items.size() >= capacity) items.pop_back(); items.insert(items.begin(), std::make_pair(k, v)); }
        return true;
    }
    bool insert_or_assign(const K& k, const V& v)
    {
        const std::size_t i = find(k);
        if (i == items.size()) return insert(k, v);
        items[i].second = v;
        front(i);
        return false;
    }
    bool get(const K& k, V& v)
    {
        const std::size_t i = find(k);
        if (i == items.size()) return false;
        v = items[i].second;
        front(i);
        return true;
    }
    bool remove(const K& k)
    {
        const std::size_t i = find(k);
        if (i == items.size()) return false;
        items.erase(items.begin() + static_cast<long>(i));
        return true;
    }
    void resize(std::size_t n) { capacity = n; trim(); }
};

// the same for many entries
struct BigLru
{
    typedef std::list<std::pair<int, int>> List;
    std::size_t capacity{ 0 };
    List items;
    std::unordered_map<int, List::iterator> at;

    bool contains(int k) const { return at.count(k) != 0; }
    void drop() { at.erase(items.back().first); items.pop_back(); }
    bool insert(int k, int v)
    {
        if (contains(k)) return false;
        if (capacity) { while (items.size() >= capacity) drop(); items.emplace_front(k, v); at[k] = items.begin(); }
        return true;
    }
    bool touch(int k)
    {
        const auto i = at.find(k);
        if (i == at.end()) return false;
        items.splice(items.begin(), items, i->second);
        return true;
    }
    bool insert_or_assign(int k, int v)
    {
        if (!touch(k)) return insert(k, v);
        items.front().second = v;
        return false;
    }
    bool get(int k, int& v)
    {
        if (!touch(k)) return false;
        v = items.front().second;
        return true;
    }
    bool remove(int k)
    {
        const auto i = at.find(k);
        if (i == at.end()) return false;
        items.erase(i->second);
        at.erase(i);
        return true;
    }
    void resize(std::size_t n) { capacity = n; while (items.size() > n) drop(); }
    void clear() { items.clear(); at.clear(); }
    void copy_from(const BigLru& o)
    {
        capacity = o.capacity;
        clear();
        for (const auto& e : o.items) { items.push_back(e); at[e.first] = std::prev(items.end()); }
    }
};
