// P04: splitting and joining.  Compiled twice: the second object has the overloads for Unicode strings on (namespace renamed).
#include "strings.hpp"
#include <pluto/string.hpp>
using namespace str;
using pbt::show;
#ifndef VARIANT
#define PROPV(name, ...) PROP(name, __VA_ARGS__)
#define KIND(n) c.draw(n)
#define PART(n) n
#else
#define PROPV(name, ...) PROP(name##_overloads, __VA_ARGS__)
#define KIND(n) (2 + c.draw(n - 2)) // Unicode strings only
#define PART(n) (n / 5)
#endif

namespace
{

template<class C> V<C> ref_split(const S<C>& s, const S<C>& sep)
{
    V<C> r;
    if (sep.empty()) { for (C x : s) r.push_back(S<C>(1, x)); return r; }
    S<C> cur;
    for (std::size_t i = 0; i < s.size();)
        if (at(s, i, sep)) { r.push_back(cur); cur.clear(); i += sep.size(); }
        else cur.push_back(s[i++]);
    r.push_back(cur);
    return r;
}
template<class C, class Is> V<C> ref_runs(const S<C>& s, Is is_separator)
{
    V<C> r;
    S<C> cur;
    for (C x : s)
        if (is_separator(x)) { if (!cur.empty()) r.push_back(cur); cur.clear(); }
        else cur.push_back(x);
    if (!cur.empty()) r.push_back(cur);
    return r;
}
template<class C> S<C> ref_join(const V<C>& v, const S<C>& sep)
{
    S<C> r;
    for (std::size_t i = 0; i < v.size(); ++i) { for (C x : v[i]) r.push_back(x); if (i + 1 < v.size()) for (C x : sep) r.push_back(x); }
    return r;
}

template<class C> void split_case(pbt::Case& c)
{
    const auto a = alphabet<C>(c);
    const S<C> sep = gen<C>(c, 4, a);
    const S<C> s = gen_around<C>(c, 20, sep, a);
    NOTE(sizeof(C) << "-byte split " << show(s) << " by " << show(sep));
    const V<C> want = ref_split(s, sep);
    c.nontrivial(want.size() > 1 && !sep.empty());
    if (sep.empty()) c.label("empty separator");
    const S<C> s0 = s, sep0 = sep;
    const V<C> got = pluto::split(s, sep);
    CHECK_EQ("split", got, want, "split of " << show(s) << " by " << show(sep));
    CHECK("split", s == s0 && sep == sep0, "arguments changed");
    CHECK_EQ("split", pluto::split<>(s, sep), want, "split<> of " << show(s) << " by " << show(sep));
    // inverse
    if (!sep.empty() || !s.empty())
        CHECK_EQ("join(split)", pluto::join(got, sep), s, "joining the pieces of " << show(s) << " with " << show(sep));
    // split_any_of with the separator's characters as a set
    const V<C> any = pluto::split_any_of(s, sep);
    const V<C> want_any = ref_runs<C>(s, [&](C x) { for (C y : sep) if (x == y) return true; return false; });
    CHECK_EQ("split_any_of", any, want_any, "split_any_of " << show(s) << " by any of " << show(sep));
}
PROPV(split_separator, .quick = PART(1500000))
{
    switch (KIND(5))
    {
    case 0: split_case<char>(c); break;
    case 1: split_case<wchar_t>(c); break;
    case 2: split_case<char16_t>(c); break;
    case 3: split_case<char32_t>(c); break;
    default: split_case<char8_t>(c); break;
    }
}

template<class C> void space_case(pbt::Case& c)
{
    const auto a = alphabet<C>(c);
    const S<C> s = gen<C>(c, 40, a);
    const auto& l = c.pick(locales_of<C>());
    NOTE("split at whitespace of locale " << l.name << ": " << show(s));
    const V<C> want = ref_runs<C>(s, [&](C x) { return is_space(l.locale, x); });
    c.nontrivial(want.size() > 1);
    c.label(l.name);
    const std::locale locale = l.locale;
    CHECK_EQ("split whitespace", pluto::split(s, locale), want, "split of " << show(s) << " with locale " << l.name);
    if (l.is_default) if constexpr (standard_facet<C>) CHECK_EQ("split whitespace", pluto::split(s), want, "split of " << show(s) << " with the default locale");
}
PROPV(split_whitespace, .quick = PART(800000))
{
    switch (KIND(5))
    {
    case 0: space_case<char>(c); break;
    case 1: space_case<wchar_t>(c); break;
    case 2: space_case<char16_t>(c); break;
    case 3: space_case<char32_t>(c); break;
    default: space_case<char8_t>(c); break;
    }
}

template<class C, class T> void any_container(pbt::Case&, const V<C>& v, const S<C>& sep, const S<C>& want, const char* name)
{
    T t(v.begin(), v.end());
    CHECK_EQ("join", pluto::join(t, sep), want, name << " " << show(v) << " joined with " << show(sep));
    CHECK_EQ("join", pluto::join(t.begin(), t.end(), sep), want, name << " iterators " << show(v) << " joined with " << show(sep));
}
template<class C> void join_case(pbt::Case& c)
{
    const auto a = alphabet<C>(c);
    V<C> v;
    const std::size_t n = c.length(10);
    for (std::size_t i = 0; i < n; ++i) v.push_back(gen<C>(c, 5, a));
    const S<C> sep = gen<C>(c, 4, a);
    const S<C> want = ref_join(v, sep);
    NOTE("join " << show(v) << " with " << show(sep));
    c.nontrivial(n > 1 && !sep.empty());
    if (n > 1 && (v.front().empty() || v[1].empty())) c.label("empty elements");
    if (n > 1 && v[0] == v[1]) c.label("equal elements");
    any_container<C, std::vector<S<C>>>(c, v, sep, want, "vector");
    any_container<C, std::list<S<C>>>(c, v, sep, want, "list");
    any_container<C, std::deque<S<C>>>(c, v, sep, want, "deque");
    any_container<C, std::forward_list<S<C>>>(c, v, sep, want, "forward_list");
    std::vector<std::basic_string_view<C>> views(v.begin(), v.end());
    CHECK_EQ("join", pluto::join(views, sep), want, "views");
    CHECK_EQ("join", pluto::join(views.data(), views.data() + views.size(), sep), want, "pointers");
    const std::multiset<S<C>> set(v.begin(), v.end());
    CHECK_EQ("join", pluto::join(set, sep), ref_join(V<C>(set.begin(), set.end()), sep), "multiset");
    if (n >= 3)
    {
        const std::array<S<C>, 3> arr{ v[0], v[1], v[2] };
        const S<C> raw[3] = { v[0], v[1], v[2] };
        const S<C> w3 = ref_join(V<C>{ v[0], v[1], v[2] }, sep);
        CHECK_EQ("join", pluto::join(arr, sep), w3, "array");
        CHECK_EQ("join", pluto::join(raw, sep), w3, "C array");
    }
    // sub-range
    if (n)
    {
        const std::size_t i = c.draw(n + 1), j = i + c.draw(n - i + 1);
        CHECK_EQ("join", pluto::join(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(j), sep), ref_join(V<C>(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(j)), sep), "sub-range");
    }
    // the inverse: pieces without the separator come back
    bool clean = !sep.empty() && n > 0;
    for (const auto& x : v) for (std::size_t i = 0; i < x.size() && clean; ++i) for (C y : sep) if (x[i] == y) clean = false;
    if (clean) { c.label("invertible"); CHECK_EQ("split(join)", pluto::split(pluto::join(v, sep), sep), v, "split of " << show(want) << " by " << show(sep)); }
    // with a mapping function: every element once, in order
    std::vector<S<C>> calls;
    const auto f = [&](const S<C>& x) { calls.push_back(x); S<C> r = x; r += x; r.push_back(ch<C>('!')); return r; };
    V<C> mapped;
    for (const auto& x : v) mapped.push_back(x + x + S<C>(1, ch<C>('!')));
    CHECK_EQ("map_join", pluto::map_join(v, sep, f), ref_join(mapped, sep), "map_join " << show(v) << " with " << show(sep));
    CHECK_EQ("map_join", calls, v, "arguments of the mapping function");
    calls.clear();
    const std::list<S<C>> lst(v.begin(), v.end());
    CHECK_EQ("map_join", pluto::map_join(lst.begin(), lst.end(), sep, f), ref_join(mapped, sep), "map_join iterators " << show(v) << " with " << show(sep));
    CHECK_EQ("map_join", calls, v, "arguments of the mapping function");
    // mapping to character pointers and views, from other element types
    const std::map<int, int> m{ { static_cast<int>(n), 1 }, { -3, 2 }, { 7, 3 } };
    V<C> keys;
    for (const auto& kv : m) keys.push_back(make<C>(std::to_string(kv.first).c_str()));
    CHECK_EQ("map_join", pluto::map_join(m, sep, [](const std::pair<const int, int>& kv) { return make<C>(std::to_string(kv.first).c_str()); }), ref_join(keys, sep), "map_join of a map");
    const std::vector<bool> bits{ true, n % 2 == 0, false };
    V<C> names;
    for (bool b : bits) names.push_back(make<C>(b ? "yes" : ""));
    CHECK_EQ("map_join", pluto::map_join(bits, sep, [](bool b) { static const S<C> yes = make<C>("yes"), no; return std::basic_string_view<C>(b ? yes : no); }), ref_join(names, sep), "map_join of a vector<bool>");
}
PROPV(join_any, .quick = PART(200000))
{
    switch (KIND(5))
    {
    case 0: join_case<char>(c); break;
    case 1: join_case<wchar_t>(c); break;
    case 2: join_case<char16_t>(c); break;
    case 3: join_case<char32_t>(c); break;
    default: join_case<char8_t>(c); break;
    }
}

// the convenience overloads for literals
#ifdef VARIANT
template<class C> void unicode_literals(pbt::Case& c)
{
    const auto a = alphabet<C>(c);
    S<C> s = gen<C>(c, 20, a), sep = gen<C>(c, 2, a);
    for (auto* x : { &s, &sep }) for (auto& ch_ : *x) if (!ch_) ch_ = ch<C>(';');
    NOTE(sizeof(C) << "-byte " << show(s) << " " << show(sep));
    c.nontrivial(s.size() > 2 && !sep.empty());
    CHECK_EQ("split", pluto::split(s.c_str(), sep.c_str()), ref_split(s, sep), "split(pointer, pointer)");
    CHECK_EQ("split", pluto::split(s, sep.c_str()), ref_split(s, sep), "split(string, pointer)");
    CHECK_EQ("split_any_of", pluto::split_any_of(s.c_str(), sep.c_str()), ref_runs<C>(s, [&](C x) { return sep.find(x) != sep.npos; }), "split_any_of(pointer, pointer)");
    const auto& l = c.pick(locales_of<C>());
    CHECK_EQ("split whitespace", pluto::split(s.c_str(), l.locale), ref_runs<C>(s, [&](C x) { return is_space(l.locale, x); }), "split(pointer, locale)");
    const std::vector<const C*> v{ s.c_str(), sep.c_str(), sep.c_str() };
    CHECK_EQ("join", pluto::join(v, sep.c_str()), s + sep + sep + sep + sep, "join(vector of pointers, pointer)");
    CHECK_EQ("map_join", pluto::map_join(v, sep.c_str(), [](const C* p) { return p; }), s + sep + sep + sep + sep, "map_join(vector of pointers, pointer)");
}
PROPV(literals, .quick = 20000)
{
    switch (c.draw(3))
    {
    case 0: unicode_literals<char16_t>(c); break;
    case 1: unicode_literals<char32_t>(c); break;
    default: unicode_literals<char8_t>(c); break;
    }
}
#else
PROP(literals, .quick = 20000)
{
    const auto a = alphabet<char>(c);
    std::string s = gen<char>(c, 20, a), sep = gen<char>(c, 2, a);
    for (auto* x : { &s, &sep }) for (auto& ch_ : *x) if (!ch_) ch_ = ';';
    NOTE(show(s) << " " << show(sep));
    c.nontrivial(s.size() > 2 && !sep.empty());
    CHECK_EQ("split", pluto::split(s.c_str(), sep.c_str()), ref_split(s, sep), "split(const char*, const char*)");
    CHECK_EQ("split_any_of", pluto::split_any_of(s.c_str(), sep.c_str()), ref_runs<char>(s, [&](char x) { return sep.find(x) != sep.npos; }), "split_any_of(const char*, const char*)");
    CHECK_EQ("split whitespace", pluto::split(s.c_str()), ref_runs<char>(s, [](char x) { return is_space(locales()[0].locale, x); }), "split(const char*)");
    const std::vector<const char*> v{ s.c_str(), "", sep.c_str() };
    CHECK_EQ("join", pluto::join(v, sep.c_str()), s + sep + sep + sep, "join(vector<const char*>, const char*)");
    CHECK_EQ("map_join", pluto::map_join(v, sep.c_str(), [](const char* p) { return p; }), s + sep + sep + sep, "map_join(vector<const char*>, const char*)");
}
#endif

// long texts, many pieces
template<class C> void large_case(pbt::Case& c)
{
    const auto a = alphabet<C>(c);
    const S<C> sep = c.flag(0.2) ? gen<C>(c, 40, a) : gen<C>(c, 4, a);
    const S<C> s = gen_long<C>(c, 140000, sep, a);
    NOTE(sizeof(C) << "-byte text " << show(s) << " and separator " << show(sep));
    c.nontrivial(s.size() > 100);
    if (s.size() > 65536) c.label("more than 65536 units");
    const V<C> want = ref_split(s, sep), got = pluto::split(s, sep);
    CHECK("split", got == want, "split of a text of " << s.size() << " units by " << show(sep) << ": " << got.size() << " pieces, expected " << want.size() << ", first difference in piece " << differ(got, want));
    if (!sep.empty() || !s.empty())
    {
        const S<C> j = pluto::join(got, sep);
        CHECK("join(split)", j == s, "joining " << got.size() << " pieces with " << show(sep) << " gives " << j.size() << " units, expected " << s.size() << ", first difference at " << differ(j, s));
    }
    const V<C> any = pluto::split_any_of(s, sep), want_any = ref_runs<C>(s, [&](C x) { for (C y : sep) if (x == y) return true; return false; });
    CHECK("split_any_of", any == want_any, "split_any_of a text of " << s.size() << " units by any of " << show(sep) << ": " << any.size() << " pieces, expected " << want_any.size());
    const std::list<S<C>> l(want.begin(), want.end());
    const S<C> bar = gen<C>(c, 3, a), wj = ref_join(want, bar), gj = pluto::join(l, bar);
    CHECK("join", gj == wj, "join of a list of " << l.size() << " strings with " << show(bar) << " differs at " << differ(gj, wj));
    std::size_t calls = 0;
    const S<C> gm = pluto::map_join(want, bar, [&](const S<C>& x) { ++calls; return x; });
    CHECK("map_join", gm == wj && calls == want.size(), "map_join of " << want.size() << " strings with " << show(bar) << " differs at " << differ(gm, wj) << ", " << calls << " calls");
}
PROPV(large_texts, .quick = PART(6000))
{
    switch (KIND(4))
    {
    case 0: large_case<char>(c); break;
    case 1: large_case<wchar_t>(c); break;
    case 2: large_case<char16_t>(c); break;
    default: large_case<char32_t>(c); break;
    }
}
template<class C> void large_space(pbt::Case& c)
{
    const auto a = alphabet<C>(c);
    const auto& l = c.pick(locales_of<C>());
    const S<C> s = gen_long<C>(c, 100000, gen<C>(c, 4, a), a);
    NOTE("split at whitespace of locale " << l.name << ": " << show(s));
    c.nontrivial(s.size() > 100);
    const V<C> want = ref_runs<C>(s, [&](C x) { return is_space(l.locale, x); }), got = pluto::split(s, std::locale(l.locale));
    CHECK("split whitespace", got == want, "split of a text of " << s.size() << " units with locale " << l.name << ": " << got.size() << " pieces, expected " << want.size() << ", first difference in piece " << differ(got, want));
}
PROPV(large_whitespace, .quick = PART(3000))
{
    switch (KIND(4))
    {
    case 0: large_space<char>(c); break;
    case 1: large_space<wchar_t>(c); break;
    case 2: large_space<char16_t>(c); break;
    default: large_space<char32_t>(c); break;
    }
}
}

#ifndef VARIANT
int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P04", "cases: strings of five character types over tiny and full alphabets built around the separator; non-trivial: at least two pieces / elements and a non-empty separator");
}
#endif
