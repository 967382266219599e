// P10: sequence search and comparison.  Compiled twice (C++20, and C++17 with the namespace renamed).
#include "pbt.hpp"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string_view>
#include <vector>
#include <pluto/string.hpp>
using pbt::show;
#define NAME2(a, b) a##_##b
#define NAME1(a, b) NAME2(a, b)
#define PROP2(name, ...) PROP(name, __VA_ARGS__)
#define VPROP(name, ...) PROP2(NAME1(name, VARIANT), __VA_ARGS__)

namespace
{
typedef std::vector<int> Seq;

// elements that know which sequence they belong to, so that swapped arguments are seen
struct L { int v; };
struct R { int v; };
template<class T> std::vector<T> tag(const Seq& s) { std::vector<T> r; for (int x : s) r.push_back(T{ x }); return r; }

enum Kind { EQUAL, LESS_EQUAL, DOUBLE_OF, NEVER, ALWAYS, DIVIDES, KINDS };
bool related(int kind, int l, int r)
{
    switch (kind)
    {
    case EQUAL: return l == r;
    case LESS_EQUAL: return l <= r;
    case DOUBLE_OF: return l == 2 * r || l == r + 1;
    case NEVER: return false;
    case ALWAYS: return true;
    default: return r != 0 && l % r == 0;
    }
}
// callable with (left, right) only in that order
struct Pred
{
    int kind;
    bool operator()(const L& l, const R& r) const { return related(kind, l.v, r.v); }
    bool operator()(const R& r, const L& l) const { pbt::fail("predicate order", "the predicate received (right, left) = (" + std::to_string(r.v) + ", " + std::to_string(l.v) + ")"); return related(kind, l.v, r.v); }
};
struct IntPred
{
    int kind;
    bool operator()(int l, int r) const { return related(kind, l, r); }
};

bool match(int kind, const Seq& l, std::size_t at, const Seq& r)
{
    if (at + r.size() > l.size()) return false;
    for (std::size_t i = 0; i < r.size(); ++i) if (!related(kind, l[at + i], r[i])) return false;
    return true;
}
const std::size_t NONE = static_cast<std::size_t>(-1);
struct Answers { bool equals, starts, ends, has; std::size_t first, last; };
Answers answers(int kind, const Seq& l, const Seq& r)
{
    Answers a{};
    a.equals = l.size() == r.size() && match(kind, l, 0, r);
    a.starts = match(kind, l, 0, r);
    a.ends = l.size() >= r.size() && match(kind, l, l.size() - r.size(), r);
    a.first = a.last = NONE;
    for (std::size_t i = 0; i + r.size() <= l.size(); ++i) if (match(kind, l, i, r)) { if (a.first == NONE) a.first = i; a.last = i; }
    a.has = a.first != NONE;
    if (a.first == NONE) a.first = a.last = l.size();
    return a;
}

template<class Cont> std::size_t index_of(const Cont& k, decltype(std::begin(std::declval<const Cont&>())) it)
{
    return static_cast<std::size_t>(std::distance(std::begin(k), it));
}

// all functions on two containers; kinds of containers are the template arguments
template<bool bidirectional, class CL, class CR, class P>
void on_containers(const CL& l, const CR& r, const Answers& a, P pred, const std::string& what)
{
    CHECK_EQ("equals", pluto::equals(l, r, pred), a.equals, "equals" << what);
    CHECK_EQ("starts_with", pluto::starts_with(l, r, pred), a.starts, "starts_with" << what);
    CHECK_EQ("find_sequence", index_of(l, pluto::find_sequence(l, r, pred)), a.first, "find_sequence" << what);
    CHECK_EQ("rfind_sequence", index_of(l, pluto::rfind_sequence(l, r, pred)), a.last, "rfind_sequence" << what);
    CHECK_EQ("contains_sequence", pluto::contains_sequence(l, r, pred), a.has, "contains_sequence" << what);
    const auto lb = std::begin(l), le = std::end(l);
    const auto rb = std::begin(r), re = std::end(r);
    CHECK_EQ("equals", pluto::equals(lb, le, rb, re, pred), a.equals, "equals(iterators)" << what);
    CHECK_EQ("starts_with", pluto::starts_with(lb, le, rb, re, pred), a.starts, "starts_with(iterators)" << what);
    CHECK_EQ("find", index_of(l, pluto::find(lb, le, rb, re, pred)), a.first, "find(iterators)" << what);
    CHECK_EQ("rfind", index_of(l, pluto::rfind(lb, le, rb, re, pred)), a.last, "rfind(iterators)" << what);
    CHECK_EQ("contains", pluto::contains(lb, le, rb, re, pred), a.has, "contains(iterators)" << what);
    if (std::distance(lb, le) <= std::distance(rb, re)) CHECK_EQ("equals_same_size", pluto::equals_same_size(lb, le, rb, pred), (a.equals || (std::distance(lb, le) < std::distance(rb, re) && pluto::equals_same_size(lb, le, rb, pred))), "equals_same_size" << what);
    if constexpr (bidirectional)
    {
        CHECK_EQ("ends_with", pluto::ends_with(l, r, pred), a.ends, "ends_with" << what);
        CHECK_EQ("ends_with", pluto::ends_with(lb, le, rb, re, pred), a.ends, "ends_with(iterators)" << what);
    }
}
// default predicate
template<bool bidirectional, class CL, class CR>
void on_containers_default(const CL& l, const CR& r, const Answers& a, const std::string& what)
{
    CHECK_EQ("equals", pluto::equals(l, r), a.equals, "equals" << what);
    CHECK_EQ("starts_with", pluto::starts_with(l, r), a.starts, "starts_with" << what);
    CHECK_EQ("find_sequence", index_of(l, pluto::find_sequence(l, r)), a.first, "find_sequence" << what);
    CHECK_EQ("rfind_sequence", index_of(l, pluto::rfind_sequence(l, r)), a.last, "rfind_sequence" << what);
    CHECK_EQ("contains_sequence", pluto::contains_sequence(l, r), a.has, "contains_sequence" << what);
    const auto lb = std::begin(l), le = std::end(l);
    const auto rb = std::begin(r), re = std::end(r);
    CHECK_EQ("equals", pluto::equals(lb, le, rb, re), a.equals, "equals(iterators)" << what);
    CHECK_EQ("starts_with", pluto::starts_with(lb, le, rb, re), a.starts, "starts_with(iterators)" << what);
    CHECK_EQ("find", index_of(l, pluto::find(lb, le, rb, re)), a.first, "find(iterators)" << what);
    CHECK_EQ("rfind", index_of(l, pluto::rfind(lb, le, rb, re)), a.last, "rfind(iterators)" << what);
    CHECK_EQ("contains", pluto::contains(lb, le, rb, re), a.has, "contains(iterators)" << what);
    if (std::distance(lb, le) == std::distance(rb, re)) CHECK_EQ("equals_same_size", pluto::equals_same_size(lb, le, rb), a.equals, "equals_same_size" << what);
    if constexpr (bidirectional)
    {
        CHECK_EQ("ends_with", pluto::ends_with(l, r), a.ends, "ends_with" << what);
        CHECK_EQ("ends_with", pluto::ends_with(lb, le, rb, re), a.ends, "ends_with(iterators)" << what);
    }
}

Seq gen(pbt::Case& c, std::size_t max, int symbols)
{
    Seq s;
    const std::size_t n = c.length(max);
    for (std::size_t i = 0; i < n; ++i) s.push_back(static_cast<int>(c.draw(static_cast<std::uint64_t>(symbols))));
    return s;
}
void gen_pair(pbt::Case& c, Seq& l, Seq& r)
{
    const int symbols = 1 + static_cast<int>(c.draw(4));
    r = gen(c, 5, symbols);
    const std::size_t pieces = c.length(8);
    for (std::size_t i = 0; i < pieces; ++i)
        switch (c.draw(3))
        {
        case 0: l.push_back(static_cast<int>(c.draw(static_cast<std::uint64_t>(symbols)))); break;
        case 1: l.insert(l.end(), r.begin(), r.end()); break;
        default: l.insert(l.end(), r.begin(), r.begin() + static_cast<long>(c.draw(r.size() + 1)));
        }
    if (c.flag(0.1)) l = r;
}
}

#ifndef OVERLOADS
VPROP(sequences, .quick = 60000)
{
    Seq l, r;
    gen_pair(c, l, r);
    const int kind = static_cast<int>(c.draw(KINDS));
    const Answers a = answers(kind, l, r), e = answers(EQUAL, l, r);
    NOTE(show(l) << " and " << show(r) << " under relation " << kind);
    c.nontrivial(a.has && !r.empty() && l.size() > r.size());
    if (a.has && a.first != a.last) c.label("several occurrences");
    if (a.has != match(kind, r, 0, l)) c.label("asymmetric answer");
    if (r.empty()) c.label("empty second sequence");
    const std::string what = " of " + show(l) + " and " + show(r) + " under relation " + std::to_string(kind);
    const std::string whate = " of " + show(l) + " and " + show(r);
    const auto tl = tag<L>(l);
    const auto tr = tag<R>(r);
    const Pred p{ kind };
    on_containers<true>(tl, tr, a, p, what + " (vector,vector)");
    on_containers<true>(std::list<L>(tl.begin(), tl.end()), std::list<R>(tr.begin(), tr.end()), a, p, what + " (list,list)");
    on_containers<true>(std::deque<L>(tl.begin(), tl.end()), std::vector<R>(tr), a, p, what + " (deque,vector)");
    on_containers<true>(std::vector<L>(tl), std::list<R>(tr.begin(), tr.end()), a, p, what + " (vector,list)");
    on_containers<true>(std::list<L>(tl.begin(), tl.end()), std::vector<R>(tr), a, p, what + " (list,vector)");
    on_containers<false>(std::forward_list<L>(tl.begin(), tl.end()), std::forward_list<R>(tr.begin(), tr.end()), a, p, what + " (forward_list,forward_list)");
    on_containers<false>(std::forward_list<L>(tl.begin(), tl.end()), std::deque<R>(tr.begin(), tr.end()), a, p, what + " (forward_list,deque)");
    // plain integers: default predicate and the relation as a function object, function pointer, lambda
    on_containers_default<true>(l, r, e, whate + " (vector,vector)");
    on_containers_default<true>(std::list<int>(l.begin(), l.end()), std::deque<long>(r.begin(), r.end()), e, whate + " (list<int>,deque<long>)");
    on_containers_default<true>(std::deque<int>(l.begin(), l.end()), r, e, whate + " (deque,vector)");
    on_containers_default<false>(std::forward_list<int>(l.begin(), l.end()), std::list<int>(r.begin(), r.end()), e, whate + " (forward_list,list)");
    on_containers<true>(l, r, a, IntPred{ kind }, what + " (ints)");
    on_containers<true>(l, r, a, [kind](int x, int y) { return related(kind, x, y); }, what + " (lambda)");
    on_containers<true>(l, r, e, +[](int x, int y) { return x == y; }, whate + " (function pointer)");
    // arrays and exact heap memory through pointers
    std::unique_ptr<int[]> pl(new int[l.size()]), pr(new int[r.size()]);
    std::copy(l.begin(), l.end(), pl.get());
    std::copy(r.begin(), r.end(), pr.get());
    const int *lb = pl.get(), *le = lb + l.size(), *rb = pr.get(), *re = rb + r.size();
    CHECK_EQ("equals", pluto::equals(lb, le, rb, re, IntPred{ kind }), a.equals, "equals(pointers)" << what);
    CHECK_EQ("starts_with", pluto::starts_with(lb, le, rb, re, IntPred{ kind }), a.starts, "starts_with(pointers)" << what);
    CHECK_EQ("ends_with", pluto::ends_with(lb, le, rb, re, IntPred{ kind }), a.ends, "ends_with(pointers)" << what);
    CHECK_EQ("find", static_cast<std::size_t>(pluto::find(lb, le, rb, re, IntPred{ kind }) - lb), a.first, "find(pointers)" << what);
    CHECK_EQ("rfind", static_cast<std::size_t>(pluto::rfind(lb, le, rb, re, IntPred{ kind }) - lb), a.last, "rfind(pointers)" << what);
    CHECK_EQ("contains", pluto::contains(lb, le, rb, re, IntPred{ kind }), a.has, "contains(pointers)" << what);
    // pointer and size forms
    CHECK_EQ("equals", pluto::equals(lb, l.size(), rb, r.size(), IntPred{ kind }), a.equals, "equals(pointer, size)" << what);
    CHECK_EQ("starts_with", pluto::starts_with(lb, l.size(), rb, r.size(), IntPred{ kind }), a.starts, "starts_with(pointer, size)" << what);
    CHECK_EQ("ends_with", pluto::ends_with(lb, l.size(), rb, r.size(), IntPred{ kind }), a.ends, "ends_with(pointer, size)" << what);
    CHECK_EQ("find", static_cast<std::size_t>(pluto::find(lb, l.size(), rb, r.size(), IntPred{ kind }) - lb), a.first, "find(pointer, size)" << what);
    CHECK_EQ("rfind", static_cast<std::size_t>(pluto::rfind(lb, l.size(), rb, r.size(), IntPred{ kind }) - lb), a.last, "rfind(pointer, size)" << what);
    CHECK_EQ("contains", pluto::contains(lb, l.size(), rb, r.size(), IntPred{ kind }), a.has, "contains(pointer, size)" << what);
}

#endif
namespace
{
template<class C> void strings_of(pbt::Case& c)
{
    Seq l, r;
    gen_pair(c, l, r);
    const int kind = static_cast<int>(c.draw(KINDS));
    std::basic_string<C> sl, sr;
    for (int x : l) sl.push_back(static_cast<C>(x));
    for (int x : r) sr.push_back(static_cast<C>(x));
    const Answers a = answers(kind, l, r), e = answers(EQUAL, l, r);
    NOTE("strings " << show(l) << " and " << show(r) << " under relation " << kind);
    c.nontrivial(e.has && !r.empty());
    const std::string what = " of the strings " + show(l) + " and " + show(r) + " under relation " + std::to_string(kind);
    const auto p = [kind](C x, C y) { return related(kind, static_cast<int>(x), static_cast<int>(y)); };
    const std::basic_string<C>&cl = sl, &cr = sr;
    CHECK_EQ("equals", pluto::equals(cl, cr), e.equals, "equals" << what);
    CHECK_EQ("starts_with", pluto::starts_with(cl, cr), e.starts, "starts_with" << what);
    CHECK_EQ("ends_with", pluto::ends_with(cl, cr), e.ends, "ends_with" << what);
    CHECK_EQ("find", static_cast<std::size_t>(pluto::find(cl, cr) - cl.begin()), e.first, "find" << what);
    CHECK_EQ("rfind", static_cast<std::size_t>(pluto::rfind(cl, cr) - cl.begin()), e.last, "rfind" << what);
    CHECK_EQ("contains", pluto::contains(cl, cr), e.has, "contains" << what);
    CHECK_EQ("equals", pluto::equals(cl, cr, p), a.equals, "equals(pred)" << what);
    CHECK_EQ("starts_with", pluto::starts_with(cl, cr, p), a.starts, "starts_with(pred)" << what);
    CHECK_EQ("ends_with", pluto::ends_with(cl, cr, p), a.ends, "ends_with(pred)" << what);
    CHECK_EQ("find", static_cast<std::size_t>(pluto::find(cl, cr, p) - cl.begin()), a.first, "find(pred)" << what);
    CHECK_EQ("rfind", static_cast<std::size_t>(pluto::rfind(cl, cr, p) - cl.begin()), a.last, "rfind(pred)" << what);
    CHECK_EQ("contains", pluto::contains(cl, cr, p), a.has, "contains(pred)" << what);
    CHECK_EQ("find", static_cast<std::size_t>(pluto::find(sl, sr, p) - sl.begin()), a.first, "find in a string that may be changed" << what);
    CHECK_EQ("rfind", static_cast<std::size_t>(pluto::rfind(sl, sr, p) - sl.begin()), a.last, "rfind in a string that may be changed" << what);
    const C *pl = cl.data(), *pr = cr.data();
#ifdef OVERLOADS
    {   // texts without the unit 0, given as pointers
        std::basic_string<C> zl, zr;
        for (int x : l) zl.push_back(static_cast<C>(x + 1));
        for (int x : r) zr.push_back(static_cast<C>(x + 1));
        const C* z = zr.c_str();
        CHECK_EQ("find", static_cast<std::size_t>(pluto::find(zl, z) - zl.begin()), e.first, "find(string, pointer)" << what);
        CHECK_EQ("rfind", static_cast<std::size_t>(pluto::rfind(zl, z) - zl.begin()), e.last, "rfind(string, pointer)" << what);
        CHECK_EQ("contains", pluto::contains(zl, z), e.has, "contains(string, pointer)" << what);
    }
#endif
    CHECK_EQ("equals", pluto::equals(pl, cl.size(), pr, cr.size()), e.equals, "equals(pointer, size)" << what);
    CHECK_EQ("starts_with", pluto::starts_with(pl, cl.size(), pr, cr.size()), e.starts, "starts_with(pointer, size)" << what);
    CHECK_EQ("ends_with", pluto::ends_with(pl, cl.size(), pr, cr.size()), e.ends, "ends_with(pointer, size)" << what);
    CHECK_EQ("find", static_cast<std::size_t>(pluto::find(pl, cl.size(), pr, cr.size()) - pl), e.first, "find(pointer, size)" << what);
    CHECK_EQ("rfind", static_cast<std::size_t>(pluto::rfind(pl, cl.size(), pr, cr.size()) - pl), e.last, "rfind(pointer, size)" << what);
    CHECK_EQ("contains", pluto::contains(pl, cl.size(), pr, cr.size()), e.has, "contains(pointer, size)" << what);
    const std::basic_string_view<C> vl(sl), vr(sr);
    on_containers_default<true>(vl, vr, e, what + " (views)");
    on_containers<true>(vl, vr, a, p, what + " (views)");
}
}
VPROP(strings, .quick = 80000)
{
#ifdef OVERLOADS
    switch (2 + c.draw(3)) // Unicode strings only
#else
    switch (c.draw(5))
#endif
    {
    case 0: strings_of<char>(c); break;
    case 1: strings_of<wchar_t>(c); break;
    case 2: strings_of<char16_t>(c); break;
#ifdef __cpp_char8_t
    case 4: strings_of<char8_t>(c); break;
#endif
    default: strings_of<char32_t>(c); break;
    }
}
#ifndef OVERLOADS

namespace
{
template<class K> void single(const K& k, const Seq& s, int x, const std::string& what)
{
    const auto is = [x](const auto& e) { return e == x; };
    std::size_t first = s.size(), last = s.size(), nfirst = s.size(), nlast = s.size();
    for (std::size_t i = 0; i < s.size(); ++i)
        if (s[i] == x) { if (first == s.size()) first = i; last = i; }
        else { if (nfirst == s.size()) nfirst = i; nlast = i; }
    const auto b = std::begin(k), e = std::end(k);
    CHECK_EQ("find_elem", index_of(k, pluto::find_elem(k, x)), first, "find_elem" << what);
    CHECK_EQ("rfind_elem", index_of(k, pluto::rfind_elem(k, x)), last, "rfind_elem" << what);
    CHECK_EQ("contains_elem", pluto::contains_elem(k, x), (first < s.size()), "contains_elem" << what);
    CHECK_EQ("find_if", index_of(k, pluto::find_if(k, is)), first, "find_if" << what);
    CHECK_EQ("rfind_if", index_of(k, pluto::rfind_if(k, is)), last, "rfind_if" << what);
    CHECK_EQ("find_if_not", index_of(k, pluto::find_if_not(k, is)), nfirst, "find_if_not" << what);
    CHECK_EQ("rfind_if_not", index_of(k, pluto::rfind_if_not(k, is)), nlast, "rfind_if_not" << what);
    CHECK_EQ("find", index_of(k, pluto::find(b, e, x)), first, "find(iterators, element)" << what);
    CHECK_EQ("rfind", index_of(k, pluto::rfind(b, e, x)), last, "rfind(iterators, element)" << what);
    CHECK_EQ("contains", pluto::contains(b, e, x), (first < s.size()), "contains(iterators, element)" << what);
    CHECK_EQ("find_if", index_of(k, pluto::find_if(b, e, is)), first, "find_if(iterators)" << what);
    CHECK_EQ("rfind_if", index_of(k, pluto::rfind_if(b, e, is)), last, "rfind_if(iterators)" << what);
    CHECK_EQ("find_if_not", index_of(k, pluto::find_if_not(b, e, is)), nfirst, "find_if_not(iterators)" << what);
    CHECK_EQ("rfind_if_not", index_of(k, pluto::rfind_if_not(b, e, is)), nlast, "rfind_if_not(iterators)" << what);
}
}
VPROP(elements, .quick = 200000)
{
    const int symbols = 1 + static_cast<int>(c.draw(4));
    const Seq s = gen(c, 12, symbols);
    const int x = static_cast<int>(c.draw(static_cast<std::uint64_t>(symbols) + 1));
    const auto n = std::count(s.begin(), s.end(), x);
    NOTE("look for " << x << " in " << show(s));
    c.nontrivial(n > 0 && static_cast<std::size_t>(n) < s.size());
    if (n > 1) c.label("several occurrences");
    const std::string what = " of " + std::to_string(x) + " in " + show(s);
    single(s, s, x, what + " (vector)");
    single(std::list<int>(s.begin(), s.end()), s, x, what + " (list)");
    single(std::deque<long long>(s.begin(), s.end()), s, x, what + " (deque<long long>)");
    std::multiset<int> m(s.begin(), s.end());
    single(m, Seq(m.begin(), m.end()), x, what + " (multiset)");
    std::unique_ptr<int[]> p(new int[s.size()]);
    std::copy(s.begin(), s.end(), p.get());
    const int *b = p.get(), *e = b + s.size();
    const auto is = [x](int v) { return v == x; };
    const auto first = std::find(s.begin(), s.end(), x) - s.begin();
    long last = static_cast<long>(s.size()), nlast = last;
    for (std::size_t i = 0; i < s.size(); ++i) (s[i] == x ? last : nlast) = static_cast<long>(i);
    CHECK_EQ("find", (pluto::find(b, e, x) - b), first, "find(pointers, element)" << what);
    CHECK_EQ("rfind", (pluto::rfind(b, e, x) - b), last, "rfind(pointers, element)" << what);
    CHECK_EQ("rfind_if", (pluto::rfind_if(b, e, is) - b), last, "rfind_if(pointers)" << what);
    CHECK_EQ("rfind_if_not", (pluto::rfind_if_not(b, e, is) - b), nlast, "rfind_if_not(pointers)" << what);
    CHECK_EQ("contains", pluto::contains(b, e, x), n > 0, "contains(pointers, element)" << what);
    if (s.size() >= 4)
    {
        const std::array<int, 4> a{ { s[0], s[1], s[2], s[3] } };
        single(a, Seq(a.begin(), a.end()), x, what + " (array)");
        const int raw[4] = { s[0], s[1], s[2], s[3] };
        single(raw, Seq(raw, raw + 4), x, what + " (C array)");
    }
}

namespace
{
template<class CL, class CR> void large_on(const CL& l, const CR& r, const Answers& a, const std::string& what)
{
    CHECK_EQ("equals", pluto::equals(l, r), a.equals, "equals" << what);
    CHECK_EQ("starts_with", pluto::starts_with(l, r), a.starts, "starts_with" << what);
    CHECK_EQ("ends_with", pluto::ends_with(l, r), a.ends, "ends_with" << what);
    CHECK_EQ("find_sequence", index_of(l, pluto::find_sequence(l, r)), a.first, "find_sequence" << what);
    CHECK_EQ("rfind_sequence", index_of(l, pluto::rfind_sequence(l, r)), a.last, "rfind_sequence" << what);
    CHECK_EQ("contains_sequence", pluto::contains_sequence(l, r), a.has, "contains_sequence" << what);
}
}
// long sequences: a haystack with the needle planted at drawn places
VPROP(large, .quick = 3000)
{
    const std::size_t n = c.large(100000), m = c.flag(0.7) ? c.draw(6) : c.large(3000);
    Seq r, l;
    const int period = 1 + static_cast<int>(c.draw(5));
    for (std::size_t i = 0; i < m; ++i) r.push_back(1 + static_cast<int>(i) % period);
    const int filler = static_cast<int>(c.draw(3));
    for (std::size_t i = 0; i < n; ++i) l.push_back(filler == 0 ? 0 : filler == 1 ? 1 : static_cast<int>(i % 7));
    for (std::size_t k = c.draw(4); k-- > 0;)
    {
        if (m > n) break;
        const std::size_t at = c.flag(0.3) ? n - m : c.flag(0.2) ? 0 : c.large(n - m);
        std::copy(r.begin(), r.end(), l.begin() + static_cast<long>(at));
        if (m && c.flag(0.3)) l[at + m - 1] = 9;    // nearly
    }
    if (c.flag(0.1)) l = r;
    if (filler == 1 && m > 10 && n > 10000) r.resize(10);   // a search in it is quadratic
    const Answers a = answers(EQUAL, l, r);
    NOTE("needle of " << r.size() << " in " << l.size() << ", first at " << a.first << ", last at " << a.last);
    c.nontrivial(l.size() > 100 && a.has && !r.empty());
    if (a.has && a.first > 65536) c.label("first occurrence beyond 65536");
    const std::string what = " of sequences of " + std::to_string(l.size()) + " and " + std::to_string(r.size()) + " elements";
    switch (c.draw(4))
    {
    case 0: large_on(l, r, a, what + " (vector)"); break;
    case 1: large_on(std::list<int>(l.begin(), l.end()), std::list<int>(r.begin(), r.end()), a, what + " (list)"); break;
    case 2: large_on(std::deque<int>(l.begin(), l.end()), r, a, what + " (deque, vector)"); break;
    default:
    {
        const std::string sl(l.begin(), l.end()), sr(r.begin(), r.end());
        CHECK_EQ("find", static_cast<std::size_t>(pluto::find(sl, sr) - sl.begin()), a.first, "find of strings" << what);
        CHECK_EQ("rfind", static_cast<std::size_t>(pluto::rfind(sl, sr) - sl.begin()), a.last, "rfind of strings" << what);
        CHECK_EQ("find", static_cast<std::size_t>(pluto::find(sl.data(), sl.size(), sr.data(), sr.size()) - sl.data()), a.first, "find of pointers" << what);
        CHECK_EQ("rfind", static_cast<std::size_t>(pluto::rfind(sl.data(), sl.size(), sr.data(), sr.size()) - sl.data()), a.last, "rfind of pointers" << what);
    }
    }
    const int x = 9;
    const auto first = static_cast<std::size_t>(std::find(l.begin(), l.end(), x) - l.begin());
    std::size_t last = l.size();
    for (std::size_t i = 0; i < l.size(); ++i) if (l[i] == x) last = i;
    CHECK_EQ("find_elem", index_of(l, pluto::find_elem(l, x)), first, "find_elem" << what);
    CHECK_EQ("rfind_elem", index_of(l, pluto::rfind_elem(l, x)), last, "rfind_elem" << what);
    CHECK_EQ("contains_elem", pluto::contains_elem(l, x), (first < l.size()), "contains_elem" << what);
}
#endif
