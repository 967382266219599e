// P09: case-insensitive matching.  Compiled three times: one object has locale caching off, one has the overloads for Unicode
// strings on (namespace renamed).
#include "strings.hpp"
#include <pluto/string.hpp>
#include <memory>
using namespace str;
using pbt::show;
#ifndef VARIANT
#define VARIANT cached
#endif
#define NAME2(a, b) a##_##b
#define NAME1(a, b) NAME2(a, b)
#define VPROP(name, ...) PROP2(NAME1(name, VARIANT), __VA_ARGS__)
#define PROP2(name, ...) PROP(name, __VA_ARGS__)
#ifdef OVERLOADS
#define KIND 2 + c.draw(3) // Unicode strings only
#define PART(n) (n / 4)
#else
#define KIND c.draw(5)
#define PART(n) n
#endif
#define FOR_KIND(function) \
    switch (KIND) \
    { \
    case 0: function<char>(c); break; \
    case 1: function<wchar_t>(c); break; \
    case 2: function<char16_t>(c); break; \
    case 3: function<char32_t>(c); break; \
    default: function<char8_t>(c); break; \
    }

namespace
{
template<class C> C fold(const std::locale& l, C x) { return std::use_facet<std::ctype<C>>(l).toupper(x); }

template<class C> struct Six
{
    std::unique_ptr<pluto::is_iequal<C>> eq; std::unique_ptr<pluto::is_not_iequal<C>> ne; std::unique_ptr<pluto::is_iless<C>> lt;
    std::unique_ptr<pluto::is_igreater<C>> gt; std::unique_ptr<pluto::is_iless_equal<C>> le; std::unique_ptr<pluto::is_igreater_equal<C>> ge;
    void make(const std::locale& l)
    {
        eq.reset(new pluto::is_iequal<C>(l)); ne.reset(new pluto::is_not_iequal<C>(l)); lt.reset(new pluto::is_iless<C>(l));
        gt.reset(new pluto::is_igreater<C>(l)); le.reset(new pluto::is_iless_equal<C>(l)); ge.reset(new pluto::is_igreater_equal<C>(l));
    }
    void make_default()
    {
        eq.reset(new pluto::is_iequal<C>()); ne.reset(new pluto::is_not_iequal<C>()); lt.reset(new pluto::is_iless<C>());
        gt.reset(new pluto::is_igreater<C>()); le.reset(new pluto::is_iless_equal<C>()); ge.reset(new pluto::is_igreater_equal<C>());
    }
    void copy_from(const Six& o)
    {
        eq.reset(new pluto::is_iequal<C>(*o.eq)); ne.reset(new pluto::is_not_iequal<C>(*o.ne)); lt.reset(new pluto::is_iless<C>(*o.lt));
        gt.reset(new pluto::is_igreater<C>(*o.gt)); le.reset(new pluto::is_iless_equal<C>(*o.le)); ge.reset(new pluto::is_igreater_equal<C>(*o.ge));
    }
};
// a locale that lives only in this call, with facets of its own
inline std::locale fresh(std::size_t kind, bool unicode = false)
{
    if (unicode) return with_unicode(fresh(kind));
    switch (kind)
    {
    case 0: return std::locale("en_US.UTF-8");
    case 1: return std::locale::classic();
    default: return std::locale(std::locale(std::locale::classic(), new OddCtype), new OddWide);
    }
}
template<class C> void comparators(pbt::Case& c)
{
    const auto a = alphabet<C>(c);
    const std::size_t kind = c.draw(3);
    const std::locale keep = locales_of<C>()[kind].locale;
    constexpr bool unicode = !standard_facet<C>;
    Six<C> six;
    const std::size_t how = c.draw(4);
    if (how == 0) { const auto temporary = std::make_unique<std::locale>(fresh(kind, unicode)); six.make(*temporary); }
    else if (how == 1) six.make(fresh(kind, unicode));
    else if (how == 2 && kind == 0 && !unicode) { if constexpr (!unicode) six.make_default(); }
    else
    {   // copies outlive the original
        Six<C> original;
        original.make(fresh(kind, unicode));
        six.copy_from(original);
    }
    // locales come and go before the comparison
    { std::vector<std::locale> churn; for (std::size_t i = c.draw(4); i-- > 0;) churn.push_back(fresh(2)); }
    static const char letters[] = { 'a', 'A', 'b', 'B', 'z', 'Z', 'q', 'Q', '!', '?', '_', '\xe9', '\xc9', '[', '{' };
    const auto gen1 = [&]() -> C { return c.flag(0.6) ? ch<C>(c.pick(letters)) : symbol(c, a); };
    const std::size_t n = 1 + c.draw(6);
    std::vector<C> xs;
    for (std::size_t i = 0; i < n; ++i) xs.push_back(gen1());
    NOTE("comparators from a locale of kind " << kind << ", made by method " << how << ": " << pbt::show_units(xs.data(), xs.size()));
    bool same = false;
    for (C x : xs)
        for (C y : xs)
        {
            const C u = fold(keep, x), v = fold(keep, y);
            same |= x != y && u == v;
            const std::string what = " of " + pbt::show_units(&x, 1) + " and " + pbt::show_units(&y, 1) + ", locale kind " + std::to_string(kind);
            CHECK_EQ("is_iequal", (*six.eq)(x, y), (u == v), "is_iequal" << what);
            CHECK_EQ("is_not_iequal", (*six.ne)(x, y), (u != v), "is_not_iequal" << what);
            CHECK_EQ("is_iless", (*six.lt)(x, y), (u < v), "is_iless" << what);
            CHECK_EQ("is_igreater", (*six.gt)(x, y), (u > v), "is_igreater" << what);
            CHECK_EQ("is_iless_equal", (*six.le)(x, y), (u <= v), "is_iless_equal" << what);
            CHECK_EQ("is_igreater_equal", (*six.ge)(x, y), (u >= v), "is_igreater_equal" << what);
        }
    c.nontrivial(same);
    if (same) c.label("equal only after folding");
}
template<class C> void strings_case(pbt::Case& c)
{
    auto a = alphabet<C>(c);
    if (c.flag(0.6)) { a.wide = false; a.symbols = { ch<C>('a'), ch<C>('A'), ch<C>('b'), ch<C>('B') }; if (c.flag(0.3)) a.symbols.push_back(ch<C>('q')), a.symbols.push_back(ch<C>('Q')), a.symbols.push_back(ch<C>('\xe9')), a.symbols.push_back(ch<C>('\xc9')); }
    const S<C> r = gen<C>(c, 5, a);
    S<C> l;
    const auto& loc = c.pick(locales_of<C>());
    const auto& f = std::use_facet<std::ctype<C>>(loc.locale);
    // left contains variants of right that differ in case
    const std::size_t pieces = c.length(5);
    for (std::size_t i = 0; i < pieces; ++i)
        switch (c.draw(3))
        {
        case 0: l += gen<C>(c, 3, a); break;
        default: for (C x : r) l.push_back(c.flag(0.5) ? (f.is(std::ctype_base::upper, x) ? f.tolower(x) : f.toupper(x)) : x); break;
        }
    NOTE("locale " << loc.name << " left " << show(l) << " right " << show(r));
    c.label(loc.name);
    S<C> L = l, R = r;
    for (C& x : L) x = f.toupper(x);
    for (C& x : R) x = f.toupper(x);
    const auto first = L.find(R), last = L.rfind(R);
    const bool has = first != S<C>::npos;
    c.nontrivial(has && l.find(r) == S<C>::npos);
    const std::size_t want_first = has ? first : l.size(), want_last = has ? last : l.size();
    const std::locale& o = loc.locale;
    const std::string what = " of " + show(l) + " and " + show(r) + ", locale " + loc.name;
    const auto pos = [&](auto it) { return static_cast<std::size_t>(it - l.begin()); };
    const S<C>& cl = l;
    const auto cpos = [&](auto it) { return static_cast<std::size_t>(it - cl.begin()); };
    CHECK_EQ("iequals", pluto::iequals(l, r, o), (L == R), "iequals" << what);
    CHECK_EQ("istarts_with", pluto::istarts_with(l, r, o), (L.compare(0, R.size(), R) == 0), "istarts_with" << what);
    const bool ends = L.size() >= R.size() && L.compare(L.size() - R.size(), R.size(), R) == 0;
    CHECK_EQ("iends_with", pluto::iends_with(l, r, o), ends, "iends_with" << what);
    CHECK_EQ("ifind", cpos(pluto::ifind(cl, r, o)), want_first, "ifind" << what);
    CHECK_EQ("irfind", cpos(pluto::irfind(cl, r, o)), want_last, "irfind" << what);
    CHECK_EQ("icontains", pluto::icontains(l, r, o), has, "icontains" << what);
    CHECK_EQ("icontains", pluto::icontains(l, r, std::locale(o)), has, "icontains(temporary locale)" << what);
    // pointers
    const C *p = l.data(), *q = r.data();
    const std::size_t n = l.size(), m = r.size();
    CHECK_EQ("iequals", pluto::iequals(p, n, q, m, o), (L == R), "iequals(pointers)" << what);
    CHECK_EQ("istarts_with", pluto::istarts_with(p, n, q, m, o), (L.compare(0, R.size(), R) == 0), "istarts_with(pointers)" << what);
    CHECK_EQ("iends_with", pluto::iends_with(p, n, q, m, o), ends, "iends_with(pointers)" << what);
    CHECK_EQ("ifind", static_cast<std::size_t>(pluto::ifind(p, n, q, m, o) - p), want_first, "ifind(pointers)" << what);
    CHECK_EQ("irfind", static_cast<std::size_t>(pluto::irfind(p, n, q, m, o) - p), want_last, "irfind(pointers)" << what);
    CHECK_EQ("icontains", pluto::icontains(p, n, q, m, o), has, "icontains(pointers)" << what);
    if constexpr (standard_facet<C>) if (loc.is_default)
    {
        CHECK_EQ("iequals", pluto::iequals(l, r), (L == R), "iequals(default locale)" << what);
        CHECK_EQ("istarts_with", pluto::istarts_with(l, r), (L.compare(0, R.size(), R) == 0), "istarts_with(default locale)" << what);
        CHECK_EQ("iends_with", pluto::iends_with(l, r), ends, "iends_with(default locale)" << what);
        CHECK_EQ("ifind", pos(pluto::ifind(l, r)), want_first, "ifind(default locale)" << what);
        CHECK_EQ("irfind", pos(pluto::irfind(l, r)), want_last, "irfind(default locale)" << what);
        CHECK_EQ("icontains", pluto::icontains(l, r), has, "icontains(default locale)" << what);
        CHECK_EQ("iequals", pluto::iequals(p, n, q, m), (L == R), "iequals(pointers, default locale)" << what);
        CHECK_EQ("ifind", static_cast<std::size_t>(pluto::ifind(p, n, q, m) - p), want_first, "ifind(pointers, default locale)" << what);
        CHECK_EQ("irfind", static_cast<std::size_t>(pluto::irfind(p, n, q, m) - p), want_last, "irfind(pointers, default locale)" << what);
        CHECK_EQ("icontains", pluto::icontains(p, n, q, m), has, "icontains(pointers, default locale)" << what);
        CHECK_EQ("istarts_with", pluto::istarts_with(p, n, q, m), (L.compare(0, R.size(), R) == 0), "istarts_with(pointers, default locale)" << what);
        CHECK_EQ("iends_with", pluto::iends_with(p, n, q, m), ends, "iends_with(pointers, default locale)" << what);
    }
    // the comparators inside standard algorithms: sorting ignores case and is a strict weak order
    S<C> sorted = l;
    std::stable_sort(sorted.begin(), sorted.end(), pluto::is_iless<C>(o));
    for (std::size_t i = 1; i < sorted.size(); ++i) CHECK("is_iless", !(f.toupper(sorted[i]) < f.toupper(sorted[i - 1])), "sorting with is_iless" << what);
}
}
VPROP(comparison_objects, .quick = PART(200000)) { FOR_KIND(comparators) }
VPROP(string_functions, .quick = PART(250000)) { FOR_KIND(strings_case) }
#ifndef OVERLOADS
// every pair of narrow characters in every locale; every wide character against its counterparts
VPROP(all_characters, .quick = 256, .thorough = 256, .enumerate = true)
{
    const std::uint64_t k = c.draw(256);
    NOTE("characters of block " << k);
    c.nontrivial();
    for (const auto& l : locales())
    {
        const pluto::is_iequal<char> eq(l.locale);
        const pluto::is_iless_equal<char> le(l.locale);
        const char x = static_cast<char>(k);
        for (int i = 0; i < 256; ++i)
        {
            const char y = static_cast<char>(i);
            CHECK_EQ("is_iequal", eq(x, y), (fold(l.locale, x) == fold(l.locale, y)), "is_iequal of " << k << " and " << i << ", locale " << l.name);
            CHECK_EQ("is_iless_equal", le(x, y), (fold(l.locale, x) <= fold(l.locale, y)), "is_iless_equal of " << k << " and " << i << ", locale " << l.name);
        }
        const pluto::is_iequal<wchar_t> weq(l.locale);
        const pluto::is_not_iequal<wchar_t> wne(l.locale);
        const auto& f = std::use_facet<std::ctype<wchar_t>>(l.locale);
        for (std::uint64_t i = 0; i < 512; ++i)
        {
            const wchar_t w = static_cast<wchar_t>(k * 512 + i);
            for (wchar_t v : { f.toupper(w), f.tolower(w), static_cast<wchar_t>(w + 1), static_cast<wchar_t>(w + 32), w })
            {
                CHECK_EQ("is_iequal", weq(w, v), (f.toupper(w) == f.toupper(v)), "is_iequal of wide " << static_cast<long>(w) << " and " << static_cast<long>(v) << ", locale " << l.name);
                CHECK_EQ("is_not_iequal", wne(w, v), (f.toupper(w) != f.toupper(v)), "is_not_iequal of wide " << static_cast<long>(w) << " and " << static_cast<long>(v) << ", locale " << l.name);
            }
        }
    }
}
#endif
// long strings that differ from each other in case and perhaps one character
template<class C> static void long_case(pbt::Case& c)
{
    const auto a = alphabet<C>(c);
    const auto& loc = c.pick(locales_of<C>());
    const auto& f = std::use_facet<std::ctype<C>>(loc.locale);
    const S<C> unit = make<C>("aBq") + S<C>(1, symbol(c, a));
    S<C> r = gen_long<C>(c, c.flag(0.3) ? 70000 : 300, unit, a);
    S<C> mid;
    for (std::size_t i = 0; i < r.size(); ++i) mid.push_back(i % 3 == 0 ? (f.is(std::ctype_base::upper, r[i]) ? f.tolower(r[i]) : f.toupper(r[i])) : r[i]);
    if (!r.empty() && c.flag(0.4)) { const std::size_t k = c.flag(0.5) ? r.size() - 1 : c.draw(r.size()); mid[k] = symbol(c, a); }
    const S<C> pre(c.flag(0.5) ? c.large(70000) : 0, r.empty() ? ch<C>('k') : f.tolower(r[0])), post(c.flag(0.5) ? c.large(70000) : 0, symbol(c, a));
    if (r.size() > 300 && !pre.empty() && !post.empty() && pre.size() + post.size() > 2000) r.resize(200), mid.resize(200);  // a search in it is quadratic
    const S<C> l = pre + mid + post;
    S<C> L = l, R = r;
    for (C& x : L) x = f.toupper(x);
    for (C& x : R) x = f.toupper(x);
    NOTE("locale " << loc.name << " left " << show(l) << " right " << show(r));
    c.nontrivial(l.size() > 100);
    const std::locale& o = loc.locale;
    const std::string what = " of texts of " + std::to_string(l.size()) + " and " + std::to_string(r.size()) + " units, locale " + loc.name;
    CHECK_EQ("iequals", pluto::iequals(l, r, o), (L == R), "iequals" << what);
    CHECK_EQ("iequals", pluto::iequals(mid, r, o), (L.substr(pre.size(), mid.size()) == R), "iequals of the middle" << what);
    CHECK_EQ("istarts_with", pluto::istarts_with(l, r, o), (L.compare(0, R.size(), R) == 0), "istarts_with" << what);
    CHECK_EQ("iends_with", pluto::iends_with(l, r, o), (L.size() >= R.size() && L.compare(L.size() - R.size(), R.size(), R) == 0), "iends_with" << what);
    if (l.size() * static_cast<double>(r.size()) < 3e7)
    {
        const auto first = L.find(R), last = L.rfind(R);
        CHECK_EQ("ifind", static_cast<std::size_t>(pluto::ifind(l, r, o) - l.begin()), (first == L.npos ? l.size() : first), "ifind" << what);
        CHECK_EQ("irfind", static_cast<std::size_t>(pluto::irfind(l, r, o) - l.begin()), (last == L.npos ? l.size() : last), "irfind" << what);
        CHECK_EQ("icontains", pluto::icontains(l, r, o), (first != L.npos), "icontains" << what);
    }
}
VPROP(long_strings, .quick = PART(6000)) { FOR_KIND(long_case) }
#ifndef SECOND
int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P09", "cases: comparison objects from living, temporary and copied locales, strings containing case variants of each other, in builds with and without locale caching; non-trivial: characters / occurrences that are equal only after folding");
}
#endif
