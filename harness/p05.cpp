// P05: in-place replacement.  Compiled twice: the second object has the overloads for Unicode strings on (namespace renamed).
#include "strings.hpp"
#include <pluto/string.hpp>
using namespace str;
using pbt::show;
#ifndef VARIANT
#define PROPV(name, ...) PROP(name, __VA_ARGS__)
#define KIND(n) c.draw(n)
#define PART(n) n
#else
#define PROPV(name, ...) PROP(name##_overloads, __VA_ARGS__)
#define KIND(n) (2 + c.draw(n - 2)) // Unicode strings only
#define PART(n) (n / 5)
#endif

namespace
{

template<class C> S<C> ref_replace(const S<C>& s, const S<C>& find, const S<C>& with)
{
    S<C> r;
    for (std::size_t i = 0; i < s.size();)
        if (find.empty()) { for (C x : with) r.push_back(x); r.push_back(s[i++]); }
        else if (at(s, i, find)) { for (C x : with) r.push_back(x); i += find.size(); }
        else r.push_back(s[i++]);
    if (find.empty()) for (C x : with) r.push_back(x);
    return r;
}
template<class C> S<C> ref_any(const S<C>& s, const S<C>& set, const S<C>& with)
{
    S<C> r;
    for (C x : s)
    {
        bool in = false;
        for (C y : set) in = in || x == y;
        if (in) for (C w : with) r.push_back(w);
        else r.push_back(x);
    }
    return r;
}
template<class C> void one(pbt::Case& c)
{
    const auto a = alphabet<C>(c);
    const S<C> find = gen<C>(c, 4, a);
    const S<C> s = gen_around<C>(c, 16, find, a);
    // replacements that contain the searched text, or complete it together with their surroundings
    S<C> with;
    switch (c.draw(5))
    {
    case 0: with = gen<C>(c, 6, a); break;
    case 1: with = find + gen<C>(c, 2, a); c.label("contains the searched text"); break;
    case 2: with = gen<C>(c, 2, a) + find; c.label("contains the searched text"); break;
    case 3: with = find.substr(0, c.draw(find.size() + 1)); break;
    default: break;
    }
    NOTE("replace " << show(find) << " by " << show(with) << " in " << show(s));
    S<C> got = s;
    const S<C> find0 = find, with0 = with;
    pluto::replace(got, find, with);
    const S<C> want = ref_replace(s, find, with);
    c.nontrivial(want != s);
    if (find.empty()) c.label("empty searched text");
    if (with.empty()) c.label("empty replacement");
    CHECK_EQ("replace", got, want, "replacing " << show(find) << " by " << show(with) << " in " << show(s));
    got = s;
    pluto::replace<>(got, find, with);
    CHECK_EQ("replace", got, want, "replace<> of " << show(find) << " by " << show(with) << " in " << show(s));
    got = s;
    pluto::replace_any_of(got, find, with);
    CHECK_EQ("replace_any_of", got, ref_any(s, find, with), "replacing any of " << show(find) << " by " << show(with) << " in " << show(s));
    got = s;
    pluto::replace_any_of<>(got, find, with);
    CHECK_EQ("replace_any_of", got, ref_any(s, find, with), "replace_any_of<> " << show(find) << " by " << show(with) << " in " << show(s));
    CHECK("arguments", find == find0 && with == with0, "the arguments were changed");
}
PROPV(replacing, .quick = PART(5000000), .thorough = PART(40000000))
{
    switch (KIND(5))
    {
    case 0: one<char>(c); break;
    case 1: one<wchar_t>(c); break;
    case 2: one<char16_t>(c); break;
    case 3: one<char32_t>(c); break;
    default: one<char8_t>(c); break;
    }
}
#ifndef VARIANT
// all strings of up to 7 letters over {a,b}, needles up to 3, replacements up to 3
PROP(small_exhaustive, .quick = 255, .thorough = 255, .enumerate = true)
{
    const auto word = [](std::uint64_t k) { std::string r; std::uint64_t n = 0; while (((std::uint64_t(2) << n) - 1) <= k) ++n; k -= (std::uint64_t(1) << n) - 1; for (std::uint64_t i = n; i-- > 0;) r.push_back((k >> i) & 1 ? 'b' : 'a'); return r; };
    const std::string s = word(c.draw(255));
    NOTE("every needle and replacement up to length 3 in " << show(s));
    c.nontrivial();
    for (std::uint64_t f = 0; f < 15; ++f)
        for (std::uint64_t w = 0; w < 15; ++w)
        {
            std::string g = s;
            pluto::replace(g, word(f), word(w));
            CHECK_EQ("replace", g, ref_replace(s, word(f), word(w)), "replacing " << show(word(f)) << " by " << show(word(w)) << " in " << show(s));
            g = s;
            pluto::replace_any_of(g, word(f), word(w));
            CHECK_EQ("replace_any_of", g, ref_any(s, word(f), word(w)), "replacing any of " << show(word(f)) << " by " << show(word(w)) << " in " << show(s));
        }
}
#else
// the convenience of literals
template<class C> void literal_case(pbt::Case& c)
{
    const auto a = alphabet<C>(c);
    S<C> find = gen<C>(c, 3, a), s = gen_around<C>(c, 8, find, a), with = gen<C>(c, 3, a);
    for (auto* x : { &s, &find, &with }) for (auto& u : *x) if (!u) u = ch<C>(';');
    NOTE(sizeof(C) << "-byte literals: replace " << show(find) << " by " << show(with) << " in " << show(s));
    const S<C> want = ref_replace(s, find, with);
    c.nontrivial(want != s);
    S<C> got = s;
    pluto::replace(got, find.c_str(), with.c_str());
    CHECK_EQ("replace", got, want, "replacing (pointers) " << show(find) << " by " << show(with) << " in " << show(s));
    got = s;
    pluto::replace(got, find, with.c_str());
    CHECK_EQ("replace", got, want, "replacing (string, pointer) " << show(find) << " by " << show(with) << " in " << show(s));
    got = s;
    pluto::replace_any_of(got, find.c_str(), with.c_str());
    CHECK_EQ("replace_any_of", got, ref_any(s, find, with), "replacing any of (pointers) " << show(find) << " by " << show(with) << " in " << show(s));
}
PROPV(literals, .quick = 20000)
{
    switch (c.draw(3))
    {
    case 0: literal_case<char16_t>(c); break;
    case 1: literal_case<char32_t>(c); break;
    default: literal_case<char8_t>(c); break;
    }
}
#endif
// long strings, growing and shrinking
template<class C> void long_case(pbt::Case& c)
{
    const auto a = alphabet<C>(c);
    const S<C> find = c.flag(0.2) ? gen<C>(c, 40, a) : gen<C>(c, 4, a), with = gen<C>(c, 40, a), s = gen_long<C>(c, c.flag(0.1) ? 70000 : 4000, find, a);
    NOTE(sizeof(C) << "-byte text " << show(s) << ", " << show(find) << " by " << show(with));
    c.nontrivial(s.size() > 100 && s.find(find) != s.npos);
    if (s.size() > 32768) c.label("more than 32768 units");
    S<C> got = s;
    pluto::replace(got, find, with);
    S<C> want = ref_replace(s, find, with);
    CHECK("replace", got == want, "replacing " << show(find) << " by " << show(with) << " in a text of " << s.size() << " units: " << got.size() << " units, expected " << want.size() << ", first difference at " << differ(got, want));
    got = s;
    pluto::replace_any_of(got, find, with);
    want = ref_any(s, find, with);
    CHECK("replace_any_of", got == want, "replacing any of " << show(find) << " by " << show(with) << " in a text of " << s.size() << " units: " << got.size() << " units, expected " << want.size() << ", first difference at " << differ(got, want));
}
PROPV(long_strings, .quick = PART(10000))
{
    switch (KIND(4))
    {
    case 0: long_case<char>(c); break;
    case 1: long_case<wchar_t>(c); break;
    case 2: long_case<char16_t>(c); break;
    default: long_case<char32_t>(c); break;
    }
}
}
#ifndef VARIANT
int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P05", "cases: strings of five character types built around the searched text, replacements that contain it; all small strings over two letters; non-trivial: the reference result differs from the input (replacing)");
}
#endif
