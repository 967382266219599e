// Generators and small helpers for the string checks.
#pragma once
#include "pbt.hpp"
#include <deque>
#include <list>
#include <forward_list>
#include <locale>
#include <set>
#include <map>
#include <array>
#include <string_view>
#include <vector>
#include <string>

// Character facets for the Unicode character types, which the library leaves to its users: they answer what the wide facet
// of a locale answers for the same code.
namespace str
{
    template<class C> class WideBased : public std::__ctype_abstract_base<C>
    {
        const std::locale m_base;
        const std::ctype<wchar_t>& m_wide;
        typedef std::ctype_base::mask mask;
        static wchar_t wide(C x) { return static_cast<wchar_t>(x); }
        static C back(C x, wchar_t w) { return static_cast<wchar_t>(static_cast<C>(w)) == w ? static_cast<C>(w) : x; }
    public:
        explicit WideBased(const std::locale& base) : m_base(base), m_wide(std::use_facet<std::ctype<wchar_t>>(m_base)) {}
    protected:
        bool do_is(mask m, C x) const override { return m_wide.is(m, wide(x)); }
        const C* do_is(const C* b, const C* e, mask* v) const override
        {
            for (; b < e; ++b, ++v) { *v = 0; for (int i = 0; i < 16; ++i) { const mask bit = static_cast<mask>(1 << i); if (do_is(bit, *b)) *v = static_cast<mask>(*v | bit); } }
            return e;
        }
        const C* do_scan_is(mask m, const C* b, const C* e) const override { while (b < e && !do_is(m, *b)) ++b; return b; }
        const C* do_scan_not(mask m, const C* b, const C* e) const override { while (b < e && do_is(m, *b)) ++b; return b; }
        C do_toupper(C x) const override { return back(x, m_wide.toupper(wide(x))); }
        const C* do_toupper(C* b, const C* e) const override { for (; b < e; ++b) *b = do_toupper(*b); return e; }
        C do_tolower(C x) const override { return back(x, m_wide.tolower(wide(x))); }
        const C* do_tolower(C* b, const C* e) const override { for (; b < e; ++b) *b = do_tolower(*b); return e; }
        C do_widen(char x) const override { return static_cast<C>(static_cast<unsigned char>(x)); }
        const char* do_widen(const char* b, const char* e, C* to) const override { for (; b < e; ++b, ++to) *to = do_widen(*b); return e; }
        char do_narrow(C x, char other) const override { return x < 128 ? static_cast<char>(x) : other; }
        const C* do_narrow(const C* b, const C* e, char other, char* to) const override { for (; b < e; ++b, ++to) *to = do_narrow(*b, other); return e; }
    };
}
namespace std
{
#define UNICODE_FACET(C) template<> class ctype<C> : public str::WideBased<C> { public: typedef C char_type; static inline locale::id id; using str::WideBased<C>::WideBased; };
    UNICODE_FACET(char16_t)
    UNICODE_FACET(char32_t)
#ifdef __cpp_char8_t
    UNICODE_FACET(char8_t)
#endif
}

namespace str
{
    template<class C> using S = std::basic_string<C>;
    template<class C> using V = std::vector<S<C>>;

    template<class C> C ch(char x) { return static_cast<C>(static_cast<unsigned char>(x)); }
    template<class C> S<C> make(const char* s) { S<C> r; for (; *s; ++s) r.push_back(ch<C>(*s)); return r; }

    // strings over a tiny alphabet (many matches and overlaps), sometimes over everything
    template<class C> struct Alphabet
    {
        std::vector<C> symbols;
        bool wide = false;
    };
    template<class C> Alphabet<C> alphabet(pbt::Case& c)
    {
        Alphabet<C> a;
        switch (c.draw(5))
        {
        case 0: a.symbols = { ch<C>('a'), ch<C>('b') }; break;
        case 1: a.symbols = { ch<C>('a'), ch<C>(' '), ch<C>(',') }; break;
        case 2: a.symbols = { ch<C>('a'), ch<C>('\0'), ch<C>('B'), ch<C>('\xe9') }; break;
        case 3: a.symbols = { ch<C>('x'), ch<C>(' '), ch<C>('\t'), ch<C>('\n'), ch<C>('\v'), ch<C>('\f'), ch<C>('\r'), ch<C>('y'), ch<C>('\xa0'), ch<C>('\x85') }; break;
        default: a.wide = true;
        }
        return a;
    }
    template<class C> C symbol(pbt::Case& c, const Alphabet<C>& a)
    {
        if (!a.wide) return a.symbols[c.draw(a.symbols.size())];
        if (sizeof(C) == 1) return static_cast<C>(c.draw(256));
        static const std::uint32_t w[] = { 0x20, 0x85, 0xA0, 0x1680, 0x2003, 0x2028, 0x202F, 0x205F, 0x3000, 0xFEFF, 0x200B, 0x180E, 0xE9, 0xC9, 0x130, 0x131, 0x1C4, 0x1C5, 0x1C6, 0xDF, 0x1E9E, 0x3C3, 0x3C2, 0x3A3, 0x10400, 0x10428, 0x41, 0x61, 0x5A, 0x7A, 0 };
        const std::uint64_t limit = sizeof(C) == 2 ? 0x10000 : 0x30000;
        return c.flag(0.4) ? static_cast<C>(c.pick(w)) : static_cast<C>(c.draw(limit));
    }
    template<class C> S<C> gen(pbt::Case& c, std::size_t max, const Alphabet<C>& a)
    {
        S<C> r;
        const std::size_t n = c.length(max);
        for (std::size_t i = 0; i < n; ++i) r.push_back(symbol(c, a));
        return r;
    }
    // text with many occurrences of a needle, including overlapping and partial ones
    template<class C> S<C> gen_around(pbt::Case& c, std::size_t pieces, const S<C>& needle, const Alphabet<C>& a)
    {
        S<C> r;
        const std::size_t n = c.length(pieces);
        for (std::size_t i = 0; i < n; ++i)
            switch (c.draw(4))
            {
            case 0: r.push_back(symbol(c, a)); break;
            case 1: r += needle; break;
            case 2: r += needle.substr(0, c.draw(needle.size() + 1)); break;
            default: r += needle.substr(c.draw(needle.size() + 1)); break;
            }
        return r;
    }
    // long text from few draws: stretches of repeated pieces, some of them built around the needle
    template<class C> S<C> gen_long(pbt::Case& c, std::size_t max, const S<C>& needle, const Alphabet<C>& a)
    {
        S<C> r;
        const std::size_t stretches = 1 + c.draw(4);
        for (std::size_t k = 0; k < stretches && r.size() < max; ++k)
        {
            const S<C> piece = c.flag(0.5) ? S<C>(1, symbol(c, a)) : gen_around(c, 4, needle, a);
            if (piece.empty()) continue;
            const std::size_t n = c.flag(0.3) ? c.draw(20) : c.large(max - r.size());
            for (std::size_t i = 0; i < n; ++i) r.push_back(piece[i % piece.size()]);
        }
        return r;
    }
    // position of the first difference, for messages about long texts
    template<class A> std::size_t differ(const A& x, const A& y)
    {
        std::size_t i = 0;
        while (i < x.size() && i < y.size() && x[i] == y[i]) ++i;
        return i;
    }
    template<class C> bool at(const S<C>& s, std::size_t i, const S<C>& x)
    {
        if (i + x.size() > s.size()) return false;
        for (std::size_t k = 0; k < x.size(); ++k) if (!(s[i + k] == x[k])) return false;
        return true;
    }

    // ---- locales: the installed ones, and own facets with unusual tables
    struct OddCtype : std::ctype<char>
    {
        static const mask* make_table()
        {
            static std::vector<mask> t(classic_table(), classic_table() + table_size);
            t['_'] = static_cast<mask>(t['_'] | space);
            t['x'] = static_cast<mask>(t['x'] | space);
            t[' '] = static_cast<mask>(t[' '] & ~space);
            t[0] = space;
            t[0xE9] = static_cast<mask>(lower | alpha);
            t[0xC9] = static_cast<mask>(upper | alpha);
            t[0xA0] = space;
            t['q'] = t['Q'] = punct; // letters without case
            return t.data();
        }
        OddCtype() : std::ctype<char>(make_table()) {}
        static char up(char ch_) { return ch_ == '\xe9' ? '\xc9' : (ch_ >= 'a' && ch_ <= 'z' && ch_ != 'q') ? static_cast<char>(ch_ - 32) : ch_ == '!' ? '?' : ch_; }
        static char lo(char ch_) { return ch_ == '\xc9' ? '\xe9' : (ch_ >= 'A' && ch_ <= 'Z' && ch_ != 'Q') ? static_cast<char>(ch_ + 32) : ch_; }
        char do_toupper(char ch_) const override { return up(ch_); }
        const char* do_toupper(char* b, const char* e) const override { for (; b < e; ++b) *b = up(*b); return e; }
        char do_tolower(char ch_) const override { return lo(ch_); }
        const char* do_tolower(char* b, const char* e) const override { for (; b < e; ++b) *b = lo(*b); return e; }
    };
    struct OddWide : std::ctype<wchar_t>
    {
        using base = std::ctype<wchar_t>;
        bool do_is(mask m, wchar_t w) const override
        {
            if ((m & space) && (w == L'_' || w == 0 || w == 0xE9)) return true;
            if ((m & space) == m && w == L' ') return false;
            if (w == L'q' || w == L'Q') m = static_cast<mask>(m & ~(upper | lower));
            return base::do_is(m, w);
        }
        const wchar_t* do_is(const wchar_t* b, const wchar_t* e, mask* v) const override
        {
            for (; b < e; ++b, ++v) { *v = 0; for (int i = 0; i < 16; ++i) { const mask bit = static_cast<mask>(1 << i); if (do_is(bit, *b)) *v = static_cast<mask>(*v | bit); } }
            return e;
        }
        const wchar_t* do_scan_is(mask m, const wchar_t* b, const wchar_t* e) const override { while (b < e && !do_is(m, *b)) ++b; return b; }
        const wchar_t* do_scan_not(mask m, const wchar_t* b, const wchar_t* e) const override { while (b < e && do_is(m, *b)) ++b; return b; }
        wchar_t do_toupper(wchar_t w) const override { return w == L'!' ? L'?' : w == L'q' ? L'q' : base::do_toupper(w); }
        const wchar_t* do_toupper(wchar_t* b, const wchar_t* e) const override { for (; b < e; ++b) *b = do_toupper(*b); return e; }
        wchar_t do_tolower(wchar_t w) const override { return w == L'Q' ? L'Q' : base::do_tolower(w); }
        const wchar_t* do_tolower(wchar_t* b, const wchar_t* e) const override { for (; b < e; ++b) *b = do_tolower(*b); return e; }
    };
    struct NamedLocale { const char* name; std::locale locale; bool is_default; };
    inline const std::vector<NamedLocale>& locales()
    {
        static const std::vector<NamedLocale> all = []
        {
            std::vector<NamedLocale> v;
            v.push_back({ "en_US.UTF-8", std::locale("en_US.UTF-8"), true });
            v.push_back({ "C", std::locale::classic(), false });
            v.push_back({ "odd", std::locale(std::locale(std::locale::classic(), new OddCtype), new OddWide), false });
            try { v.push_back({ "C.utf8", std::locale("C.utf8"), false }); } catch (...) {}
            return v;
        }();
        return all;
    }
    inline std::locale with_unicode(const std::locale& l)
    {
        std::locale r(std::locale(l, new std::ctype<char16_t>(l)), new std::ctype<char32_t>(l));
#ifdef __cpp_char8_t
        r = std::locale(r, new std::ctype<char8_t>(l));
#endif
        return r;
    }
    template<class C> constexpr bool standard_facet = std::is_same<C, char>::value || std::is_same<C, wchar_t>::value;
    // the locales for a character type; the default locale has facets for char and wchar_t only
    template<class C> const std::vector<NamedLocale>& locales_of()
    {
        if (standard_facet<C>) return locales();
        static const std::vector<NamedLocale> all = []
        {
            std::vector<NamedLocale> v;
            for (const auto& l : locales()) v.push_back({ l.name, with_unicode(l.locale), false });
            return v;
        }();
        return all;
    }
    template<class C> bool is_space(const std::locale& l, C x) { return std::use_facet<std::ctype<C>>(l).is(std::ctype_base::space, x); }
}
