// Reference model of the Unicode encoding forms (written from the Unicode standard, tables 3-5..3-7)
// and a uniform way to call every conversion of pluto/unicode.hpp.
#pragma once
#include "pbt.hpp"
#include <pluto/unicode.hpp>
#include <cstring>
#include <memory>

namespace uni
{
    using Units = std::vector<std::uint32_t>;
    enum Form { F8 = 0, F16 = 1, F32 = 2 };

    inline void encode(Form f, std::uint32_t cp, Units& out)
    {
        if (f == F32) { out.push_back(cp); return; }
        if (f == F16)
        {
            if (cp <= 0xFFFF) { out.push_back(cp); return; }
            const std::uint32_t v = cp - 0x10000;
            out.push_back(0xD800 + v / 0x400);
            out.push_back(0xDC00 + v % 0x400);
            return;
        }
        if (cp < 0x80) out.push_back(cp);
        else if (cp < 0x800) { out.push_back(192 + cp / 64); out.push_back(128 + cp % 64); }
        else if (cp < 0x10000) { out.push_back(224 + cp / 4096); out.push_back(128 + cp / 64 % 64); out.push_back(128 + cp % 64); }
        else { out.push_back(240 + cp / 262144); out.push_back(128 + cp / 4096 % 64); out.push_back(128 + cp / 64 % 64); out.push_back(128 + cp % 64); }
    }
    inline Units encode(Form f, const Units& cps) { Units r; for (auto c : cps) encode(f, c, r); return r; }

    inline bool scalar(std::uint32_t c) { return c < 0xD800 || (c > 0xDFFF && c < 0x110000); }

    // length of the well-formed character at position i (0: none) and its code point
    inline unsigned character(Form f, const Units& u, std::size_t i, std::uint32_t& cp)
    {
        const std::size_t left = u.size() - i;
        const auto in = [&](std::size_t k, std::uint32_t lo, std::uint32_t hi) { return left > k && lo <= u[i + k] && u[i + k] <= hi; };
        const auto tail = [&](std::size_t k) { return u[i + k] - 0x80; };
        if (f == F32) { cp = u[i]; return scalar(cp) ? 1 : 0; }
        if (f == F16)
        {
            cp = u[i];
            if (cp < 0xD800 || cp > 0xDFFF) return 1;
            if (cp < 0xDC00 && in(1, 0xDC00, 0xDFFF)) { cp = 0x10000 + (cp - 0xD800) * 0x400 + (u[i + 1] - 0xDC00); return 2; }
            return 0;
        }
        const std::uint32_t a = u[i];
        if (a <= 0x7F) { cp = a; return 1; }
        if (0xC2 <= a && a <= 0xDF && in(1, 0x80, 0xBF)) { cp = (a - 0xC0) * 64 + tail(1); return 2; }
        if (a == 0xE0 ? in(1, 0xA0, 0xBF) : a == 0xED ? in(1, 0x80, 0x9F) : (0xE1 <= a && a <= 0xEF && in(1, 0x80, 0xBF)))
            if (in(2, 0x80, 0xBF)) { cp = (a - 0xE0) * 4096 + tail(1) * 64 + tail(2); return 3; }
        if (a == 0xF0 ? in(1, 0x90, 0xBF) : a == 0xF4 ? in(1, 0x80, 0x8F) : (0xF1 <= a && a <= 0xF3 && in(1, 0x80, 0xBF)))
            if (in(2, 0x80, 0xBF) && in(3, 0x80, 0xBF)) { cp = (a - 0xF0) * 262144 + tail(1) * 4096 + tail(2) * 64 + tail(3); return 4; }
        return 0;
    }

    struct Decoded { Units cps; std::size_t invalid = 0, multi = 0; };
    inline Decoded decode(Form f, const Units& u)
    {
        Decoded d;
        for (std::size_t i = 0; i < u.size();)
        {
            std::uint32_t cp = 0;
            const unsigned n = character(f, u, i, cp);
            if (n == 0) { d.cps.push_back(0xFFFD); ++d.invalid; ++i; }
            else { d.cps.push_back(cp); i += n; if (cp > 0x7F) ++d.multi; }
        }
        return d;
    }

    inline std::string show(const Units& u)
    {
        std::ostringstream s;
        s << std::hex << "<";
        for (std::size_t i = 0; i < u.size() && i < 60; ++i) s << (i ? " " : "") << u[i];
        if (u.size() > 60) s << " ...(" << std::dec << u.size() << ")";
        s << ">";
        return s.str();
    }

    // ---- the code under test
    template<class C> std::uint32_t unit(C c) { return sizeof(C) == 1 ? static_cast<std::uint8_t>(c) : sizeof(C) == 2 ? static_cast<std::uint16_t>(c) : static_cast<std::uint32_t>(c); }
    // heap copy without any slack, so that reading beyond it is seen by the sanitizer
    template<class C> struct Exact
    {
        std::unique_ptr<C[]> p;
        std::size_t n;
        explicit Exact(const Units& u) : p(new C[u.size() ? u.size() : 0]), n(u.size()) { for (std::size_t i = 0; i < n; ++i) p[i] = static_cast<C>(u[i]); }
    };
    template<class C> std::basic_string<C> string_of(const Units& u) { std::basic_string<C> s; for (auto x : u) s.push_back(static_cast<C>(x)); return s; }
    template<class S> Units units_of(const S& s) { Units r; r.reserve(s.size()); for (auto c : s) r.push_back(unit(c)); return r; }

    // element types per form; the first ones are those with return-value functions
    enum Type { T_char, T_char8, T_uchar, T_schar, T_char16, T_ushort, T_short, T_char32, T_wchar, T_uint, T_int, T_count };
    static const char* const type_name[] = { "char", "char8_t", "unsigned char", "signed char", "char16_t", "unsigned short", "short", "char32_t", "wchar_t", "unsigned", "int" };
    inline Form form_of(int t) { return t <= T_schar ? F8 : t <= T_short ? F16 : F32; }
    inline bool standard(int t) { return t == T_char || t == T_char8 || t == T_char16 || t == T_char32 || t == T_wchar; }

    template<class A, class B> struct Low; // low-level functions by element size
#define UNI_LOW(SA, SB, FN) \
    template<class A, class B> void low_call(std::integral_constant<int, SA>, std::integral_constant<int, SB>, const A* p, std::size_t n, std::basic_string<B>& out) { pluto::FN(p, n, out); } \
    template<class A, class B> void low_call(std::integral_constant<int, SA>, std::integral_constant<int, SB>, const std::basic_string<A>& s, std::basic_string<B>& out) { pluto::FN(s, out); }
    UNI_LOW(1, 2, utf8_to_utf16) UNI_LOW(2, 1, utf16_to_utf8) UNI_LOW(1, 4, utf8_to_utf32)
    UNI_LOW(4, 1, utf32_to_utf8) UNI_LOW(2, 4, utf16_to_utf32) UNI_LOW(4, 2, utf32_to_utf16)
#undef UNI_LOW
    template<class T> using SizeTag = std::integral_constant<int, static_cast<int>(sizeof(T))>;

    // api 0: out parameter, pointer; 1: out parameter, string; 2: return, pointer; 3: return, string
    template<class A, class B> Units low(int api, const Units& in, const Units& before)
    {
        std::basic_string<B> out = string_of<B>(before);
        if (api == 0) { Exact<A> e(in); low_call(SizeTag<A>{}, SizeTag<B>{}, e.p.get(), e.n, out); }
        else { const auto s = string_of<A>(in); low_call(SizeTag<A>{}, SizeTag<B>{}, s, out); }
        return units_of(out);
    }
    struct RetChar { template<class... X> std::string operator()(const X&... x) const { return pluto::str(x...); } };
    struct RetWide { template<class... X> std::wstring operator()(const X&... x) const { return pluto::wstr(x...); } };
    struct Ret16 { template<class... X> std::u16string operator()(const X&... x) const { return pluto::u16str(x...); } };
    struct Ret32 { template<class... X> std::u32string operator()(const X&... x) const { return pluto::u32str(x...); } };
    struct Ret8 { template<class... X> std::u8string operator()(const X&... x) const { return pluto::u8str(x...); } };
    template<class A, class F> Units high(int api, F f, const Units& in)
    {
        if (api == 2) { Exact<A> e(in); const A* p = e.p.get(); return units_of(f(p, e.n)); }
        return units_of(f(string_of<A>(in)));
    }

    inline bool has_api(int api, int from, int to)
    {
        if (api < 2) return form_of(from) != form_of(to);
        return standard(from) && standard(to) && from != to;
    }

    template<class A> Units from_type(int api, int to, const Units& in, const Units& before);
    template<class A, class B, bool different = sizeof(A) != sizeof(B)> struct LowIf { static Units go(int api, const Units& i, const Units& b) { return low<A, B>(api, i, b); } };
    template<class A, class B> struct LowIf<A, B, false> { static Units go(int, const Units&, const Units&) { std::abort(); } };
    template<class A, class F, bool ok> struct HighIf { static Units go(int api, const Units& i) { return high<A>(api, F{}, i); } };
    template<class A, class F> struct HighIf<A, F, false> { static Units go(int, const Units&) { std::abort(); } };
    template<class A> struct IsStd : std::integral_constant<bool, std::is_same<A, char>::value || std::is_same<A, char8_t>::value || std::is_same<A, char16_t>::value || std::is_same<A, char32_t>::value || std::is_same<A, wchar_t>::value> {};

    template<class A> Units from_type(int api, int to, const Units& in, const Units& before)
    {
        if (api < 2)
            switch (to)
            {
            case T_char: return LowIf<A, char>::go(api, in, before);
            case T_char8: return LowIf<A, char8_t>::go(api, in, before);
            case T_uchar: return LowIf<A, unsigned char>::go(api, in, before);
            case T_schar: return LowIf<A, signed char>::go(api, in, before);
            case T_char16: return LowIf<A, char16_t>::go(api, in, before);
            case T_ushort: return LowIf<A, unsigned short>::go(api, in, before);
            case T_short: return LowIf<A, short>::go(api, in, before);
            case T_char32: return LowIf<A, char32_t>::go(api, in, before);
            case T_wchar: return LowIf<A, wchar_t>::go(api, in, before);
            case T_uint: return LowIf<A, unsigned>::go(api, in, before);
            default: return LowIf<A, int>::go(api, in, before);
            }
        switch (to)
        {
        case T_char: return HighIf<A, RetChar, IsStd<A>::value && !std::is_same<A, char>::value>::go(api, in);
        case T_char8: return HighIf<A, Ret8, IsStd<A>::value && !std::is_same<A, char8_t>::value>::go(api, in);
        case T_char16: return HighIf<A, Ret16, IsStd<A>::value && !std::is_same<A, char16_t>::value>::go(api, in);
        case T_char32: return HighIf<A, Ret32, IsStd<A>::value && !std::is_same<A, char32_t>::value>::go(api, in);
        default: return HighIf<A, RetWide, IsStd<A>::value && !std::is_same<A, wchar_t>::value>::go(api, in);
        }
    }

    // one conversion; for api 0/1 the output string starts with `before`
    inline Units convert(int api, int from, int to, const Units& in, const Units& before = {})
    {
        switch (from)
        {
        case T_char: return from_type<char>(api, to, in, before);
        case T_char8: return from_type<char8_t>(api, to, in, before);
        case T_uchar: return from_type<unsigned char>(api, to, in, before);
        case T_schar: return from_type<signed char>(api, to, in, before);
        case T_char16: return from_type<char16_t>(api, to, in, before);
        case T_ushort: return from_type<unsigned short>(api, to, in, before);
        case T_short: return from_type<short>(api, to, in, before);
        case T_char32: return from_type<char32_t>(api, to, in, before);
        case T_wchar: return from_type<wchar_t>(api, to, in, before);
        case T_uint: return from_type<unsigned>(api, to, in, before);
        default: return from_type<int>(api, to, in, before);
        }
    }

    // what the conversion has to yield: same form: plain copy
    inline Units expected(int from, int to, const Units& in)
    {
        if (form_of(from) == form_of(to)) return in;
        return encode(form_of(to), decode(form_of(from), in).cps);
    }

    inline std::string call_name(int api, int from, int to)
    {
        return std::string(type_name[from]) + "->" + type_name[to] + (api == 0 ? " (out, pointer)" : api == 1 ? " (out, string)" : api == 2 ? " (return, pointer)" : " (return, string)");
    }

    // ---- generators
    static const std::uint32_t edges[] = { 0, 1, 0x41, 0x7E, 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0xC2, 0xFF, 0x100, 0x3FF, 0x400, 0x7FF, 0x800, 0x801, 0xFFF, 0x1000, 0x20AC, 0x3FFF, 0x4000,
        0xCFFF, 0xD000, 0xD7FF, 0xE000, 0xE001, 0xFEFF, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x103FF, 0x10400, 0x1F600, 0x1FFFF, 0x20000, 0x3FFFF, 0x40000, 0x7FFFF, 0x80000, 0xBFFFF, 0xC0000, 0xFFFFF, 0x100000, 0x10FC00, 0x10FFFE, 0x10FFFF };
    inline std::uint32_t gen_scalar(pbt::Case& c)
    {
        switch (c.weighted({ 2, 3, 2, 2, 2, 1 }))
        {
        case 0: return static_cast<std::uint32_t>(0x20 + c.draw(0x5F));
        case 1: return c.pick(edges);
        case 2: return static_cast<std::uint32_t>(0x80 + c.draw(0x780));
        case 3: { auto v = static_cast<std::uint32_t>(0x800 + c.draw(0xF800 - 0x800)); return v >= 0xD800 ? v + 0x800 : v; }
        case 4: return static_cast<std::uint32_t>(0x10000 + c.draw(0x100000));
        default: return static_cast<std::uint32_t>(c.draw(0x80));
        }
    }
    inline Units gen_text(pbt::Case& c, std::size_t max)
    {
        Units r;
        const std::size_t n = c.length(max);
        const bool runs = c.flag(0.15);  // stretches of one character between the others, at every alignment
        for (std::size_t i = 0; i < n; ++i)
        {
            const std::uint32_t cp = gen_scalar(c);
            r.push_back(cp);
            if (runs) r.insert(r.end(), c.draw(40), c.flag(0.3) ? cp : 0x61 + static_cast<std::uint32_t>(i % 26));
        }
        return r;
    }
    // a text of up to `max` characters from few draws: stretches of repeated pieces
    inline Units gen_long_text(pbt::Case& c, std::size_t max)
    {
        Units r;
        const std::size_t stretches = 1 + c.draw(4);
        for (std::size_t k = 0; k < stretches; ++k)
        {
            Units piece;
            for (std::size_t i = 1 + c.draw(4); i-- > 0;) piece.push_back(c.flag(0.5) ? static_cast<std::uint32_t>(0x20 + c.draw(0x5F)) : gen_scalar(c));
            const std::size_t n = c.flag(0.3) ? c.draw(20) : c.large(max - r.size());
            for (std::size_t i = 0; i < n; ++i) r.push_back(piece[i % piece.size()]);
        }
        return r;
    }
    // arbitrary units: well-formed characters, damaged characters, boundary units and noise mixed
    inline Units gen_units(pbt::Case& c, Form f, std::size_t max)
    {
        Units r;
        const std::size_t n = c.length(max);
        static const std::uint32_t e8[] = { 0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF };
        static const std::uint32_t e16[] = { 0x0000, 0x0041, 0x007F, 0x0080, 0x07FF, 0x0800, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF };
        static const std::uint32_t e32[] = { 0, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x110001, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0x80000000, 0x80000041, 0xFFFFFFFF, 0xFFFF0041 };
        const bool runs = c.flag(0.15);
        for (std::size_t i = 0; i < n; ++i)
        {
            if (runs) r.insert(r.end(), c.draw(40), 0x61 + static_cast<std::uint32_t>(i % 26));
            switch (c.weighted({ 3, 3, 4, 1 }))
            {
            case 0: encode(f, gen_scalar(c), r); break;
            case 1: // a damaged character
            {
                Units one;
                encode(f, gen_scalar(c), one);
                switch (c.draw(4))
                {
                case 0: one.pop_back(); break;
                case 1: one.erase(one.begin()); break;
                case 2: one.insert(one.begin() + static_cast<long>(c.draw(one.size() + 1)), f == F8 ? c.pick(e8) : f == F16 ? c.pick(e16) : c.pick(e32)); break;
                default:
                {
                    auto& v = one[c.draw(one.size())];
                    v ^= 1u << c.draw(f == F8 ? 8 : f == F16 ? 16 : 32);
                }
                }
                r.insert(r.end(), one.begin(), one.end());
                break;
            }
            case 2: r.push_back(f == F8 ? c.pick(e8) : f == F16 ? c.pick(e16) : c.pick(e32)); break;
            default: r.push_back(static_cast<std::uint32_t>(c.draw(f == F8 ? 0x100 : f == F16 ? 0x10000 : 0x100000000ull)));
            }
        }
        return r;
    }
    // long input of good and bad units: stretches of repeated pieces
    inline Units gen_long_units(pbt::Case& c, Form f, std::size_t max)
    {
        Units r;
        const std::size_t stretches = 1 + c.draw(4);
        for (std::size_t k = 0; k < stretches && r.size() < max; ++k)
        {
            const Units piece = c.flag(0.4) ? encode(f, { gen_scalar(c), 0x41 }) : gen_units(c, f, 4);
            if (piece.empty()) continue;
            const std::size_t n = c.flag(0.3) ? c.draw(20) : c.large(max - r.size());
            for (std::size_t i = 0; i < n; ++i) r.push_back(piece[i % piece.size()]);
        }
        return r;
    }
    inline int gen_type(pbt::Case& c, Form f)
    {
        static const int t8[] = { T_char, T_char8, T_uchar, T_schar }, t16[] = { T_char16, T_ushort, T_short }, t32[] = { T_char32, T_wchar, T_uint, T_int };
        return f == F8 ? c.pick(t8) : f == F16 ? c.pick(t16) : c.pick(t32);
    }
}
