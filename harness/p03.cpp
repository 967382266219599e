// P03: conversions agree among themselves, append, and work piecewise.
#include "unicode_model.hpp"
using namespace uni;

// all ways of requesting a conversion agree (pairwise, no model), and output parameters keep earlier contents
PROP(ways_agree, .quick = 300000)
{
    const Form f = static_cast<Form>(c.draw(3)), t = static_cast<Form>(c.draw(3));
    const Units in = c.flag(0.5) ? encode(f, gen_text(c, 30)) : gen_units(c, f, 30);
    Units before;
    const std::size_t nb = c.length(40);
    for (std::size_t i = 0; i < nb; ++i) before.push_back(static_cast<std::uint32_t>(c.draw(t == F8 ? 0x100 : t == F16 ? 0x10000 : 0x100000000ull)));
    NOTE("units " << show(in) << " from form " << f << " to form " << t << " appended to " << show(before));
    c.nontrivial(!in.empty() && (!before.empty() || f == t));
    if (f == t) c.label("same encoding");
    bool have = false;
    Units first;
    std::string first_name;
    for (int from = 0; from < T_count; ++from)
    {
        if (form_of(from) != f) continue;
        for (int to = 0; to < T_count; ++to)
        {
            if (form_of(to) != t) continue;
            for (int api = 0; api < 4; ++api)
            {
                if (!has_api(api, from, to)) continue;
                Units got = convert(api, from, to, in, before);
                if (api < 2)
                {
                    CHECK("earlier contents", got.size() >= before.size() && std::equal(before.begin(), before.end(), got.begin()), call_name(api, from, to) << " changed the earlier contents " << show(before) << " of the output to " << show(got));
                    got.erase(got.begin(), got.begin() + static_cast<long>(before.size()));
                }
                if (f == t) CHECK("copy", got == in, call_name(api, from, to) << " is not a plain copy of " << show(in) << ": " << show(got));
                if (!have) { have = true; first = got; first_name = call_name(api, from, to); }
                else CHECK("ways differ", got == first, call_name(api, from, to) << " of " << show(in) << " gives " << show(got) << " but " << first_name << " gives " << show(first));
            }
        }
    }
}

// conversion of a concatenation at any cut not inside a character = concatenation of the conversions
PROP(piecewise, .quick = 400000)
{
    const Form f = static_cast<Form>(c.draw(3));
    const Units in = gen_units(c, f, 24);
    const int from = gen_type(c, f);
    int to = static_cast<int>(c.draw(T_count)), api = static_cast<int>(c.draw(4));
    for (int k = 0; k < 4 && !has_api(api, from, to); ++k) api = (api + 1) % 4;
    if (!has_api(api, from, to)) return;
    // positions where a cut does not split a character
    std::vector<std::size_t> cuts;
    for (std::size_t i = 0; i <= in.size();)
    {
        cuts.push_back(i);
        if (i == in.size()) break;
        std::uint32_t cp;
        const unsigned n = character(f, in, i, cp);
        i += n ? n : 1;
    }
    NOTE(show(in) << " " << call_name(api, from, to) << ", every cut and a chunked conversion");
    c.nontrivial(cuts.size() > 2 && form_of(to) != f);
    const Units whole = convert(api, from, to, in);
    for (std::size_t cut : cuts)
    {
        const Units a(in.begin(), in.begin() + static_cast<long>(cut)), b(in.begin() + static_cast<long>(cut), in.end());
        Units got = convert(api, from, to, a);
        if (api < 2) got = convert(api, from, to, b, got);
        else { const Units second = convert(api, from, to, b); got.insert(got.end(), second.begin(), second.end()); }
        CHECK("piecewise", got == whole, call_name(api, from, to) << " of " << show(in) << " cut at " << cut << ": " << show(got) << ", whole: " << show(whole));
    }
    // several chunks
    Units got;
    std::size_t last = 0;
    for (std::size_t cut : cuts)
        if (cut == in.size() || c.flag(0.3))
        {
            const Units piece(in.begin() + static_cast<long>(last), in.begin() + static_cast<long>(cut));
            if (api < 2) got = convert(api, from, to, piece, got);
            else { const Units s = convert(api, from, to, piece); got.insert(got.end(), s.begin(), s.end()); }
            last = cut;
        }
    CHECK("piecewise", got == whole, "chunked " << call_name(api, from, to) << " of " << show(in) << ": " << show(got) << ", whole: " << show(whole));
}

// a pointer with a length converts exactly that many units, whatever follows
PROP(length_is_respected, .quick = 200000)
{
    const Units all = gen_units(c, F8, 12);
    const std::size_t n = c.draw(all.size() + 1);
    const Units part(all.begin(), all.begin() + static_cast<long>(n));
    const std::string s = string_of<char>(all);
    NOTE(show(all) << " first " << n);
    c.nontrivial(n < all.size());
    std::u16string o16; std::u32string o32;
    pluto::utf8_to_utf16(s.data(), n, o16);
    pluto::utf8_to_utf32(s.data(), n, o32);
    CHECK("length", units_of(o16) == expected(T_char, T_char16, part), "utf8_to_utf16 of the first " << n << " units of " << show(all) << " gives " << show(units_of(o16)));
    CHECK("length", units_of(o32) == expected(T_char, T_char32, part), "utf8_to_utf32 of the first " << n << " units of " << show(all) << " gives " << show(units_of(o32)));
    CHECK("length", units_of(pluto::u8str(s.data(), n)) == part, "u8str of the first " << n << " units");
    CHECK("length", units_of(pluto::wstr(s.data(), n)) == expected(T_char, T_wchar, part), "wstr of the first " << n << " units");
    const Units all16 = gen_units(c, F16, 12);
    const std::size_t m = c.draw(all16.size() + 1);
    const Units part16(all16.begin(), all16.begin() + static_cast<long>(m));
    const std::u16string s16 = string_of<char16_t>(all16);
    CHECK("length", units_of(pluto::str(s16.data(), m)) == expected(T_char16, T_char, part16), "str of the first " << m << " units of " << show(all16));
    CHECK("length", units_of(pluto::u32str(s16.data(), m)) == expected(T_char16, T_char32, part16), "u32str of the first " << m << " units of " << show(all16));
}

// a long output already there, a long input in chunks: appended like a short one
PROP(long_piecewise, .quick = 4000)
{
    const Form f = static_cast<Form>(c.draw(3));
    const Units in = c.flag(0.5) ? encode(f, gen_long_text(c, 40000)) : gen_long_units(c, f, 40000);
    const int from = gen_type(c, f);
    int to = static_cast<int>(c.draw(T_count)), api = static_cast<int>(c.draw(2));
    if (!has_api(api, from, to)) return;
    std::vector<std::size_t> cuts{ 0 };
    const std::size_t pieces = 1 + c.draw(6);
    for (std::size_t k = 0; k < pieces; ++k)
    {   // the first character boundary after a drawn place
        const std::size_t want = cuts.back() + c.large(in.size() - cuts.back());
        std::size_t i = cuts.back();
        while (i < want && i < in.size()) { std::uint32_t cp; const unsigned n = character(f, in, i, cp); i += n ? n : 1; }
        cuts.push_back(i);
    }
    cuts.push_back(in.size());
    NOTE(show(in) << " " << call_name(api, from, to) << ", cut at " << pbt::show(cuts));
    c.nontrivial(in.size() > 100);
    const Units whole = convert(api, from, to, in);
    Units got;
    for (std::size_t k = 0; k + 1 < cuts.size(); ++k)
    {
        const Units before = got;
        got = convert(api, from, to, Units(in.begin() + static_cast<long>(cuts[k]), in.begin() + static_cast<long>(cuts[k + 1])), got);
        CHECK("earlier contents", got.size() >= before.size() && std::equal(before.begin(), before.end(), got.begin()), call_name(api, from, to) << " changed the " << before.size() << " units already in the output");
    }
    CHECK("piecewise", got == whole, call_name(api, from, to) << " of " << in.size() << " units in pieces " << pbt::show(cuts) << " gives " << got.size() << " units, in one go " << whole.size());
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P03", "cases: random well-formed and malformed texts; non-trivial: non-empty input with earlier output contents (ways_agree), at least two characters (piecewise), input longer than the length given (length_is_respected)");
}
