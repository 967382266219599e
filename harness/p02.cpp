// P02: malformed input is replaced unit by unit, never fatal, and never eats good text.
#include "unicode_model.hpp"
using namespace uni;

static void check(int api, int from, int to, const Units& in)
{
    const Units got = convert(api, from, to, in), want = expected(from, to, in);
    CHECK("replacement", got == want, call_name(api, from, to) << " of " << show(in) << " gives " << show(got) << ", expected " << show(want));
    // independent of the model: the output is well formed and as long as the number of characters + bad units
    if (!pbt::thorough() && got.size() < 3) return;
    const Decoded out = decode(form_of(to), got), src = decode(form_of(from), in);
    CHECK("ill-formed output", out.invalid == 0, call_name(api, from, to) << " of " << show(in) << " gives the ill-formed " << show(got));
    CHECK("replacement", out.cps.size() == src.cps.size(), "wrong number of characters");
}

// all sequences of up to 3 bytes, and 4 bytes with boundary values in the last two, also followed by a good character
PROP(utf8_short_sequences, .quick = 0x10000, .thorough = 0x10000, .enumerate = true)
{
    const std::uint32_t ab = static_cast<std::uint32_t>(c.draw(0x10000)), a = ab >> 8, b = ab & 255;
    NOTE("first bytes " << std::hex << a << " " << b);
    c.nontrivial();
    if (b == 0) for (int to : { T_char16, T_char32 }) { check(0, T_char, to, { a }); check(0, T_uchar, to, { a, 0x41 }); }
    for (int to : { T_char16, T_char32 })
    {
        check(0, T_char, to, { a, b });
        check(1, T_char8, to, { a, b });
        for (std::uint32_t x = 0; x < 256; ++x) if (pbt::thorough() || a >= 0xC0 || x % 16 == 15 || x % 16 == 0) check(0, T_char, to, { a, b, x });
        if (a >= 0xF0 || (pbt::thorough() && a >= 0xC0))
            for (std::uint32_t x : { 0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0xBF, 0xC0, 0xE2, 0xF0, 0xFF })
                for (std::uint32_t y : { 0x00, 0x7F, 0x80, 0xBF, 0xC0, 0xC3, 0xFF })
                {
                    check(0, T_char, to, { a, b, x, y });
                    check(0, T_char, to, { a, b, x, y, 0x80, 0x41 });
                }
    }
}

// every UTF-16 unit alone, before and after boundary units
PROP(utf16_pairs, .quick = 0x1000, .thorough = 0x1000, .enumerate = true)
{
    const std::uint32_t block = static_cast<std::uint32_t>(c.draw(0x1000)) * 16;
    NOTE("units " << std::hex << block << "..");
    c.nontrivial();
    for (std::uint32_t u = block; u < block + 16; ++u)
        for (int to : { T_char, T_char32 })
        {
            check(0, T_char16, to, { u });
            for (std::uint32_t v : { 0x0000, 0x0041, 0x0800, 0xD7FF, 0xD800, 0xDAAA, 0xDBFF, 0xDC00, 0xDCCC, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF })
            {
                check(0, T_char16, to, { u, v });
                check(1, T_short, to, { v, u });
                check(0, T_ushort, to, { v, u, 0xDC00, 0x41 });
            }
        }
}

// UTF-32 values around everything, including all 2^16-blocks of the 32 bit space
PROP(utf32_values, .quick = 0x10000, .thorough = 0x10000, .enumerate = true)
{
    const std::uint32_t high = static_cast<std::uint32_t>(c.draw(0x10000)) << 16;
    NOTE("values with high half " << std::hex << high);
    c.nontrivial();
    for (std::uint32_t low : { 0x0000, 0x0001, 0x0041, 0x007F, 0x0080, 0x07FF, 0x0800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF })
    {
        check(0, T_char32, T_char, { high | low });
        check(2, T_char32, T_char16, { high | low, 0x41 });
        check(0, T_int, T_char16, { high | low });
        check(2, T_wchar, T_char, { 0x20AC, high | low });
    }
}

// random mixtures of good, damaged and arbitrary units through every function
PROP(mixtures, .quick = 300000, .thorough = 9000000)
{
    const Form f = static_cast<Form>(c.draw(3));
    const Units in = gen_units(c, f, 40);
    const int from = gen_type(c, f);
    const int to = static_cast<int>(c.draw(T_count));
    int api = static_cast<int>(c.draw(4));
    const Decoded d = decode(f, in);
    NOTE(show(in) << " " << call_name(api, from, to) << ", " << d.invalid << " bad units, " << d.cps.size() - d.invalid << " characters");
    for (int k = 0; k < 4 && !has_api(api, from, to); ++k) api = (api + 1) % 4;
    if (!has_api(api, from, to) || form_of(from) == form_of(to)) { c.label("no such conversion"); return; }
    c.nontrivial(d.invalid > 0 && d.invalid < d.cps.size());
    if (d.invalid) c.label("has malformed units");
    if (d.multi && d.invalid) c.label("multi-unit characters beside malformed units");
    check(api, from, to, in);
}

// long inputs with bad units at any distance from each other
PROP(long_mixtures, .quick = 4000)
{
    const Form f = static_cast<Form>(c.draw(3));
    const Units in = gen_long_units(c, f, 150000);
    const int from = gen_type(c, f);
    const int to = static_cast<int>(c.draw(T_count));
    int api = static_cast<int>(c.draw(4));
    for (int k = 0; k < 4 && !has_api(api, from, to); ++k) api = (api + 1) % 4;
    NOTE(show(in) << " " << call_name(api, from, to));
    if (!has_api(api, from, to) || form_of(from) == form_of(to)) { c.label("no such conversion"); return; }
    c.nontrivial(in.size() > 100);
    const Units got = convert(api, from, to, in), want = expected(from, to, in);
    std::size_t at = 0;
    while (at < got.size() && at < want.size() && got[at] == want[at]) ++at;
    CHECK("replacement", got == want, call_name(api, from, to) << " of an input of " << in.size() << " units differs from the expected output in unit " << at << " of " << want.size() << " (got " << got.size() << " units)");
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P02", "cases: all short byte/unit sequences in blocks (exhaustive as described) and random mixtures; non-trivial (mixtures): at least one malformed unit and one well-formed character");
}
