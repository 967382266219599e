// P01: well-formed text converts losslessly between all encodings.
#include "unicode_model.hpp"
using namespace uni;

static void step(int api, int from, int to, const Units& cps, const Units& in)
{
    const Units want = encode(form_of(to), cps);
    const Units got = convert(api, from, to, in);
    CHECK("encoding", got == want, call_name(api, from, to) << " of " << show(in) << " gives " << show(got) << ", the standard encoding is " << show(want));
}

// all 0x110000 code points: every scalar value alone through every function, and in a text with its neighbours
PROP(all_code_points, .quick = 0x1100, .thorough = 0x1100, .enumerate = true)
{
    const std::uint32_t block = static_cast<std::uint32_t>(c.draw(0x1100)) * 256;
    Units all;
    for (std::uint32_t cp = block; cp < block + 256; ++cp)
        if (scalar(cp)) all.push_back(cp);
    NOTE("code points " << std::hex << block << ".." << block + 255 << ", " << std::dec << all.size() << " scalar values");
    if (all.empty()) return;
    c.nontrivial();
    for (int from = 0; from < T_count; ++from)
        for (int to = 0; to < T_count; ++to)
            for (int api = 0; api < 4; ++api)
                if (has_api(api, from, to) && (pbt::thorough() || (standard(from) && standard(to)) || (block >> 8) % 8 == 0)) step(api, from, to, all, encode(form_of(from), all));
    static const int rep[] = { T_char, T_char16, T_char32 };
    for (auto cp : all)
    {
        const Units one{ cp };
        for (int a = 0; a < 3; ++a)
            for (int b = 0; b < 3; ++b)
                if (has_api((a + b) % 2, rep[a], rep[b])) step((a + b) % 2, rep[a], rep[b], one, encode(form_of(rep[a]), one));
    }
}

// random texts along random paths of encodings, back to the start
PROP(paths, .quick = 250000, .thorough = 6000000)
{
    const Units cps = gen_text(c, 60);
    int at = static_cast<int>(c.draw(T_count));
    const int start = at;
    const Units original = encode(form_of(at), cps);
    Units now = original;
    NOTE("code points " << show(cps) << " path " << type_name[at]);
    std::size_t multi = 0;
    for (auto cp : cps) multi += cp > 0x7F;
    c.nontrivial(multi > 0);
    if (multi) c.label("non-ASCII");
    for (auto cp : cps) if (cp > 0xFFFF) c.label("supplementary planes");
    const int steps = 1 + static_cast<int>(c.draw(4));
    for (int i = 0; i <= steps; ++i)
    {
        int to = i < steps ? static_cast<int>(c.draw(T_count)) : start;
        const int api = static_cast<int>(c.draw(4));
        if (!has_api(api, at, to))
        {
            // the other pair of functions, or none: e.g. unsigned->int has no conversion
            bool found = false;
            for (int k = 0; k < 4 && !found; ++k) if (has_api(k, at, to)) { step(k, at, to, cps, now); now = convert(k, at, to, now); found = true; }
            if (!found) continue;
        }
        else
        {
            step(api, at, to, cps, now);
            now = convert(api, at, to, now);
        }
        at = to;
        NOTE(" -> " << type_name[to]);
        CHECK("round-trip", now == encode(form_of(at), cps), "after the step to " << type_name[at] << ": " << show(now));
    }
    if (at == start) { c.label("returned"); CHECK("round-trip", now == original, "the path back does not restore the text"); }
}

// long texts: sizes around and between powers of two, far beyond string buffers, growth steps and 16 bit counters
PROP(long_texts, .quick = 4000)
{
    const Units cps = gen_long_text(c, 150000);
    const int from = static_cast<int>(c.draw(T_count)), to = static_cast<int>(c.draw(T_count)), api = static_cast<int>(c.draw(4));
    NOTE(show(cps) << " " << call_name(api, from, to));
    if (!has_api(api, from, to)) return;
    c.nontrivial(cps.size() > 100);
    if (cps.size() > 65536) c.label("more than 65536 characters");
    const Units in = encode(form_of(from), cps), want = encode(form_of(to), cps), got = convert(api, from, to, in);
    std::size_t at = 0;
    while (at < got.size() && at < want.size() && got[at] == want[at]) ++at;
    CHECK("encoding", got == want, call_name(api, from, to) << " of a text of " << cps.size() << " characters differs from the standard encoding in unit " << at << " of " << want.size() << " (got " << got.size() << " units)");
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P01", "cases: all code points in blocks of 256 (exhaustive) and random well-formed texts; non-trivial: contains a character outside ASCII (paths), a scalar value (all_code_points), an existing conversion (long_texts)");
}
