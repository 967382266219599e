// P07: binary, octal and hexadecimal text.
#include "pbt.hpp"
#include <pluto/string.hpp>
#include <limits>
using pbt::show;

template<class T> std::string ref(T value, unsigned base, const char* prefix)
{
    // schoolbook: value mod 2^width, digits by division
    unsigned __int128 v = static_cast<unsigned __int128>(value);
    if (sizeof(T) < 16) v &= (static_cast<unsigned __int128>(1) << (sizeof(T) * 8)) - 1;
    std::string digits;
    do { digits.insert(digits.begin(), "0123456789abcdef"[static_cast<unsigned>(v % base)]); v /= base; } while (v);
    return prefix + digits;
}
template<class T> T back(const std::string& s, unsigned base)
{
    unsigned __int128 v = 0;
    for (std::size_t i = 2; i < s.size(); ++i) v = v * base + static_cast<unsigned>(s[i] <= '9' ? s[i] - '0' : s[i] - 'a' + 10);
    return static_cast<T>(v);
}
template<class T> void check(T v)
{
    const std::string b = pluto::bin(v), o = pluto::oct(v), h = pluto::hex(v);
    CHECK_EQ("bin", b, ref(v, 2, "0b"), "bin of the " << sizeof(T) << "-byte value " << ref(v, 16, "0x"));
    CHECK_EQ("oct", o, ref(v, 8, "0o"), "oct of the " << sizeof(T) << "-byte value " << ref(v, 16, "0x"));
    CHECK_EQ("hex", h, ref(v, 16, "0x"), "hex of the " << sizeof(T) << "-byte value " << ref(v, 16, "0x"));
    CHECK("round-trip", back<T>(b, 2) == v && back<T>(o, 8) == v && back<T>(h, 16) == v, "reading the digits back");
}
// all 8 and 16 bit values of all such types
PROP(small_types_exhaustive, .quick = 256, .thorough = 256, .enumerate = true)
{
    const int hi = static_cast<int>(c.draw(256)) << 8;
    NOTE("16 bit values " << hi << ".." << hi + 255);
    c.nontrivial();
    for (int i = hi; i < hi + 256; ++i)
    {
        check(static_cast<std::int16_t>(i)); check(static_cast<std::uint16_t>(i)); check(static_cast<char16_t>(i));
        check(static_cast<std::int8_t>(i)); check(static_cast<std::uint8_t>(i)); check(static_cast<char>(i)); check(static_cast<char8_t>(i)); check((i & 1) != 0);
        check(static_cast<std::int32_t>(i)); check(static_cast<std::int64_t>(i)); check(-static_cast<std::int32_t>(i)); check(-static_cast<std::int64_t>(i));
    }
}
template<class T> void one(pbt::Case& c, const char* name)
{
    T v;
    if (sizeof(T) > 8) { const std::uint64_t hi = c.bits(); v = static_cast<T>((static_cast<unsigned __int128>(hi) << 64) | c.bits()); }
    else v = c.integer<T>();
    NOTE(name << " " << ref(v, 16, "0x"));
    c.nontrivial(v != 0);
    if (v < 0) c.label("negative");
    if (v == std::numeric_limits<T>::min() || v == std::numeric_limits<T>::max()) c.label("extreme");
    check(v);
}
PROP(values, .quick = 4000000)
{
    switch (c.draw(14))
    {
    case 0: one<int>(c, "int"); break;
    case 1: one<unsigned>(c, "unsigned"); break;
    case 2: one<long>(c, "long"); break;
    case 3: one<unsigned long>(c, "unsigned long"); break;
    case 4: one<long long>(c, "long long"); break;
    case 5: one<unsigned long long>(c, "unsigned long long"); break;
    case 6: one<short>(c, "short"); break;
    case 7: one<unsigned short>(c, "unsigned short"); break;
    case 8: one<signed char>(c, "signed char"); break;
    case 9: one<char>(c, "char"); break;
    case 10: one<wchar_t>(c, "wchar_t"); break;
    case 11: one<char32_t>(c, "char32_t"); break;
    case 12: one<__int128>(c, "__int128"); break;
    default: one<unsigned __int128>(c, "unsigned __int128"); break;
    }
}
int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P07", "cases: all 8 and 16 bit values; values of 14 integer types drawn from edges, powers of two and uniformly; non-trivial: value not zero");
}
