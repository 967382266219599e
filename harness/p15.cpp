// P15: ranges.
#include "pbt.hpp"
#include <chrono>
#include <climits>
#include <limits>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <pluto/range.hpp>
using pbt::show;

// a value with its own order that prints, no arithmetic
struct Version
{
    int major{ 0 }, minor{ 0 };
    bool operator==(const Version& o) const { return major == o.major && minor == o.minor; }
    bool operator!=(const Version& o) const { return !(*this == o); }
    bool operator<(const Version& o) const { return std::tie(major, minor) < std::tie(o.major, o.minor); }
    bool operator>(const Version& o) const { return o < *this; }
    bool operator<=(const Version& o) const { return !(o < *this); }
    bool operator>=(const Version& o) const { return !(*this < o); }
    bool operator<(int) const = delete;
};
std::string show(const Version& v) { return std::to_string(v.major) + "." + std::to_string(v.minor); }
// can be made from a list of itself, as JSON values are
struct Tree
{
    int n{ 0 }, depth{ 0 };
    Tree(int x) : n(x) {}
    Tree(std::initializer_list<Tree> l) : depth(1) { for (auto& t : l) { n += t.n; depth = std::max(depth, t.depth + 1); } }
    std::pair<int, int> key() const { return { n, depth }; }
    bool operator==(const Tree& o) const { return key() == o.key(); }
    bool operator!=(const Tree& o) const { return key() != o.key(); }
    bool operator<(const Tree& o) const { return key() < o.key(); }
    bool operator<=(const Tree& o) const { return key() <= o.key(); }
    bool operator>(const Tree& o) const { return key() > o.key(); }
    bool operator>=(const Tree& o) const { return key() >= o.key(); }
};
std::string show(const Tree& t) { return std::to_string(t.n) + "/" + std::to_string(t.depth); }
std::string show(const void* p) { pbt::Msg m; m << p; return m.str(); }

template<class T> int cmp(const T& a, const T& b) { return a < b ? -1 : b < a ? 1 : 0; }
template<class T> int lex(const std::pair<T, T>& a, const std::pair<T, T>& b) { const int c = cmp(a.first, b.first); return c ? c : cmp(a.second, b.second); }

template<class T> void one(const T& b, const T& e)
{
    const pluto::range<T> r(b, e);
    CHECK("keeps bounds", cmp(r.begin, b) == 0 && cmp(r.end, e) == 0, "a range made from [" << show(b) << ", " << show(e) << ") holds [" << show(r.begin) << ", " << show(r.end) << ")");
    const pluto::range<T> copy(r);
    CHECK("keeps bounds", cmp(copy.begin, b) == 0 && cmp(copy.end, e) == 0 && copy == r, "copy");
    pluto::range<T> other(e, b);
    other = r;
    CHECK("keeps bounds", cmp(other.begin, b) == 0 && cmp(other.end, e) == 0 && other.is_equal(r), "assignment");
    other.begin = e;
    other.end = b;
    CHECK("keeps bounds", cmp(other.begin, e) == 0 && cmp(other.end, b) == 0 && cmp(r.begin, b) == 0, "setting the bounds");
}
template<class T> void two(const std::pair<T, T>& p, const std::pair<T, T>& q)
{
    const pluto::range<T> a(p.first, p.second), b(q.first, q.second);
    const int order = lex(p, q);
    pbt::Msg m;
    m << "[" << show(p.first) << ", " << show(p.second) << ") and [" << show(q.first) << ", " << show(q.second) << ")";
    const std::string what = m.str();
    CHECK_EQ("==", (a == b), (order == 0), what << " ==");
    CHECK_EQ("!=", (a != b), (order != 0), what << " !=");
    CHECK_EQ("<", (a < b), (order < 0), what << " <");
    CHECK_EQ(">", (a > b), (order > 0), what << " >");
    CHECK_EQ("<=", (a <= b), (order <= 0), what << " <=");
    CHECK_EQ(">=", (a >= b), (order >= 0), what << " >=");
    CHECK_EQ("is_equal", a.is_equal(b), (order == 0), what << " is_equal");
    CHECK_EQ("is_less", a.is_less(b), (order < 0), what << " is_less");
    const bool overlap = cmp(p.first, q.first) == 0 || (p.first < q.second && q.first < p.second);
    CHECK_EQ("is_overlapping", a.is_overlapping(b), overlap, what << " is_overlapping");
    CHECK_EQ("overlap symmetric", a.is_overlapping(b), b.is_overlapping(a), what << " is_overlapping is not symmetric");
    const bool wellFormed = !(p.second < p.first) && !(q.second < q.first);
    if (wellFormed)
    {
        const bool ab = a.is_less_no_overlap(b), ba = b.is_less_no_overlap(a);
        CHECK("exactly one", static_cast<int>(overlap) + ab + ba == 1, what << ": overlapping " << overlap << ", before " << ab << ", after " << ba);
        // entirely before: ends where or before the other begins, and begins before it
        CHECK_EQ("is_less_no_overlap", ab, (!(q.first < p.second) && p.first < q.first), what << " is_less_no_overlap");
    }
}
template<class T> void three(const std::pair<T, T>& p, const std::pair<T, T>& q, const std::pair<T, T>& s)
{
    const pluto::range<T> a(p.first, p.second), b(q.first, q.second), d(s.first, s.second);
    CHECK("transitive", !(a < b && b < d) || a < d, "< is not transitive");
    CHECK("transitive", !(a <= b && b <= d) || a <= d, "<= is not transitive");
    CHECK("transitive", !(a == b && b == d) || a == d, "== is not transitive");
}
template<class T, class Gen> void run(pbt::Case& c, const char* name, Gen gen)
{
    std::vector<T> pool;    // few values, so that bounds coincide
    for (int i = 0; i < 4; ++i) pool.push_back(gen(c));
    const auto value = [&] { return c.flag(0.15) ? gen(c) : pool[c.draw(4)]; };
    std::pair<T, T> r[3] = { { value(), value() }, { value(), value() }, { value(), value() } };
    if (!c.flag(0.2)) for (auto& x : r) if (x.second < x.first) std::swap(x.first, x.second);
    NOTE(name);
    for (auto& x : r) { NOTE(" [" << show(x.first) << ", " << show(x.second) << ")"); if (x.second < x.first) c.label("reversed bounds"); if (cmp(x.first, x.second) == 0) c.label("empty range"); }
    c.nontrivial(lex(r[0], r[1]) != 0);
    for (auto& x : r) { one(x.first, x.second); for (auto& y : r) two(x, y); }
    three(r[0], r[1], r[2]);
}
template<class T> T number(pbt::Case& c) { return c.flag(0.6) ? static_cast<T>(c.around(-5, 5)) : c.integer<T>(); }
template<class T> void sizes(pbt::Case& c, const char* name)
{
    T b = number<T>(c), e = number<T>(c);
    if (e < b) std::swap(b, e);
    const __int128 d = static_cast<__int128>(e) - static_cast<__int128>(b);
    if (d > static_cast<__int128>(std::numeric_limits<T>::max())) return;
    NOTE(name << " [" << show(b) << ", " << show(e) << ")");
    c.nontrivial(d > 0);
    const pluto::range<T> r(b, e);
    CHECK("size", static_cast<__int128>(r.size()) == d, name << " [" << show(b) << ", " << show(e) << "): size is " << show(r.size()));
    const pluto::range<T> back(e, b);
    if (std::is_signed<T>::value) CHECK("size", static_cast<__int128>(back.size()) == -d, name << " reversed: size is " << show(back.size()));
}
PROP(order_and_overlap, .quick = 300000)
{
    switch (c.draw(10))
    {
    case 0: run<int>(c, "int", number<int>); break;
    case 1: run<unsigned>(c, "unsigned", number<unsigned>); break;
    case 2: run<long long>(c, "long long", number<long long>); break;
    case 3: run<unsigned long long>(c, "unsigned long long", number<unsigned long long>); break;
    case 4: run<signed char>(c, "signed char", number<signed char>); break;
    case 5: run<double>(c, "double", [](pbt::Case& k) { return k.flag(0.3) ? -0.0 : static_cast<double>(number<int>(k)) / 4; }); break;
    case 6: run<std::string>(c, "string", [](pbt::Case& k) { std::string s; const auto n = k.length(4); for (std::size_t i = 0; i < n; ++i) s += "ab\0\xff"[k.draw(4)]; return s; }); break;
    case 7: run<Version>(c, "Version", [](pbt::Case& k) { Version v; v.major = static_cast<int>(k.draw(3)); v.minor = static_cast<int>(k.draw(3)); return v; }); break;
    case 8: run<Tree>(c, "Tree", [](pbt::Case& k) { return Tree(static_cast<int>(k.draw(4))); }); break;
    default: { static char memory[16]; run<void*>(c, "void*", [](pbt::Case& k) { return static_cast<void*>(memory + k.draw(16)); }); }
    }
}
// all pairs and triples of ranges over 0..4
PROP(small_exhaustive, .quick = 625, .thorough = 625, .enumerate = true)
{
    const auto n = c.draw(625);
    const int b0 = static_cast<int>(n % 5), e0 = static_cast<int>(n / 5 % 5), b1 = static_cast<int>(n / 25 % 5), e1 = static_cast<int>(n / 125);
    NOTE("[" << b0 << ", " << e0 << ") and [" << b1 << ", " << e1 << ")");
    c.nontrivial();
    const std::pair<int, int> p(b0, e0), q(b1, e1);
    two(p, q);
    for (int x = 0; x < 25; ++x) three(p, q, std::make_pair(x % 5, x / 5));
}
PROP(size, .quick = 300000)
{
    switch (c.draw(7))
    {
    case 0: sizes<int>(c, "int"); break;
    case 1: sizes<unsigned>(c, "unsigned"); break;
    case 2: sizes<long>(c, "long"); break;
    case 3: sizes<unsigned long long>(c, "unsigned long long"); break;
    case 4: sizes<long long>(c, "long long"); break;
    case 5: sizes<short>(c, "short"); break;
    default:
    {
        const double b = static_cast<double>(number<int>(c)) / 8, e = static_cast<double>(number<int>(c)) / 8;
        NOTE("double [" << b << ", " << e << ")");
        CHECK_EQ("size", (pluto::range<double>(b, e).size()), e - b, "range<double>");
        static const char memory[64] = {};
        const auto x = c.draw(64), y = c.draw(64);
        c.nontrivial(x != y);
        CHECK_EQ("size", (pluto::range<const char*>(memory + x, memory + y).size()), static_cast<std::ptrdiff_t>(y) - static_cast<std::ptrdiff_t>(x), "range<const char*>");
        const std::vector<int> v(64);
        CHECK_EQ("size", (pluto::range<std::vector<int>::const_iterator>(v.begin() + static_cast<long>(x), v.begin() + static_cast<long>(y)).size()), static_cast<std::ptrdiff_t>(y) - static_cast<std::ptrdiff_t>(x), "range of iterators");
        typedef std::chrono::system_clock::time_point TP;
        const TP t0{ std::chrono::milliseconds(x) }, t1{ std::chrono::milliseconds(y) };
        CHECK("size", (pluto::range<TP>(t0, t1).size() == t1 - t0), "range of time points");
    }
    }
}
static_assert(std::is_same<pluto::int_range, pluto::range<int>>::value && std::is_same<pluto::pvoid_range, pluto::range<void*>>::value && std::is_same<pluto::ulong_long_range, pluto::range<unsigned long long>>::value, "");
int main(int argc, char** argv)
{
    return pbt::main(argc, argv, "P15", "cases: three ranges of one of ten bound types with shared bounds, some empty, some reversed; all pairs and triples over 0..4; non-trivial: ranges differ / size not zero");
}
