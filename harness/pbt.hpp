// Choice-sequence property-based testing engine (interface).
//
// Every random decision of a case is drawn through pbt::Case and recorded as an integer in one of two
// streams (0: data, 1: schedule).  A case is thus a pure function of two integer sequences; replay feeds
// recorded sequences back, and shrinking edits them (missing draws read as 0 = the simplest choice).
#pragma once
// all that the checks use of the standard library, so that they do not depend on what the headers under test include
#include <algorithm>
#include <array>
#include <atomic>
#include <cctype>
#include <chrono>
#include <climits>
#include <cmath>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <exception>
#include <forward_list>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iterator>
#include <limits>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace pbt
{
    struct Failure
    {
        std::string signature; // identifies what failed (stable across cases)
        std::string message;
    };

    class Case
    {
    public:
        // ---- raw draws (recorded)
        std::uint64_t draw(std::uint64_t bound);               // [0,bound), bound 0 = all 64 bits
        bool          flag(double probability);                 // 1 with the probability; 0 is simplest
        std::uint64_t sched_draw(std::uint64_t bound);          // schedule stream, uniform
        std::uint64_t sched_weighted(std::uint64_t n, double p0);// schedule stream: 0 with p0, else uniform 1..n-1

        // ---- helpers
        long long range(long long lo, long long hi);            // inclusive, shrinks to lo
        long long around(long long lo, long long hi);           // inclusive, shrinks to 0 (or nearest bound)
        bool more(double p = 0.8) { return flag(p); }
        template<class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
        template<class T, std::size_t N> const T& pick(const T (&v)[N]) { return v[draw(N)]; }
        std::size_t weighted(const std::vector<double>& weights);
        std::uint64_t bits();                                   // interesting 64 bit patterns
        template<class T> T integer()                           // interesting values of an integer type
        {
            return static_cast<T>(bits());
        }
        std::size_t length(std::size_t max);                    // mostly short, sometimes up to max
        std::size_t large(std::size_t max);                     // 0..max, often next to powers of two and round numbers

        // ---- bookkeeping
        void nontrivial(bool value = true) { if (value) m_nontrivial = true; }
        void label(const char* name);                           // classification counter
        bool verbose() const { return m_verbose; }
        std::ostringstream& out() { return m_out; }
        double scale() const { return m_scale; }                // 0..1 grows over the run

        bool m_nontrivial{ false };
        bool m_verbose{ false };
        double m_scale{ 1 };
        std::ostringstream m_out{};
    };

    struct Options
    {
        std::uint64_t quick{ 20000 };       // cases in the quick tier
        std::uint64_t thorough{ 0 };        // 0: 15 x quick
        bool          fork_each{ false };   // run every case in its own process
        bool          enumerate{ false };   // case i is index i; counts are exact and exhaustive
        double        cpu_limit{ 10 };      // seconds of CPU time after which a case counts as hanging
        std::function<bool()> enabled{};
    };

    struct Prop
    {
        std::string name;
        Options     options;
        std::function<void(Case&)> run;
    };

    std::vector<Prop>& props();
    struct Register
    {
        Register(const char* name, Options options, std::function<void(Case&)> run);
    };

    [[noreturn]] void fail(const std::string& signature, const std::string& message);
    bool thorough();
    std::string scratch_dir();                                 // per worker, removed at the end
    int  main(int argc, char** argv, const char* property, const char* rule);

    // replaces the way a failure is raised (vsched cannot unwind through other threads)
    extern void (*fail_hook)(const std::string&, const std::string&);

    // ---- printing of values in messages
    std::string show_bytes(const void* data, std::size_t size);
    inline std::string show(const std::string& s) { return show_bytes(s.data(), s.size()); }
    template<class C> std::string show_units(const C* s, std::size_t n)
    {
        static const char* const hex = "0123456789abcdef";
        std::string r = "<";
        for (std::size_t i = 0; i < n; ++i)
        {
            if (i == 300) return r + " ...(" + std::to_string(n) + " units)>";
            std::uint32_t u = static_cast<std::uint32_t>(static_cast<typename std::make_unsigned<
                typename std::conditional<std::is_same<C, wchar_t>::value, std::int32_t,
                typename std::conditional<sizeof(C) == 2, std::uint16_t,
                typename std::conditional<sizeof(C) == 1, std::uint8_t, std::uint32_t>::type>::type>::type>::type>(s[i]));
            if (i) r += ' ';
            std::string d;
            do { d.insert(d.begin(), hex[u & 15]); u >>= 4; } while (u);
            r += d;
        }
        return r + ">";
    }
    inline std::string show(const std::wstring& s) { return show_units(s.data(), s.size()); }
    inline std::string show(const std::u16string& s) { return show_units(s.data(), s.size()); }
    inline std::string show(const std::u32string& s) { return show_units(s.data(), s.size()); }
#if __cplusplus >= 202002L
    inline std::string show(const std::u8string& s) { return show_units(s.data(), s.size()); }
#endif
    inline std::string show(bool b) { return b ? "true" : "false"; }
    template<class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
    std::string show(T v) { std::ostringstream s; s.precision(17); s << +v; return s.str(); }
    template<class A, class B> std::string show(const std::pair<A, B>& p) { return "(" + show(p.first) + "," + show(p.second) + ")"; }
    template<class C> auto show(const C& c) -> decltype(c.begin(), c.end(), typename std::enable_if<!std::is_arithmetic<C>::value, std::string>::type())
    {
        std::string r = "[";
        bool first = true;
        std::size_t n = 0;
        for (const auto& e : c) { if (++n > 300) return r + ", ...(" + std::to_string(std::distance(c.begin(), c.end())) + " elements)]"; if (!first) r += ", "; first = false; r += show(e); }
        return r + "]";
    }

    struct Msg
    {
        std::ostringstream s;
        template<class T> Msg& operator<<(const T& v) { s << v; return *this; }
        std::string str() const { return s.str(); }
    };
}

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PROP(name, options...) { body using c }
#define PROP(NAME, ...) \
    static void PBT_CAT(prop_fn_, NAME)(pbt::Case& c); \
    static const pbt::Register PBT_CAT(prop_reg_, NAME){ #NAME, pbt::Options{ __VA_ARGS__ }, PBT_CAT(prop_fn_, NAME) }; \
    static void PBT_CAT(prop_fn_, NAME)(pbt::Case& c)

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
// CHECK(sig, cond, message stream)
#define CHECK(SIG, COND, MSG) \
    do { if (!(COND)) { pbt::Msg pbt_m; pbt_m << MSG; pbt::fail(SIG, pbt_m.str()); } } while (0)
#define CHECK_EQ(SIG, A, B, MSG) \
    do { const auto& pbt_a = (A); const auto& pbt_b = (B); \
        if (!(pbt_a == pbt_b)) { using pbt::show; pbt::Msg pbt_m; pbt_m << MSG << ": got " << show(pbt_a) << ", expected " << show(pbt_b); \
            pbt::fail(SIG, pbt_m.str()); } } while (0)
#define NOTE(X) do { if (c.verbose()) c.out() << X; } while (0)
