// P21: the stopwatch on a clock under the test's control.  Compiled for clocks of several resolutions.
#include <chrono>
#include <cstdint>
struct TestClock
{
    typedef CLOCK_REP rep;
    typedef CLOCK_PERIOD period;
    typedef std::chrono::duration<rep, period> duration;
    typedef std::chrono::time_point<TestClock> time_point;
    static const bool is_steady = true;
    static rep ticks, per_call; // every reading of the clock may take its time
    static time_point now() { const time_point t{ duration(ticks) }; ticks += per_call; return t; }
};
#define PLUTO_STOPWATCH_CLOCK_TYPE TestClock
#include "pbt.hpp"
#include <pluto/stopwatch.hpp>
using pbt::show;
#define NAME2(a, b) a##_##b
#define NAME1(a, b) NAME2(a, b)
#define PROP2(name, ...) PROP(name, __VA_ARGS__)
#define VPROP(name, ...) PROP2(NAME1(name, VARIANT), __VA_ARGS__)
TestClock::rep TestClock::ticks = 0, TestClock::per_call = 0;

namespace
{
    typedef std::chrono::duration<long long, std::ratio<86400>> days;
    typedef std::chrono::duration<long long, std::ratio<1, 60>> frames;
    typedef std::chrono::duration<int, std::ratio<1>> int_seconds;
    typedef __int128 wide;

    struct Model
    {
        wide total{ 0 };      // ticks measured in finished runs
        wide since{ 0 };
        bool running{ false };
        wide time(wide now) const { return total + (running ? now - since : 0); }
    };
    // truncated conversion of ticks of CLOCK_PERIOD
    template<class D> long long in(wide ticks)
    {
        typedef std::ratio_divide<CLOCK_PERIOD, typename D::period> r;
        const wide n = ticks * r::num;
        return static_cast<long long>(n / r::den);
    }
    template<class A, class B> void same(const char* what, A got, B expected, wide ticks)
    {
        CHECK("reading", static_cast<wide>(got) == static_cast<wide>(expected), what << " of " << static_cast<long long>(ticks) << " ticks: got " << show(got) << ", expected " << show(expected));
    }
    void check(const pluto::stopwatch& w, const Model& m)
    {
        const wide t = m.time(TestClock::ticks);
        CHECK_EQ("is_running", w.is_running(), m.running, "is_running");
        CHECK_EQ("time", w.time().count(), static_cast<TestClock::rep>(t), "time in ticks");
        using namespace std::chrono;
        same("in_nanoseconds", w.in_nanoseconds(), in<nanoseconds>(t), t);
        same("in_microseconds", w.in_microseconds(), in<microseconds>(t), t);
        same("in_milliseconds", w.in_milliseconds(), in<milliseconds>(t), t);
        same("in_seconds", w.in_seconds(), in<seconds>(t), t);
        same("in_minutes", w.in_minutes(), in<minutes>(t), t);
        same("in_hours", w.in_hours(), in<hours>(t), t);
        same("count<days>", w.count<days>(), in<days>(t), t);
        if (t <= 3000000000000000000ll && t >= -3000000000000000000ll) // or else it does not fit
        {
            same("count<frames>", w.count<frames>(), in<frames>(t), t);
            if (t >= 0) same("count<frames>(60)", w.count<frames>(60), in<frames>(t) % 60, t);
        }
        if (t < 0) return; // by a clock that was set back
        same("count<seconds>(7)", w.count<seconds>(7), in<seconds>(t) % 7, t);
        same("count<milliseconds>(5000000000)", w.count<milliseconds>(5000000000ll), in<milliseconds>(t) % 5000000000ll, t);
        const long long ns = w.nanoseconds_part(), us = w.microseconds_part(), ms = w.milliseconds_part(), s = w.seconds_part(), min = w.minutes_part(), h = w.hours_part();
        CHECK("part range", ns >= 0 && ns < 1000 && us >= 0 && us < 1000 && ms >= 0 && ms < 1000 && s >= 0 && s < 60 && min >= 0 && min < 60 && h >= 0, "a part is out of range: " << h << "h " << min << "m " << s << "s " << ms << "ms " << us << "us " << ns << "ns");
        const wide sum = ((((static_cast<wide>(h) * 60 + min) * 60 + s) * 1000 + ms) * 1000 + us) * 1000 + ns;
        CHECK("parts", sum == in<nanoseconds>(t), "the parts " << h << "h " << min << "m " << s << "s " << ms << "ms " << us << "us " << ns << "ns do not make up " << in<nanoseconds>(t) << " ns");
        CHECK_EQ("time", w.time().count(), static_cast<TestClock::rep>(t), "time after reading");
        CHECK_EQ("is_running", w.is_running(), m.running, "is_running after reading");
    }
    // up to about 280 years in all; steps of every scale
    wide step(pbt::Case& c, wide room)
    {
        const wide second = static_cast<wide>(CLOCK_PERIOD::den) / CLOCK_PERIOD::num;
        wide s = 0;
        switch (c.draw(6))
        {
        case 0: s = static_cast<wide>(c.draw(2000)); break;
        case 1: s = 0; break;
        case 2: s = second * static_cast<wide>(c.draw(4000)) / 1000 + static_cast<wide>(c.draw(3)) - 1; break;
        case 3: s = second * static_cast<wide>(c.draw(8000)) + static_cast<wide>(c.draw(3)) - 1; break;
        case 4: s = static_cast<wide>(c.draw(0) >> (1 + c.draw(60))); break;
        default: s = second * 60 * static_cast<wide>(c.draw(2000000)) + static_cast<wide>(c.draw(1000000)); break;
        }
        if (s < 0) s = 0;
        return s > room ? room : s;
    }
}
VPROP(histories, .quick = 150000)
{
    // everything must be expressible in 64 bit nanoseconds
    const wide limit = static_cast<wide>(9000000000000000000ll) / (static_cast<wide>(CLOCK_PERIOD::num) * 1000000000 / CLOCK_PERIOD::den);
    wide room = limit / 4 * 3;
    const bool back = c.draw(5) == 0; // the clock is set back now and then
    static const long long epochs[] = { 0, 1, -1, 1000000000, -5000000000ll, 1700000000000000000ll };
    long long epoch = c.pick(epochs);
    if (static_cast<wide>(epoch) > limit / 4) epoch = static_cast<long long>(limit / 4);
    if (static_cast<wide>(epoch) < -limit / 4) epoch = -static_cast<long long>(limit / 4);
    TestClock::ticks = epoch;
    TestClock::per_call = 0;
    struct Watch { pluto::stopwatch w; Model m; };
    std::vector<Watch> ws;
    const auto create = [&](int how)
    {
        Model m;
        if (how == 2) { m.running = true; m.since = TestClock::ticks; ws.push_back({ pluto::stopwatch(true), m }); }
        else if (how == 1) ws.push_back({ pluto::stopwatch(false), m });
        else ws.push_back({ pluto::stopwatch(), m });
    };
    const int first = static_cast<int>(c.draw(3));
    NOTE("clock at " << epoch << ", created " << (first == 2 ? "running:" : "stopped:"));
    create(first);
    check(ws[0].w, ws[0].m);
    const std::size_t n = c.length(40);
    int runs = 0;
    wide measured = 0;
    for (std::size_t i = 0; i < n; ++i)
    {
        const std::size_t k = c.draw(ws.size());
        const wide now = TestClock::ticks;
        Model& m = ws[k].m;
        pluto::stopwatch& w = ws[k].w;
        switch (c.weighted({ 6, 4, 4, 1, 1, 2, 2, 0.5, 0.3 }))
        {
        case 0:
        {
            wide s = step(c, room);
            room -= s;
            if (back && c.draw(3) == 0 && now - s >= -limit / 4) s = -s;
            TestClock::ticks += static_cast<TestClock::rep>(s);
            NOTE((s < 0 ? " " : " +") << static_cast<long long>(s));
            if (s < 0) c.label("clock set back");
            break;
        }
        case 1: NOTE(" start" << k); w.start(); if (!m.running) { m.running = true; m.since = now; ++runs; } break;
        case 2: NOTE(" stop" << k); w.stop(); if (m.running) { m.total += now - m.since; m.running = false; } break;
        case 3: NOTE(" restart" << k); w.restart(); m.total = 0; m.running = true; m.since = now; break;
        case 4: NOTE(" reset" << k); w.reset(); m = Model(); break;
        case 5:
        {
            NOTE(" stop_and_time" << k);
            const auto t = w.stop_and_time();
            if (m.running) { m.total += now - m.since; m.running = false; }
            CHECK_EQ("stop_and_time", t.count(), static_cast<TestClock::rep>(m.total), "stop_and_time in ticks");
            break;
        }
        case 6: NOTE(" read" << k); break;
        case 7: if (ws.size() < 4) { NOTE(" copy" << k); const Watch copy = ws[k]; ws.push_back(copy); } break;
        default: { const std::size_t j = c.draw(ws.size()); NOTE(" " << j << "=" << k); ws[j].w = ws[k].w; ws[j].m = ws[k].m; break; }
        }
        for (auto& x : ws) { check(x.w, x.m); if (x.m.time(TestClock::ticks) > measured) measured = x.m.time(TestClock::ticks); }
    }
    c.nontrivial(runs > 1 && measured > 0);
    if (measured * CLOCK_PERIOD::num > static_cast<wide>(3600) * CLOCK_PERIOD::den) c.label("more than an hour measured");
    if (measured * CLOCK_PERIOD::num > static_cast<wide>(3600000000ll) * CLOCK_PERIOD::den) c.label("more than a million hours measured");
}

// a clock that moves on whenever it is read: every reading is of some moment within the call, and what is stopped stays
VPROP(moving_clock, .quick = 40000)
{
    struct Bounds { wide lo{ 0 }, hi{ 0 }, since_lo{ 0 }, since_hi{ 0 }; bool running{ false }; };
    TestClock::ticks = static_cast<TestClock::rep>(c.draw(3)) * 1000000 - 1000000;
    TestClock::per_call = static_cast<TestClock::rep>(c.pick(std::vector<long long>{ 1, 1, 7, 1000, 1000000007ll }));
    NOTE("the clock moves on by " << static_cast<long long>(TestClock::per_call) << " at every reading:");
    pluto::stopwatch w;
    Bounds b;
    int stops = 0;
    const auto within = [&](const char* what, wide got, wide from, wide to)
    {
        const wide lo = b.lo + (b.running ? from - b.since_hi : 0), hi = b.hi + (b.running ? to - b.since_lo : 0);
        CHECK("moving clock", lo <= got && got <= hi, what << " gives " << static_cast<long long>(got) << " ticks, but between " << static_cast<long long>(lo) << " and " << static_cast<long long>(hi) << " have passed");
    };
    for (std::size_t n = c.length(30); n > 0; --n)
    {
        const wide from = TestClock::ticks;
        switch (c.weighted({ 3, 4, 3, 4, 4, 1, 1 }))
        {
        case 0: { const auto s = static_cast<TestClock::rep>(c.draw(3) ? c.draw(100) : c.draw(1000000000)); NOTE(" +" << static_cast<long long>(s)); TestClock::ticks += s; break; }
        case 1: NOTE(" start"); w.start(); if (!b.running) { b.running = true; b.since_lo = from; b.since_hi = TestClock::ticks; } break;
        case 2: case 3:
        {
            const bool time = c.draw(2) != 0;
            NOTE((time ? " stop_and_time" : " stop"));
            const bool was = b.running;
            wide t = 0;
            if (time) t = w.stop_and_time().count(); else w.stop();
            if (time) within("stop_and_time", t, from, TestClock::ticks);
            if (was) { b.lo += from - b.since_hi; b.hi += TestClock::ticks - b.since_lo; b.running = false; ++stops; }
            const wide now = w.time().count(), again = w.time().count();
            CHECK("moving clock", now == again, "a stopped stopwatch gives " << static_cast<long long>(now) << " and then " << static_cast<long long>(again) << " ticks");
            if (time) CHECK("moving clock", now == t, "stop_and_time gives " << static_cast<long long>(t) << " ticks, but time afterwards " << static_cast<long long>(now));
            within("time", now, 0, 0);
            b.lo = b.hi = now; // it is known now
            break;
        }
        case 4: { NOTE(" time"); const wide t = w.time().count(); within("time", t, from, TestClock::ticks); break; }
        case 5: NOTE(" restart"); w.restart(); b = Bounds(); b.running = true; b.since_lo = from; b.since_hi = TestClock::ticks; break;
        default: NOTE(" reset"); w.reset(); b = Bounds();
        }
        CHECK_EQ("is_running", w.is_running(), b.running, "is_running");
    }
    c.nontrivial(stops > 1);
    TestClock::per_call = 0;
}
