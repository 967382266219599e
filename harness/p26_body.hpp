// P26: scheduled tasks start on time, in time order, exactly once.
#ifdef COARSE_CLOCK
#include <chrono>
namespace coarse
{
    // a clock of the user's: milliseconds
    struct Clock
    {
        typedef std::chrono::milliseconds duration;
        typedef duration::rep rep;
        typedef duration::period period;
        typedef std::chrono::time_point<Clock> time_point;
        static constexpr bool is_steady = false;
        static time_point now() { return time_point(std::chrono::duration_cast<duration>(std::chrono::system_clock::now().time_since_epoch())); }
    };
}
#define PLUTO_THREAD_POOL_CLOCK_TYPE coarse::Clock
#endif
#include "pool.hpp"
#include <algorithm>
using namespace pool_test;

namespace
{
    long long draw_offset(pbt::Case& c)
    {
        switch (c.weighted({ 6, 1, 1, 2
#ifdef COARSE_CLOCK
            , 0, 0
#else
            , 0.4, 0.4
#endif
            }))
        {
        case 0: { static const long long ms[] = { 1, 2, 3, 5, 8, 10, 20, 0, 50 }; return ms[c.draw(9)] * MS; }
        case 1: return -static_cast<long long>(c.draw(6)) * MS;
        case 2: return -static_cast<long long>(c.draw(4000)) * 1000;
        case 3: return static_cast<long long>(c.draw(4000)) * 1000;
        case 4: return FOR_EVER;
        default: return BIG_BANG;
        }
    }
    Action draw_scheduled(pbt::Case& c, World& w, bool same_priority)
    {
        const long long offset = draw_offset(c);
        const int id = new_task(c, w, 1);
        if (same_priority) w.plans.back().priority = 0;
        Action a{ c.draw(2) ? AT : AFTER, id, offset };
        if (a.kind == AFTER && offset == FOR_EVER && c.draw(2)) a.value -= vs::START + static_cast<long long>(c.draw(60)) * MS - 20 * MS; // where the clock just can, or cannot, count any more
        return a;
    }
    // the standard library waits by its own clock for the time left by the user's: late by a tick and by what passes between its two readings
#ifdef COARSE_CLOCK
    constexpr long long TICK = 2 * MS;
#else
    constexpr long long TICK = 0;
#endif
    // nothing moves and no time passes: whatever is due must have been started
    void check_due(pbt::Case& c, const World& w, long long before, long long after, Stamp from, std::size_t target, std::size_t scheduled)
    {
        std::size_t running = 0, least = 0, most = 0;
        for (auto& r : w.recs) running += r.start != NEVER && !(r.end < from);
        for (std::size_t i = 0; i < w.recs.size(); ++i)
        {
            const Rec& r = w.recs[i];
            if (r.call == NEVER || (r.kind != AT && r.kind != AFTER)) continue;
            if (r.start == NEVER && r.ret < from && r.due_latest <= before - TICK && running < target) { describe_history(c, w); CHECK("late", false, "task " << i << " was due at " << (r.due_latest - vs::START) << " ns; it is " << (before - vs::START) << " ns, nothing moves and a worker is free, but it has not started (" << scheduled << " tasks are pending)"); }
            least += r.ret < from && r.due > after;
            most += r.due_latest > before - TICK;
        }
        if (!(least <= scheduled && scheduled <= most)) describe_history(c, w);
        CHECK("scheduled_tasks_size", least <= scheduled && scheduled <= most, "scheduled_tasks_size() is " << scheduled << " but " << least << (least == most ? "" : " or more") << " tasks are pending, at " << (before - vs::START) << " to " << (after - vs::START));
    }
    void check_order(pbt::Case& c, const World& w)
    {
        for (std::size_t i = 0; i < w.recs.size(); ++i)
            for (std::size_t k = 0; k < w.recs.size(); ++k)
            {
                const Rec &A = w.recs[i], &B = w.recs[k];
                if (i == k || A.call == NEVER || B.start == NEVER || (A.kind != AT && A.kind != AFTER) || (B.kind != AT && B.kind != AFTER)) continue;
                // A is due earlier, was scheduled before B was, or before B became due, and does not yield to B
                if (!(A.due_latest < B.due && (A.ret_time < B.due || A.ret < B.call) && A.priority >= B.priority)) continue;
                if (A.start < B.start) continue;
                describe_history(c, w);
                CHECK("due order", false, "task " << k << ", due at " << (B.due - vs::START) << " ns, was started before task " << i << ", due at " << (A.due_latest - vs::START) << " ns and scheduled at " << (A.ret_time - vs::START) << " ns");
            }
    }
}

VPROP(timetable, .quick = 180000)
{
    World w;
    const bool one = c.draw(2) == 0; // one worker, one priority: the order of starting is the order of queueing
    const std::size_t workers = one ? 1 : 1 + c.draw(3);
    struct Step { std::vector<std::vector<Action>> scripts; int then; long long sleep; };
    std::vector<Step> steps(1 + c.draw(4));
    int nsched = 0;
    for (auto& st : steps)
    {
        st.scripts.resize(1 + c.draw(3));
        for (auto& s : st.scripts)
            for (std::size_t k = c.length(5); k > 0; --k)
                switch (c.weighted({ 6, 1, 1, one ? 0.0 : 0.7, 0.5 }))
                {
                case 0:
                {
                    Action a = draw_scheduled(c, w, one);
                    if (c.flag(0.15)) w.plans[static_cast<std::size_t>(a.task)].body.push_back(Action{ SLEEP, -1, static_cast<long long>(c.draw(6)) * MS });
                    if (c.flag(0.15)) { const Action b = draw_scheduled(c, w, one); w.plans[static_cast<std::size_t>(a.task)].body.push_back(b); ++nsched; }
                    s.push_back(a);
                    ++nsched;
                    break;
                }
                case 1: s.push_back(Action{ ASYNC, new_task(c, w, 1) }); break;
                case 2: s.push_back(Action{ SLEEP, -1, static_cast<long long>(c.draw(4000)) * 1000 }); break;
                case 3: s.push_back(Action{ TARGET, -1, 1 + static_cast<long long>(c.draw(3)) }); break;
                default: s.push_back(Action{ READ, -1, 7 }); break;
                }
        st.then = static_cast<int>(c.draw(3));
        st.sleep = st.then == 1 ? static_cast<long long>(c.draw(12)) * MS + static_cast<long long>(c.draw(3)) * 300000 : 0;
    }
    const int end = static_cast<int>(c.draw(3)); // 0: let everything come due, 1: destroy at once, 2: destroy after all at rest
    NOTE(workers << " workers");
    for (auto& st : steps) { NOTE("; step"); for (auto& s : st.scripts) NOTE(" [" << text(w, s) << "]"); if (st.then == 1) NOTE(" then wait " << st.sleep / 1000 << "us"); else if (st.then == 2) NOTE(" then until the schedule is empty"); }
    bool timed = false;
    vs::Config config;
    config.jumps = TICK == 0;
    vs::run(c, config, [&]
    {
        w.prepare();
        w.create(workers);
        const auto rest = [&]
        {
            vs::quiesce();
            const long long before = vs::now();
            const Stamp from = vs::stamp();
            const std::size_t scheduled = w.pool->scheduled_tasks_size();
            const std::size_t target = w.pool->target_workers_size();
            const long long after = vs::now();
            vs::Quiet q;
            check_due(c, w, before, after, from, target, scheduled);
            for (auto& r : w.recs) timed |= r.call != NEVER && (r.kind == AT || r.kind == AFTER) && r.due > before;
        };
        for (auto& st : steps)
        {
            std::vector<std::thread> threads;
            for (std::size_t t = 1; t < st.scripts.size(); ++t) threads.emplace_back([&, t] { w.script(st.scripts[t]); });
            w.script(st.scripts[0]);
            for (auto& t : threads) t.join();
            if (st.then == 1) vs::sleep_until(vs::now() + st.sleep);
            bool endless = false;
            { vs::Quiet q; for (auto& r : w.recs) endless |= r.call != NEVER && r.due == FOR_EVER; }
            if (st.then == 2 && !endless) vs::quiesce(true);
            rest();
        }
        if (end == 0)
        {
            // up to the last due time, and for what the tasks themselves schedule
            for (int k = 0; k < 6; ++k)
            {
                long long last = vs::now();
                { vs::Quiet q; for (auto& r : w.recs) if (r.call != NEVER && r.due_latest != FOR_EVER) last = std::max(last, r.due_latest); }
                vs::sleep_until(last + 40 * MS);
                rest();
            }
            vs::Quiet q;
            for (std::size_t i = 0; i < w.recs.size(); ++i)
                if (w.recs[i].call != NEVER && w.recs[i].due != FOR_EVER && w.recs[i].end == NEVER)
                {
                    describe_history(c, w);
                    CHECK("never ran", false, "task " << i << " never ran although its time has long come");
                }
        }
        else if (end == 2) vs::quiesce();
        w.destroy();
        vs::Quiet q;
        if (one) check_order(c, w);
    });
    c.nontrivial(nsched >= 2 && timed);
    if (one && nsched >= 2) c.label("order of due times is checked");
}

// The only worker is held up until everything has come due: then it must start the tasks by priority, and equal ones in
// the order in which they came due or were queued.
VPROP(priorities, .quick = 150000)
{
    World w;
    w.plans.emplace_back(); // holds the worker up
    w.plans[0].gate = 0;
    struct Step { std::vector<Action> script; long long sleep; };
    std::vector<Step> steps(1 + c.draw(3));
    const int palette = static_cast<int>(c.draw(3)); // how many priorities there are
    std::vector<int> priorities;
    for (int k = 0; k <= palette; ++k) priorities.push_back(draw_priority(c));
    for (auto& st : steps)
    {
        for (std::size_t k = 1 + c.length(5); k > 0; --k)
        {
            Action a = c.draw(3) ? draw_scheduled(c, w, false) : Action{ ASYNC, new_task(c, w, 0) };
            if (a.value > FOR_EVER / 2) a.value = 3 * MS;
            w.plans.back().points = 0;
            w.plans.back().priority = priorities[c.draw(priorities.size())];
            st.script.push_back(a);
            if (c.draw(3) == 0) st.script.push_back(Action{ SLEEP, -1, static_cast<long long>(c.draw(4000)) * 1000 });
        }
        st.sleep = static_cast<long long>(c.draw(60)) * MS;
    }
    for (auto& st : steps) NOTE("[" << text(w, st.script) << "] then wait " << st.sleep / 1000 << "us ");
    std::size_t compared = 0, differing = 0;
    vs::Config config;
    config.jumps = TICK == 0;
    vs::run(c, config, [&]
    {
        w.prepare();
        w.gates.resize(1);
        w.create(1);
        w.act(Action{ ASYNC, 0 });
        vs::quiesce();
        std::vector<std::pair<Stamp, long long>> rests; // when everything due was queued
        for (auto& st : steps)
        {
            w.script(st.script);
            vs::sleep_until(vs::now() + st.sleep);
            const long long before = vs::now();
            vs::quiesce();
            vs::Quiet q;
            rests.emplace_back(vs::stamp(), before - TICK);
        }
        vs::sleep_until(vs::now() + 100 * MS);
        vs::quiesce();
        {
            const std::size_t waiting = w.pool->waiting_tasks_size(), scheduled = w.pool->scheduled_tasks_size();
            vs::Quiet q;
            CHECK("queued", waiting == w.recs.size() - 1 && scheduled == 0, "all " << w.recs.size() - 1 << " tasks are due, but " << waiting << " wait for a worker and " << scheduled << " are scheduled");
        }
        w.gates[0].open();
        vs::quiesce();
        {
            vs::Quiet q;
            const auto queued_by = [&](const Rec& r) // a stamp by which it was certainly in the queue
            {
                if (r.kind == ASYNC) return r.ret;
                for (auto& rest : rests) if (r.ret < rest.first && r.due_latest <= rest.second) return rest.first;
                return NEVER;
            };
            for (std::size_t i = 1; i < w.recs.size(); ++i)
            {
                if (w.recs[i].end == NEVER) { describe_history(c, w); CHECK("never ran", false, "task " << i << " never ran"); }
                for (std::size_t k = 1; k < w.recs.size(); ++k)
                {
                    const Rec &A = w.recs[i], &B = w.recs[k];
                    if (i == k || A.priority < B.priority) continue;
                    bool before = A.priority > B.priority;
                    if (!before)
                    {
                        if (B.kind != ASYNC) before = (A.ret_time < B.due || A.ret < B.call) && (A.kind == ASYNC || A.due_latest < B.due);
                        else before = queued_by(A) != NEVER && queued_by(A) < B.call;
                    }
                    if (!before) continue;
                    ++compared;
                    differing += A.kind != ASYNC && i > k;
                    if (A.start < B.start) continue;
                    describe_history(c, w);
                    CHECK("order", false, "task " << k << (A.priority > B.priority ? ", of a lower priority," : ", of the same priority and queued later,") << " was started before task " << i);
                }
            }
        }
        w.destroy();
    });
    c.nontrivial(compared > 0 && differing > 0);
}

// hundreds of tasks on the timetable
VPROP(crowd, .quick = 8000)
{
    World w;
    const std::size_t tasks = 1 + c.large(300);
    const Pattern offsets = draw_pattern(c), priorities = draw_pattern(c), kinds = draw_pattern(c);
    const long long unit = static_cast<long long>(c.pick({ 1000000, 100000, 10000, 3333333 }));
    const bool one = c.draw(2) == 0, held = c.draw(3) == 0, child = c.draw(2) != 0;
    const std::size_t workers = one ? 1 : 1 + c.large(20), rests = 1 + c.draw(5);
    std::vector<Action> s;
    if (held) { plain_task(w, 127); w.gates.resize(1); w.plans[0].gate = 0; s.push_back(Action{ ASYNC, 0 }); }
    long long last = 0;
    for (std::size_t i = 0; i < tasks; ++i)
    {
        const int id = plain_task(w, one && !held ? 0 : priorities.at(i));
        const long long offset = static_cast<long long>(offsets.at(i) + 64) * unit;
        last = std::max(last, offset);
        s.push_back(Action{ (kinds.at(i) & 1) ? AFTER : AT, id, offset });
        if (child && i % 16 == 5) w.plans[static_cast<std::size_t>(id)].body.push_back(Action{ AFTER, plain_task(w, w.plans[static_cast<std::size_t>(id)].priority), 3 * unit });
    }
    NOTE(workers << " workers; " << tasks << " tasks scheduled in units of " << unit << " ns, times " << text(offsets) << ", priorities " << text(priorities) << ", kinds " << text(kinds) << (held ? ", the first worker is held up" : "") << (child ? ", one in 16 schedules another" : "") << "; looked at " << rests << " times");
    bool timed = false;
    vs::Config config;
    config.jumps = TICK == 0;
    config.steps = 2000000;
    vs::run(c, config, [&]
    {
        w.prepare();
        w.create(workers);
        w.script(s);
        const auto rest = [&]
        {
            vs::quiesce();
            const long long before = vs::now();
            const Stamp from = vs::stamp();
            const std::size_t scheduled = w.pool->scheduled_tasks_size();
            const std::size_t target = w.pool->target_workers_size();
            const long long after = vs::now();
            vs::Quiet q;
            check_due(c, w, before, after, from, target, scheduled);
            for (auto& r : w.recs) timed |= r.call != NEVER && (r.kind == AT || r.kind == AFTER) && r.due > before;
        };
        const long long begin = vs::now();
        for (std::size_t k = 0; k < rests; ++k)
        {
            rest();
            vs::sleep_until(begin + last * static_cast<long long>(k + 1) / static_cast<long long>(rests));
        }
        rest();
        if (held) w.gates[0].open();
        for (int k = 1; k <= 2; ++k) // what is scheduled meanwhile runs in the second round
        {
            vs::sleep_until(vs::now() + last + 400 * unit + 100 * MS);
            rest();
        }
        {
            vs::Quiet q;
            for (std::size_t i = 0; i < w.recs.size(); ++i)
                if (w.recs[i].call != NEVER && w.recs[i].end == NEVER)
                {
                    describe_history(c, w);
                    CHECK("never ran", false, "task " << i << " never ran although its time has long come");
                }
        }
        w.destroy();
        vs::Quiet q;
        if (one && !held) check_order(c, w);
    });
    c.nontrivial(tasks >= 10 && timed);
    if (tasks > 100) c.label("more than 100 scheduled tasks");
}
