// P25: waiting calls return exactly when what they wait for has happened.
#include "pool.hpp"
#include <algorithm>
using namespace pool_test;

namespace
{
    typedef std::vector<std::pair<Stamp, Stamp>> Intervals;
    // is there a moment in [lo, hi] outside all the (closed) intervals?
    bool uncovered(Intervals v, Stamp lo, Stamp hi)
    {
        // stamps are distinct, so there is always a moment between two of them
        std::sort(v.begin(), v.end());
        Stamp t = lo;
        for (auto& i : v)
        {
            if (i.first > t) return true;
            t = std::max(t, i.second);
            if (t >= hi) return false;
        }
        return true;
    }
    void check_waits(pbt::Case& c, const World& w)
    {
        // certainly queued, certainly queued or running
        Intervals queued, unfinished;
        for (std::size_t i = 0; i < w.recs.size(); ++i)
        {
            const Rec& r = w.recs[i];
            Stamp pick = 0;
            if (r.start != NEVER)
                for (auto& o : w.recs) if (&o != &r && o.thread == r.thread && o.end != NEVER && o.end < r.start) pick = std::max(pick, o.end);
            if (r.queued != NEVER)
            {
                if (r.start == NEVER) queued.push_back({ r.queued, NEVER });
                else if (r.queued < pick) queued.push_back({ r.queued, pick });
            }
            const Stamp from = std::min(r.queued, r.start);
            if (from != NEVER && (r.end == NEVER || from < r.end)) unfinished.push_back({ from, r.end });
        }
        for (auto& x : w.waits)
        {
            if (x.ret == NEVER) continue;
            const bool ok = uncovered(x.kind == WAIT_NONE ? queued : unfinished, x.call, x.ret);
            if (!ok) describe_history(c, w);
            CHECK("returned early", ok, (x.kind == WAIT_NONE ? "wait_until_no_tasks_waiting" : "wait_until_all_tasks_complete") << " [" << x.call << ".." << x.ret << "] returned although at every moment of the call a task was " << (x.kind == WAIT_NONE ? "queued" : "queued or running"));
        }
    }
    // nothing moves: a waiting call must have returned if and only if its condition holds
    void check_blocked(pbt::Case& c, const World& w, const char* when)
    {
        std::size_t queued = 0, running = 0;
        for (auto& r : w.recs) { queued += r.call != NEVER && r.start == NEVER; running += r.start != NEVER && r.end == NEVER; }
        for (auto& x : w.waits)
        {
            const bool holds = queued == 0 && (x.kind == WAIT_NONE || running == 0);
            if (x.ret != NEVER || !holds) continue;
            describe_history(c, w);
            CHECK("does not return", false, (x.kind == WAIT_NONE ? "wait_until_no_tasks_waiting" : "wait_until_all_tasks_complete") << " called by thread " << x.thread << " still waits " << when << " although " << queued << " tasks are queued and " << running << " run");
        }
        for (std::size_t i = 0; i < w.recs.size(); ++i)
        {
            const Rec& r = w.recs[i];
            if (r.kind == SYNC && r.end != NEVER && r.ret == NEVER) { describe_history(c, w); CHECK("does not return", false, "run_sync still waits although its task " << i << " has finished"); }
        }
    }
    int plain(pbt::Case& c, World& w, bool gate)
    {
        const int id = new_task(c, w, 2);
        if (gate) { w.plans.back().gate = static_cast<int>(w.gates.size()); w.gates.emplace_back(); }
        if (c.flag(0.15)) { const int child = new_task(c, w, 2); w.plans[static_cast<std::size_t>(id)].body.push_back(Action{ ASYNC, child }); }
        return id;
    }
}

// steps with everything at rest in between
VPROP(steps, .quick = 180000)
{
    World w;
    const std::size_t workers = c.draw(4);
    struct Step { std::vector<std::vector<Action>> scripts; std::vector<Action> waiters; std::vector<int> open; };
    std::vector<Step> steps(1 + c.draw(5));
    int nwait = 0;
    for (auto& st : steps)
    {
        for (std::size_t k = c.draw(4); k > 0; --k)
        {
            const std::size_t what = c.draw(3);
            if (what < 2) { st.waiters.push_back(Action{ what ? WAIT_ALL : WAIT_NONE }); ++nwait; }
            else st.waiters.push_back(Action{ SYNC, plain(c, w, c.flag(0.4)) });
        }
        st.scripts.resize(1 + c.draw(2));
        for (auto& s : st.scripts)
            for (std::size_t k = c.length(4); k > 0; --k)
                switch (c.weighted({ 4, 2, 1 }))
                {
                case 0: s.push_back(Action{ ASYNC, plain(c, w, c.flag(0.6)) }); break;
                case 1: s.push_back(Action{ TARGET, -1, static_cast<long long>(c.draw(4)) }); break;
                default: s.push_back(Action{ POINT }); break;
                }
        for (std::size_t k = c.draw(4); k > 0 && !w.gates.empty(); --k) st.open.push_back(static_cast<int>(c.draw(w.gates.size())));
    }
    NOTE(workers << " workers");
    for (auto& st : steps) { NOTE("; step: waiting threads [" << text(w, st.waiters) << "]"); for (auto& s : st.scripts) NOTE(" thread [" << text(w, s) << "]"); NOTE(" open"); for (int g : st.open) NOTE(" " << g); }
    bool blocked = false;
    vs::run(c, [&]
    {
        w.prepare();
        w.create(workers);
        std::vector<std::thread> waiters;
        for (auto& st : steps)
        {
            std::vector<std::thread> threads;
            for (auto& a : st.waiters)
                waiters.emplace_back([&w, a] { w.act(a); if (a.kind == SYNC) see_effect(w, a.task); });
            for (auto& s : st.scripts) threads.emplace_back([&w, &s] { w.script(s); });
            for (int g : st.open) w.gates[static_cast<std::size_t>(g)].open();
            for (auto& t : threads) t.join();
            vs::quiesce();
            vs::Quiet q;
            check_blocked(c, w, "with nothing moving");
            for (auto& x : w.waits) blocked |= x.ret == NEVER;
        }
        for (auto& g : w.gates) g.open();
        w.act(Action{ TARGET, -1, 1 });
        vs::quiesce();
        { vs::Quiet q; check_blocked(c, w, "after all tasks have ended"); CHECK("task lost", w.all_ended(), "a task has not run although the pool has a worker"); }
        for (auto& t : waiters) t.join();
        w.destroy();
        vs::Quiet q;
        check_waits(c, w);
    });
    c.nontrivial(blocked || nwait >= 2);
    if (blocked) c.label("a waiting call was blocked at rest");
}

// everything at the same time
VPROP(mixed, .quick = 180000)
{
    World w;
    const std::size_t workers = 1 + c.draw(3);
    std::vector<std::vector<Action>> scripts(2 + c.draw(3));
    int nwait = 0, ntask = 0;
    for (auto& s : scripts)
        for (std::size_t k = c.length(6); k > 0; --k)
            switch (c.weighted({ 4, 2, 2, 1.5, 1 }))
            {
            case 0: s.push_back(Action{ ASYNC, plain(c, w, false) }); ++ntask; break;
            case 1: s.push_back(Action{ WAIT_NONE }); ++nwait; break;
            case 2: s.push_back(Action{ WAIT_ALL }); ++nwait; break;
            case 3: s.push_back(Action{ SYNC, plain(c, w, false) }); ++nwait; break;
            default: s.push_back(Action{ TARGET, -1, 1 + static_cast<long long>(c.draw(3)) }); break;
            }
    NOTE(workers << " workers");
    for (auto& s : scripts) NOTE("; thread [" << text(w, s) << "]");
    vs::run(c, [&]
    {
        w.prepare();
        w.create(workers);
        std::vector<std::thread> threads;
        for (auto& s : scripts) threads.emplace_back([&w, &s] { for (auto& a : s) { w.act(a); if (a.kind == SYNC) see_effect(w, a.task); } });
        vs::quiesce(true);
        {
            vs::Quiet q;
            check_blocked(c, w, "with nothing moving");
            CHECK("task lost", w.all_ended(), "a task has not run although the pool has a worker");
        }
        for (auto& t : threads) t.join();
        w.destroy();
        vs::Quiet q;
        check_waits(c, w);
    });
    c.nontrivial(nwait >= 1 && ntask >= 1);
}

// dozens of threads wait for hundreds of tasks
VPROP(crowd, .quick = 10000)
{
    World w;
    const std::size_t workers = 1 + c.large(20), waiters = 1 + c.large(60), tasks = 1 + c.large(250), gated = c.draw(4) ? c.large(workers * 2) : 0;
    const Pattern pattern = draw_pattern(c), kinds = draw_pattern(c);
    const bool first = c.draw(2) != 0; // the waiting threads start before the tasks are queued
    const std::size_t halves = 1 + c.draw(3);
    std::vector<Action> waits, work;
    for (std::size_t i = 0; i < waiters; ++i)
    {
        const int k = (kinds.at(i) + 128) % 3;
        waits.push_back(k < 2 ? Action{ k ? WAIT_ALL : WAIT_NONE } : Action{ SYNC, plain_task(w, pattern.at(i), static_cast<int>(i % 2)) });
    }
    for (std::size_t i = 0; i < tasks; ++i)
    {
        const int id = plain_task(w, pattern.at(i), 0);
        if (i < gated) { w.plans.back().gate = static_cast<int>(w.gates.size()); w.gates.emplace_back(); }
        work.push_back(Action{ ASYNC, id });
    }
    NOTE(workers << " workers; " << waiters << " waiting threads " << text(kinds) << (first ? " before " : " after ") << tasks << " tasks " << text(pattern) << " of which the first " << std::min(gated, tasks) << " are held, and let go in " << halves << " steps");
    vs::Config config;
    config.steps = 2000000;
    bool blocked = false;
    vs::run(c, config, [&]
    {
        w.prepare();
        w.create(workers);
        std::vector<std::thread> threads;
        const auto start = [&] { for (auto& a : waits) threads.emplace_back([&w, a] { w.act(a); if (a.kind == SYNC) see_effect(w, a.task); }); };
        if (first) start();
        w.script(work);
        if (!first) start();
        for (std::size_t h = 0; h < halves; ++h)
        {
            vs::quiesce();
            {
                vs::Quiet q;
                check_blocked(c, w, "with nothing moving");
                for (auto& x : w.waits) blocked |= x.ret == NEVER;
            }
            for (std::size_t g = h * w.gates.size() / halves; g < (h + 1) * w.gates.size() / halves; ++g) w.gates[g].open();
        }
        vs::quiesce();
        { vs::Quiet q; check_blocked(c, w, "after all tasks have ended"); CHECK("task lost", w.all_ended(), "a task has not run although the pool has a worker"); }
        for (auto& t : threads) t.join();
        w.destroy();
        vs::Quiet q;
        check_waits(c, w);
    });
    c.nontrivial(waiters >= 5 && tasks >= 5);
    if (blocked) c.label("a waiting call was blocked at rest");
    if (waiters > 32) c.label("more than 32 waiting threads");
}

#ifndef SECOND
int main(int c, char** v) { return pbt::main(c, v, "P25", "steps: a waiting call was blocked while nothing moved, or there were two of them; mixed: at least one waiting call and one asynchronous task; crowd: at least five waiting threads and five tasks"); }
#endif
