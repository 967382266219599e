// P23: every accepted task runs exactly once; what destruction promises.
#include "pool.hpp"
using namespace pool_test;

namespace
{
    // a task that may submit further ones
    int family(pbt::Case& c, World& w, int depth)
    {
        const int id = new_task(c, w);
        if (c.draw(12) == 11) w.plans.back().fails = 1 + static_cast<int>(c.draw(6));
        if (depth > 0)
            for (std::size_t n = c.flag(0.3) ? 1 + c.draw(2) : 0; n > 0; --n)
            {
                const int child = family(c, w, depth - 1);
                w.plans[static_cast<std::size_t>(id)].body.push_back(Action{ ASYNC, child });
            }
        if (c.flag(0.1)) { const int child = new_task(c, w); w.plans[static_cast<std::size_t>(id)].cleanup.push_back(Action{ ASYNC, child }); }
        return id;
    }
    std::vector<Action> script(pbt::Case& c, World& w, bool sync, bool targets)
    {
        std::vector<Action> s;
        for (std::size_t n = c.length(6); n > 0; --n)
            switch (c.weighted({ 6, sync ? 2.0 : 0.0, targets ? 1.5 : 0.0, 1, 1, 0.7 }))
            {
            case 0: s.push_back(Action{ ASYNC, family(c, w, 2) }); break;
            case 1: s.push_back(Action{ SYNC, family(c, w, 1) }); break;
            case 2: s.push_back(Action{ TARGET, -1, 1 + static_cast<long long>(c.draw(4)) }); break;
            case 3: s.push_back(Action{ POINT }); break;
            case 4: s.push_back(Action{ READ, -1, static_cast<long long>(c.draw(9)) }); break;
            default: s.push_back(Action{ AT, new_task(c, w), static_cast<long long>(c.draw(4)) * MS - MS }); break;
            }
        return s;
    }
    void refusals(pbt::Case& c, const World& w)
    {
        for (auto& r : w.recs) if (r.refused) { c.label("a submission failed"); return; }
    }
    void all_finished(pbt::Case& c, const World& w, const char* when)
    {
        for (std::size_t i = 0; i < w.recs.size(); ++i)
        {
            const Rec& r = w.recs[i];
            if (r.call == NEVER || r.kind == AT || r.end != NEVER) continue;
            describe_history(c, w);
            CHECK("task lost", false, "task " << i << (r.start == NEVER ? " never started, " : " did not finish, ") << when);
        }
    }
}

// the pool is destroyed after it has become quiet
VPROP(quiet_end, .quick = 180000)
{
    World w;
    const std::size_t workers = 1 + c.draw(3);
    std::vector<std::vector<Action>> scripts(1 + c.draw(3));
    for (auto& s : scripts) s = script(c, w, true, true);
    const bool wait = c.flag(0.5);
    NOTE(workers << " workers; main: " << text(w, scripts[0]));
    for (std::size_t t = 1; t < scripts.size(); ++t) NOTE("; thread: " << text(w, scripts[t]));
    vs::run(c, [&]
    {
        w.prepare();
        w.create(workers);
        std::vector<std::thread> threads;
        for (std::size_t t = 1; t < scripts.size(); ++t) threads.emplace_back([&, t] { w.script(scripts[t]); });
        w.script(scripts[0]);
        for (auto& t : threads) t.join();
        if (wait) w.act(Action{ WAIT_ALL });
        vs::quiesce(true);
        { vs::Quiet q; all_finished(c, w, "although the pool has workers and has become quiet"); }
        w.destroy();
    });
    std::size_t n = 0;
    for (auto& r : w.recs) n += r.starts != 0;
    c.nontrivial(n >= 2);
    refusals(c, w);
}

// the pool is destroyed at once
VPROP(busy_end, .quick = 180000)
{
    World w;
    const std::size_t workers = 1 + c.draw(3);
    std::vector<std::vector<Action>> scripts(1 + c.draw(3));
    for (auto& s : scripts) s = script(c, w, false, true);
    const bool complete = c.draw(2) != 0;
    NOTE(workers << " workers, on_stop " << (complete ? "complete" : "join") << "; main: " << text(w, scripts[0]));
    for (std::size_t t = 1; t < scripts.size(); ++t) NOTE("; thread: " << text(w, scripts[t]));
    bool queued = false;
    vs::run(c, [&]
    {
        w.prepare();
        w.create(workers);
        w.act(Action{ ON_STOP, -1, complete });
        std::vector<std::thread> threads;
        for (std::size_t t = 1; t < scripts.size(); ++t) threads.emplace_back([&, t] { w.script(scripts[t]); });
        w.script(scripts[0]);
        for (auto& t : threads) t.join();
        for (auto& r : w.recs) queued |= r.ret != NEVER && r.start == NEVER;
        vs::watch_join();
        w.destroy();
        vs::Quiet q;
        // a worker that was still waiting for work when the destructor had come to joining its threads had picked nothing
        if (!complete && vs::join_stamp())
            for (std::size_t i = 0; i < w.recs.size(); ++i)
                CHECK("started after stop", w.recs[i].start == NEVER || w.recs[i].start < vs::join_stamp() || !vs::waiting_at_join(w.recs[i].thread),
                    "task " << i << " was picked by a worker that was idle while the pool was already stopping without completing its tasks");
        if (complete) all_finished(c, w, "although the pool was to complete all tasks before its destruction");
        for (std::size_t i = 0; i < w.recs.size(); ++i)
            CHECK("half run", (w.recs[i].start == NEVER) == (w.recs[i].end == NEVER), "task " << i << " was still running when the destructor returned");
    });
    c.nontrivial(queued);
    refusals(c, w);
    if (queued && complete) c.label("queued tasks at destruction, complete");
    if (queued && !complete) c.label("queued tasks at destruction, join");
}

// every worker is inside a task when the destructor starts, so nothing can be picked before the pool is stopping
VPROP(occupied_end, .quick = 180000)
{
    World w;
    const std::size_t workers = 1 + c.draw(3);
    const bool complete = c.draw(2) != 0;
    std::vector<int> blockers;
    w.gates.resize(workers);
    for (std::size_t i = 0; i < workers; ++i)
    {
        const int id = new_task(c, w);
        blockers.push_back(id);
        w.plans[static_cast<std::size_t>(id)].gate = static_cast<int>(i);
        for (std::size_t n = c.draw(3) == 2 ? 1 + c.draw(2) : 0; n > 0; --n)
        {
            const int child = family(c, w, 1);
            w.plans[static_cast<std::size_t>(id)].body.push_back(Action{ ASYNC, child });
        }
    }
    std::vector<Action> s;
    for (std::size_t n = c.length(6); n > 0; --n) s.push_back(Action{ ASYNC, family(c, w, 1) });
    std::vector<long long> targets;
    for (std::size_t n = c.draw(3); n > 0; --n) targets.push_back(1 + static_cast<long long>(c.draw(workers)));
    const bool early = c.flag(0.3); // open one gate before
    // two queued tasks of which one waits for the other: two workers can finish them, one cannot
    const bool meet = complete && (targets.empty() ? workers > 1 : targets.back() > 1) && c.draw(2) == 1;
    if (meet)
    {
        w.gates.resize(workers + 1);
        const int waits = new_task(c, w), opens = new_task(c, w);
        for (int id : { waits, opens }) { w.plans[static_cast<std::size_t>(id)].fails = 0; }
        w.plans[static_cast<std::size_t>(waits)].gate = static_cast<int>(workers);
        w.plans[static_cast<std::size_t>(opens)].body.push_back(Action{ OPEN, -1, static_cast<long long>(workers) });
        s.insert(s.begin() + static_cast<long>(c.draw(s.size() + 1)), Action{ ASYNC, waits });
        s.insert(s.begin() + static_cast<long>(c.draw(s.size() + 1)), Action{ ASYNC, opens });
    }
    NOTE(workers << " workers, on_stop " << (complete ? "complete" : "join") << "; blockers:");
    for (int b : blockers) NOTE(" " << text(w, Action{ ASYNC, b }));
    NOTE("; queue: " << text(w, s) << "; targets:");
    for (auto t : targets) NOTE(" " << t);
    if (early) NOTE("; one blocker ends before the destruction");
    vs::run(c, [&]
    {
        w.prepare();
        w.create(workers);
        for (int b : blockers) w.act(Action{ ASYNC, b });
        vs::quiesce();
        {
            vs::Quiet q;
            for (int b : blockers) CHECK("task lost", w.recs[static_cast<std::size_t>(b)].start != NEVER, "a worker is idle although task " << b << " is queued");
        }
        w.script(s);
        for (auto t : targets) w.act(Action{ TARGET, -1, t });
        w.act(Action{ ON_STOP, -1, complete });
        std::thread opener([&]
        {
            if (!early) vs::quiesce();
            for (std::size_t g = 0; g < workers; ++g) w.gates[g].open();
        });
        w.destroy();
        {
            vs::Quiet q;
            if (complete) all_finished(c, w, "although the pool was to complete all tasks before its destruction");
            else if (!early)
                for (std::size_t i = 0; i < w.recs.size(); ++i)
                    if (w.recs[i].start != NEVER && w.recs[i].start > w.destroy_call)
                    {
                        describe_history(c, w);
                        CHECK("started after stop", false, "task " << i << " was started after the pool had begun to stop without completing its tasks");
                    }
        }
        opener.join();
    });
    c.nontrivial(s.size() > 0);
    if (meet) c.label("queued tasks that wait for each other");
    if (!targets.empty() && targets.back() < static_cast<long long>(workers)) c.label("worker count lowered before the destruction");
}

// hundreds of tasks, dozens of workers
VPROP(crowd, .quick = 12000)
{
    World w;
    const std::size_t workers = 1 + c.large(40), nthreads = 1 + c.draw(6), each = 1 + c.large(400 / nthreads), family_every = 1 + c.draw(20);
    const int end = static_cast<int>(c.draw(4)); // 0: quiet, 1: busy and complete, 2: busy and join, 3: all workers occupied and join
    const Pattern pattern = draw_pattern(c);
    const int points = static_cast<int>(c.draw(2));
    std::vector<int> blockers;
    if (end == 3)
    {
        w.gates.resize(workers);
        for (std::size_t i = 0; i < workers; ++i) { blockers.push_back(plain_task(w, 0)); w.plans.back().gate = static_cast<int>(i); }
    }
    std::vector<std::vector<Action>> scripts(nthreads);
    for (std::size_t t = 0; t < nthreads; ++t)
        for (std::size_t i = 0; i < each; ++i)
        {
            const int id = plain_task(w, pattern.at(i * nthreads + t), points);
            scripts[t].push_back(Action{ ASYNC, id });
            if (i % family_every == 1)
            {
                const int child = plain_task(w, pattern.at(i + t), points);
                w.plans[static_cast<std::size_t>(id)].body.push_back(Action{ ASYNC, child });
                if (i % 2) w.plans[static_cast<std::size_t>(child)].cleanup.push_back(Action{ ASYNC, plain_task(w, pattern.at(t), points) });
            }
        }
    NOTE(workers << " workers; " << nthreads << " threads submit " << each << " tasks each, " << text(pattern) << ", one in " << family_every << " with a child; steps " << points << "; end " << end);
    vs::Config config;
    config.steps = 2000000;
    bool queued = false;
    vs::run(c, config, [&]
    {
        w.prepare();
        w.create(workers);
        if (end) w.act(Action{ ON_STOP, -1, end == 1 });
        for (int b : blockers) w.act(Action{ ASYNC, b });
        if (end == 3)
        {
            vs::quiesce();
            vs::Quiet q;
            for (int b : blockers) CHECK("task lost", w.recs[static_cast<std::size_t>(b)].start != NEVER, "a worker is idle although task " << b << " is queued");
        }
        std::vector<std::thread> threads;
        for (std::size_t t = 1; t < nthreads; ++t) threads.emplace_back([&, t] { w.script(scripts[t]); });
        w.script(scripts[0]);
        for (auto& t : threads) t.join();
        for (auto& r : w.recs) queued |= r.ret != NEVER && r.start == NEVER;
        if (end == 0)
        {
            vs::quiesce(true);
            { vs::Quiet q; all_finished(c, w, "although the pool has workers and has become quiet"); }
        }
        std::thread opener;
        if (end == 3) opener = std::thread([&] { vs::quiesce(); for (auto& g : w.gates) g.open(); });
        vs::watch_join();
        w.destroy();
        if (opener.joinable()) opener.join();
        vs::Quiet q;
        if (end == 1) all_finished(c, w, "although the pool was to complete all tasks before its destruction");
        for (std::size_t i = 0; i < w.recs.size(); ++i)
        {
            const Rec& r = w.recs[i];
            CHECK("half run", (r.start == NEVER) == (r.end == NEVER), "task " << i << " was still running when the destructor returned");
            if (end == 2 && vs::join_stamp())
                CHECK("started after stop", r.start == NEVER || r.start < vs::join_stamp() || !vs::waiting_at_join(r.thread),
                    "task " << i << " was picked by a worker that was idle while the pool was already stopping without completing its tasks");
            if (end == 3)
                CHECK("started after stop", r.start == NEVER || r.start < w.destroy_call, "task " << i << " was started after the pool had begun to stop without completing its tasks");
        }
    });
    c.nontrivial(queued && nthreads * each > 30);
    if (nthreads * each > 200) c.label("more than 200 tasks");
    if (workers > 16) c.label("more than 16 workers");
}

#ifndef SECOND
int main(int c, char** v) { return pbt::main(c, v, "P23", "quiet_end: at least two tasks ran; busy_end, occupied_end: tasks were queued when the destructor was called; crowd: more than 30 tasks, some still queued when all had been submitted"); }
#endif
