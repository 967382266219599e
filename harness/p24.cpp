// P24: priority order, first come first served, and no task waits while a worker is idle.
#include "pool.hpp"
#include <algorithm>
#include <map>
using namespace pool_test;

namespace
{
    // earliest stamp at which the worker that ran i can have picked it
    std::vector<Stamp> earliest_picks(const World& w)
    {
        std::vector<Stamp> lb(w.recs.size(), 0);
        for (std::size_t i = 0; i < w.recs.size(); ++i)
        {
            const Rec& r = w.recs[i];
            if (r.start == NEVER) continue;
            lb[i] = r.call;
            for (auto& o : w.recs) if (&o != &r && o.thread == r.thread && o.end != NEVER && o.end < r.start) lb[i] = std::max(lb[i], o.end);
        }
        return lb;
    }
    void check_order(pbt::Case& c, const World& w)
    {
        const auto lb = earliest_picks(w);
        for (std::size_t b = 0; b < w.recs.size(); ++b)
        {
            const Rec& B = w.recs[b];
            if (B.start == NEVER) continue;
            for (std::size_t a = 0; a < w.recs.size(); ++a)
            {
                const Rec& A = w.recs[a];
                if (a == b || A.queued == NEVER) continue;
                // A was certainly queued when B was picked, and picked later or never
                if (!(A.queued < lb[b]) || !(A.start == NEVER || lb[a] > B.start)) continue;
                const bool outranks = A.priority > B.priority || (A.priority == B.priority && A.queued < B.call);
                if (!outranks) continue;
                describe_history(c, w);
                CHECK("order", false, "task " << b << " (priority " << B.priority << ") was started while task " << a << " (priority " << A.priority << ") was waiting" << (A.priority == B.priority ? " although that was queued earlier" : ""));
            }
        }
    }
}

// all workers are busy while the tasks are queued
VPROP(gated, .quick = 180000)
{
    World w;
    const std::size_t workers = 1 + c.draw(3);
    std::vector<int> blockers;
    w.gates.resize(workers);
    for (std::size_t i = 0; i < workers; ++i) { blockers.push_back(new_task(c, w)); w.plans.back().gate = static_cast<int>(i); }
    std::vector<std::vector<Action>> scripts(1 + c.draw(3));
    std::size_t n = 0;
    for (auto& s : scripts)
        for (std::size_t k = c.length(scripts.size() == 1 ? 12 : 6); k > 0; --k, ++n)
        {
            const int id = new_task(c, w, 1);
            if (c.flag(0.15)) { const int child = new_task(c, w, 1); w.plans[static_cast<std::size_t>(id)].body.push_back(Action{ ASYNC, child }); }
            s.push_back(Action{ ASYNC, id });
        }
    // run_sync calls (default priority: high) from further threads
    std::vector<Action> syncs;
    for (std::size_t k = c.draw(3); k > 0; --k) syncs.push_back(Action{ SYNC, new_task(c, w, 1) });
    NOTE(workers << " workers, all busy");
    for (auto& s : scripts) NOTE("; thread: " << text(w, s));
    if (!syncs.empty()) NOTE("; one thread each: " << text(w, syncs));
    vs::run(c, [&]
    {
        w.prepare();
        w.create(workers);
        for (int b : blockers) w.act(Action{ ASYNC, b });
        vs::quiesce();
        std::vector<std::thread> threads;
        for (std::size_t t = 0; t < scripts.size(); ++t) threads.emplace_back([&, t] { w.script(scripts[t]); });
        for (auto& t : threads) t.join();
        std::vector<std::thread> callers;
        for (auto& s : syncs) { callers.emplace_back([&w, s] { w.act(s); see_effect(w, s.task); }); vs::quiesce(); { vs::Quiet q; w.recs[static_cast<std::size_t>(s.task)].queued = vs::stamp(); } }
        for (auto& g : w.gates) g.open();
        for (auto& t : callers) t.join();
        w.act(Action{ WAIT_ALL });
        w.destroy();
        vs::Quiet q;
        if (workers == 1)
        {
            // with a single worker the order is fully determined among tasks that were queued in a known order
            std::vector<std::size_t> order;
            for (std::size_t i = 1; i < w.recs.size(); ++i) if (w.recs[i].start != NEVER) order.push_back(i);
            std::sort(order.begin(), order.end(), [&](std::size_t a, std::size_t b) { return w.recs[a].start < w.recs[b].start; });
            std::map<int, int> seen;
            for (auto i : order) ++seen[w.recs[i].priority];
            if (seen.size() >= 2 && order.size() >= 3) c.nontrivial();
        }
        else c.nontrivial(n > workers);
        for (std::size_t i = 0; i < w.recs.size(); ++i) CHECK("task lost", w.recs[i].call == NEVER || w.recs[i].end != NEVER, "task " << i << " has not run although wait_until_all_tasks_complete returned");
        check_order(c, w);
    });
}

// nothing is held back: whatever order is certain from the history is checked
VPROP(streaming, .quick = 120000)
{
    World w;
    const std::size_t workers = 1 + c.draw(3);
    std::vector<std::vector<Action>> scripts(1 + c.draw(3));
    std::size_t n = 0;
    for (auto& s : scripts)
        for (std::size_t k = c.length(8); k > 0; --k)
            switch (c.weighted({ 7, 1, 1 }))
            {
            case 0: { const int id = new_task(c, w, 4); s.push_back(Action{ ASYNC, id }); ++n;
                if (c.flag(0.2)) { const int child = new_task(c, w, 2); w.plans[static_cast<std::size_t>(id)].body.push_back(Action{ ASYNC, child }); } break; }
            case 1: s.push_back(Action{ POINT }); break;
            default: s.push_back(Action{ TARGET, -1, 1 + static_cast<long long>(c.draw(3)) }); break;
            }
    NOTE(workers << " workers");
    for (auto& s : scripts) NOTE("; thread: " << text(w, s));
    vs::run(c, [&]
    {
        w.prepare();
        w.create(workers);
        std::vector<std::thread> threads;
        for (std::size_t t = 0; t < scripts.size(); ++t) threads.emplace_back([&, t] { w.script(scripts[t]); });
        for (auto& t : threads) t.join();
        vs::quiesce();
        w.destroy();
        vs::Quiet q;
        check_order(c, w);
    });
    c.nontrivial(n >= 4);
}

// tasks run until told to end; whenever nothing moves, no task may wait while a worker is free
VPROP(no_idle_worker, .quick = 120000)
{
    World w;
    const std::size_t workers = c.draw(4);
    struct Step { std::vector<std::vector<Action>> scripts; std::vector<int> open; };
    std::vector<Step> steps(1 + c.draw(4));
    int ntasks = 0;
    for (auto& st : steps)
    {
        st.scripts.resize(1 + c.draw(3));
        for (auto& s : st.scripts)
            for (std::size_t k = c.length(4); k > 0; --k)
            {
                if (c.flag(0.25)) { s.push_back(Action{ TARGET, -1, static_cast<long long>(c.draw(5)) }); continue; }
                const int id = new_task(c, w, 1);
                w.plans.back().gate = ntasks++;
                s.push_back(c.flag(0.15) ? Action{ AT, id, -MS } : Action{ ASYNC, id });
            }
        for (std::size_t k = c.draw(4); k > 0 && ntasks; --k) st.open.push_back(static_cast<int>(c.draw(static_cast<std::uint64_t>(ntasks))));
    }
    w.gates.resize(static_cast<std::size_t>(ntasks));
    NOTE(workers << " workers");
    for (auto& st : steps) { NOTE("; step"); for (auto& s : st.scripts) NOTE(" [" << text(w, s) << "]"); NOTE(" open"); for (int g : st.open) NOTE(" " << g); }
    bool queued = false;
    vs::run(c, [&]
    {
        w.prepare();
        w.create(workers);
        for (auto& st : steps)
        {
            std::vector<std::thread> threads;
            for (auto& s : st.scripts) threads.emplace_back([&] { w.script(s); });
            for (int g : st.open) w.gates[static_cast<std::size_t>(g)].open();
            for (auto& t : threads) t.join();
            vs::quiesce();
            const std::size_t target = w.pool->target_workers_size();
            vs::Quiet q;
            std::size_t running = 0, waiting = 0;
            for (auto& r : w.recs) if (r.ret != NEVER) { running += r.start != NEVER && r.end == NEVER; waiting += r.start == NEVER; }
            queued |= waiting > 0;
            if (waiting && running < target) describe_history(c, w);
            CHECK("idle worker", !(waiting && running < target), "nothing moves and " << waiting << " tasks wait although only " << running << " of " << target << " workers are busy");
        }
        w.act(Action{ TARGET, -1, 3 });
        for (auto& g : w.gates) g.open();
        vs::quiesce();
        {
            vs::Quiet q;
            CHECK("idle worker", w.all_ended(), "nothing moves although tasks wait and workers are idle");
        }
        w.destroy();
        vs::Quiet q;
        check_order(c, w);
    });
    c.nontrivial(ntasks >= 2);
    if (queued) c.label("tasks queued behind busy workers");
}

// hundreds of tasks wait behind busy workers
VPROP(crowd, .quick = 12000)
{
    World w;
    const std::size_t workers = 1 + (c.draw(3) ? c.draw(2) : c.large(40)), nthreads = 1 + (c.draw(3) ? 0 : c.draw(5)), each = 1 + c.large(400 / nthreads);
    const Pattern pattern = draw_pattern(c);
    const std::size_t child_every = c.draw(3) ? 0 : 1 + c.draw(30), add_late = c.draw(3) ? 0 : c.large(40);
    w.gates.resize(workers);
    for (std::size_t i = 0; i < workers; ++i) { plain_task(w, 0); w.plans.back().gate = static_cast<int>(i); }
    std::vector<std::vector<Action>> scripts(nthreads);
    for (std::size_t t = 0; t < nthreads; ++t)
        for (std::size_t i = 0; i < each; ++i)
        {
            const int id = plain_task(w, pattern.at(i * nthreads + t), 0, static_cast<int>(i % 3));
            scripts[t].push_back(Action{ ASYNC, id });
            if (child_every && i % child_every == 0) { const int child = plain_task(w, pattern.at(i * 31 + 7)); w.plans[static_cast<std::size_t>(id)].body.push_back(Action{ ASYNC, child }); }
        }
    std::vector<Action> late;
    for (std::size_t i = 0; i < add_late; ++i) late.push_back(Action{ ASYNC, plain_task(w, pattern.at(i * 17 + 3)) });
    NOTE(workers << " workers, all busy; " << nthreads << " threads submit " << each << " tasks each, " << text(pattern) << ", one in " << child_every << " with a child; then " << add_late << " more while they run");
    vs::Config config;
    config.steps = 2000000;
    vs::run(c, config, [&]
    {
        w.prepare();
        w.create(workers);
        for (std::size_t b = 0; b < workers; ++b) w.act(Action{ ASYNC, static_cast<int>(b) });
        vs::quiesce();
        std::vector<std::thread> threads;
        for (std::size_t t = 1; t < nthreads; ++t) threads.emplace_back([&, t] { w.script(scripts[t]); });
        w.script(scripts[0]);
        for (auto& t : threads) t.join();
        for (auto& g : w.gates) g.open();
        w.script(late);
        w.act(Action{ WAIT_ALL });
        w.destroy();
        vs::Quiet q;
        for (std::size_t i = 0; i < w.recs.size(); ++i) CHECK("task lost", w.recs[i].call == NEVER || w.recs[i].end != NEVER, "task " << i << " has not run although wait_until_all_tasks_complete returned");
        check_order(c, w);
    });
    std::map<int, int> seen;
    for (auto& p : w.plans) ++seen[p.priority];
    c.nontrivial(nthreads * each >= 10 && seen.size() >= 2);
    if (nthreads * each > 200) c.label("more than 200 tasks");
    if (seen.size() > 100) c.label("more than 100 priorities");
    if (workers > 16) c.label("more than 16 workers");
}

// the named levels are numbers, in the right order, and span the signed 8-bit range
PROP(names, .quick = 1, .thorough = 1)
{
    (void)c.draw(1);
    using P = pluto::thread_pool::priority;
    const std::pair<P, int> all[] = { { P::lowest, -128 }, { P::lower, -64 }, { P::low, -32 }, { P::normal, 0 }, { P::high, 32 }, { P::higher, 64 }, { P::highest, 127 } };
    for (auto& p : all) CHECK_EQ("named", static_cast<int>(static_cast<signed char>(p.first)), p.second, "value of a named priority");
    c.nontrivial();
}

#ifndef SECOND
int main(int c, char** v) { return pbt::main(c, v, "P24", "gated: at least three queued tasks of two priorities (one worker) or more queued tasks than workers; streaming: at least four tasks; no_idle_worker: at least two tasks; crowd: at least ten tasks of two priorities"); }
#endif
