// P28: no data race, deadlock or access to freed memory, whatever is called from wherever.
#include "pool.hpp"
#include <algorithm>
using namespace pool_test;

namespace
{
    struct Limits
    {
        int tasks{ 14 };       // tasks in all
        int blocking{ 0 };     // tasks that may still get a blocking action
        int least{ 1 };        // smallest target
    };
    Action any(pbt::Case& c, World& w, Limits& l, int depth);
    int task(pbt::Case& c, World& w, Limits& l, int depth)
    {
        --l.tasks;
        const int id = new_task(c, w, 2);
        const std::size_t at = static_cast<std::size_t>(id);
        bool blocks = depth < 3 && l.blocking > 0 && c.flag(0.3);
        if (blocks) --l.blocking;
        std::vector<Action> body, cleanup;
        if (depth < 3)
        {
            for (std::size_t k = c.flag(0.4) ? 1 + c.draw(2) : 0; k > 0; --k) body.push_back(any(c, w, l, depth + 1));
            for (std::size_t k = c.flag(0.35) ? 1 + c.draw(2) : 0; k > 0; --k) cleanup.push_back(any(c, w, l, depth + 1));
        }
        if (blocks)
        {
            auto& where = c.draw(2) ? cleanup : body;
            if (c.draw(2) && l.tasks > 0) { const int sub = task(c, w, l, depth + 1); where.push_back(Action{ SYNC, sub }); }
            else where.push_back(Action{ WAIT_NONE });
        }
        w.plans[at].each = c.flag(0.15);
        if (c.draw(10) == 9) w.plans[at].fails = 1 + static_cast<int>(c.draw(6));
        w.plans[at].body = body;
        w.plans[at].cleanup = cleanup;
        return id;
    }
    Action any(pbt::Case& c, World& w, Limits& l, int depth)
    {
        const bool more = l.tasks > 0;
        switch (c.weighted({ 1, more ? 4.0 : 0, more ? 1.5 : 0, more ? 1.5 : 0, 1.5, 0.6, 2, depth == 0 ? 0.7 : 0 }))
        {
        case 0: return Action{ POINT };
        case 1: return Action{ ASYNC, task(c, w, l, depth) };
        case 2: return Action{ AFTER, task(c, w, l, depth), static_cast<long long>(c.draw(5)) * MS };
        case 3: return Action{ AT, task(c, w, l, depth), static_cast<long long>(c.draw(8)) * MS - 2 * MS };
        case 4: return Action{ TARGET, -1, l.least + static_cast<long long>(c.draw(4)) };
        case 5: return Action{ ON_STOP, -1, static_cast<long long>(c.draw(2)) };
        case 6: return Action{ READ, -1, static_cast<long long>(c.draw(9)) };
        default: return Action{ SLEEP, -1, static_cast<long long>(c.draw(4)) * MS };
        }
    }
    bool re_entrant(const World& w)
    {
        for (auto& p : w.plans) if (!p.body.empty() || !p.cleanup.empty()) return true;
        return false;
    }
}

// leave: what the program does before it destroys the pool
VPROP(programs, .quick = 300000)
{
    World w;
    const int leave = static_cast<int>(c.weighted({ 2, 1, 1 })); // 0: everything has run, 1: at once, 2: at rest, whatever is still scheduled
    Limits l;
    l.tasks = 4 + static_cast<int>(c.draw(14));
    l.least = static_cast<int>(c.draw(4));
    if (leave == 0 && l.least > 0) l.blocking = l.least - 1;
    const std::size_t workers = static_cast<std::size_t>(l.least) + c.draw(3);
    std::vector<std::vector<Action>> scripts(1 + c.draw(3));
    for (auto& s : scripts)
        for (std::size_t k = 1 + c.length(6); k > 0; --k)
        {
            if (leave != 1 && l.least > 0 && c.flag(0.15))
            {
                const auto how = c.draw(3);
                if (how == 0 && l.tasks > 0) { const int id = task(c, w, l, 0); s.push_back(Action{ SYNC, id }); }
                else s.push_back(Action{ how == 1 ? WAIT_ALL : WAIT_NONE });
                continue;
            }
            s.push_back(any(c, w, l, 0));
        }
    NOTE(workers << " workers");
    for (auto& s : scripts) NOTE("; [" << text(w, s) << "]");
    NOTE((leave == 0 ? "; everything runs" : leave == 1 ? "; destroyed at once" : "; destroyed at rest"));
    std::size_t inside = 0;
    vs::Config config;
    config.steps = 400000;
    vs::run(c, config, [&]
    {
        w.prepare();
        w.create(workers);
        std::vector<std::thread> threads;
        for (std::size_t t = 1; t < scripts.size(); ++t) threads.emplace_back([&, t] { w.script(scripts[t]); });
        w.script(scripts[0]);
        for (auto& t : threads) t.join();
        if (leave == 0) { vs::quiesce(true); }
        else if (leave == 2) vs::quiesce();
        if (leave == 0)
        {
            const std::size_t target = w.pool->target_workers_size();
            vs::Quiet q;
            for (std::size_t i = 0; i < w.recs.size(); ++i)
                if (target > 0 && w.recs[i].ret != NEVER && w.recs[i].end == NEVER) { describe_history(c, w); CHECK("never ran", false, "task " << i << " never ran"); }
        }
        w.destroy();
        vs::Quiet q;
        for (std::size_t i = 0; i < w.recs.size(); ++i)
        {
            const Rec& r = w.recs[i];
            inside += r.submitter > 0 && r.ret != NEVER && r.submitter >= static_cast<int>(scripts.size());
            if (r.copies != 0 || (r.call != NEVER && !w.plans[i].cleanup.empty() && !r.cleaned)) describe_history(c, w);
            CHECK("captured state", r.copies == 0, r.copies << " copies of the state captured by task " << i << " are left after the destruction of the pool");
            CHECK("captured state", r.call == NEVER || w.plans[i].cleanup.empty() || r.cleaned, "the state captured by task " << i << " was not destroyed");
        }
        if (c.verbose()) describe_history(c, w);
    });
    c.nontrivial(re_entrant(w) && w.plans.size() >= 3);
    if (inside) c.label("tasks submitted from tasks or clean-up");
}

// long chains and wide families of tasks that use their pool, many threads
VPROP(crowd, .quick = 10000)
{
    World w;
    const std::size_t workers = 1 + c.large(30), nthreads = 1 + c.large(40), chains = 1 + c.draw(6), depth = 1 + c.large(60), wide = c.large(100);
    const int leave = static_cast<int>(c.draw(3));
    const Pattern priorities = draw_pattern(c), kinds = draw_pattern(c), readings = draw_pattern(c);
    const bool through_cleanup = c.draw(2) != 0;
    const std::size_t resize_every = c.draw(2) ? 0 : 1 + c.draw(10);
    std::vector<std::vector<Action>> scripts(nthreads);
    std::size_t n = 0;
    const auto submit = [&](int id) -> Action { ++n; return kinds.at(n) % 3 == 1 ? Action{ AFTER, id, static_cast<long long>(n % 5) * MS } : Action{ ASYNC, id }; };
    for (std::size_t k = 0; k < chains; ++k)
    {
        int next = plain_task(w, priorities.at(k));
        for (std::size_t d = 1; d < depth; ++d)
        {
            const int id = plain_task(w, priorities.at(k + d * chains));
            auto& p = w.plans[static_cast<std::size_t>(id)];
            (through_cleanup && d % 2 ? p.cleanup : p.body).push_back(submit(next));
            p.body.push_back(Action{ READ, -1, (readings.at(d) + 128) % 9 });
            if (resize_every && d % resize_every == 0) p.body.push_back(Action{ TARGET, -1, 1 + (readings.at(d) + 128) % 12 });
            next = id;
        }
        scripts[k % nthreads].push_back(submit(next));
    }
    {
        const int root = plain_task(w, 0);
        std::vector<Action> body;
        for (std::size_t i = 0; i < wide; ++i) body.push_back(submit(plain_task(w, priorities.at(i))));
        w.plans[static_cast<std::size_t>(root)].body = body;
        scripts[0].push_back(Action{ ASYNC, root });
    }
    for (std::size_t t = 0; t < nthreads; ++t)
        for (int k = 0; k < 3; ++k)
        {
            scripts[t].push_back(Action{ ASYNC, plain_task(w, priorities.at(t)) });
            scripts[t].push_back(Action{ READ, -1, (readings.at(t * 3 + static_cast<std::size_t>(k)) + 128) % 9 });
            if (leave != 1 && k == 1 && t % 3 == 2) scripts[t].push_back(Action{ t % 2 ? WAIT_ALL : WAIT_NONE });
        }
    NOTE(workers << " workers, " << nthreads << " threads; " << chains << " chains of " << depth << " tasks" << (through_cleanup ? ", half of the links in clean-up" : "") << ", one task that submits " << wide << "; priorities " << text(priorities) << ", kinds " << text(kinds) << ", readings " << text(readings) << ", resized every " << resize_every << "; end " << leave);
    vs::Config config;
    config.steps = 2000000;
    vs::run(c, config, [&]
    {
        w.prepare();
        w.create(workers);
        std::vector<std::thread> threads;
        for (std::size_t t = 1; t < nthreads; ++t) threads.emplace_back([&, t] { w.script(scripts[t]); });
        w.script(scripts[0]);
        for (auto& t : threads) t.join();
        if (leave == 0)
        {
            vs::quiesce(true);
            vs::Quiet q;
            for (std::size_t i = 0; i < w.recs.size(); ++i)
                if (w.recs[i].end == NEVER) { describe_history(c, w); CHECK("never ran", false, "task " << i << " never ran"); }
        }
        else if (leave == 2) vs::quiesce();
        w.destroy();
        vs::Quiet q;
        for (std::size_t i = 0; i < w.recs.size(); ++i)
        {
            const Rec& r = w.recs[i];
            CHECK("captured state", r.copies == 0, r.copies << " copies of the state captured by task " << i << " are left after the destruction of the pool");
            CHECK("captured state", r.call == NEVER || w.plans[i].cleanup.empty() || r.cleaned, "the state captured by task " << i << " was not destroyed");
        }
    });
    c.nontrivial(w.plans.size() >= 30);
    if (nthreads > 16) c.label("more than 16 threads");
    if (depth > 32) c.label("chains of more than 32 tasks");
}

int main(int c, char** v) { return pbt::main(c, v, "P28", "at least three tasks, and some task or clean-up uses the pool itself; crowd: at least 30 tasks"); }
