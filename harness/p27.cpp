// P27: the worker count follows its target, and all counters tell the truth.
#include "pool.hpp"
#include <algorithm>
#include <set>
#include <system_error>
using namespace pool_test;

namespace
{
    // what a register may hold at some moment of [lo, hi]
    std::set<std::size_t> register_values(const World& w, Kind kind, Stamp lo, Stamp hi)
    {
        std::set<std::size_t> v;
        for (auto& a : w.sets)
        {
            if (a.kind != kind || a.call > hi) continue;
            bool overwritten = false;
            for (auto& b : w.sets) overwritten |= b.kind == kind && b.call > a.ret && b.ret < lo;
            if (!overwritten) v.insert(a.value);
        }
        return v;
    }
    std::string show_set(const std::set<std::size_t>& s)
    {
        std::string r;
        for (auto x : s) r += (r.empty() ? "" : " or ") + std::to_string(x);
        return r;
    }
    // everything is at rest
    struct Counters { std::size_t v[9]; unsigned threads; long long before, after; Stamp from, to; };
    Counters read_all(const World& w)
    {
        Counters r;
        { vs::Quiet q; r.before = vs::now(); r.from = vs::stamp(); r.threads = vs::threads_alive(); }
        for (int k = 0; k < 9; ++k) r.v[k] = read_counter(*w.pool, k);
        { vs::Quiet q; r.after = vs::now(); r.to = vs::stamp(); }
        return r;
    }
    bool check_rest(pbt::Case& c, const World& w, const Counters& n, unsigned other_threads, int step)
    {
        std::size_t running = 0, queued = 0, scheduled = 0;
        for (auto& r : w.recs)
        {
            if (r.call == NEVER) continue;
            const bool timed = r.kind == AT || r.kind == AFTER;
            if (r.start != NEVER && r.start > n.from) return false; // a task came due meanwhile
            if (r.end != NEVER && r.end > n.from) return false;
            if (timed && r.start == NEVER && r.due <= n.after && r.due_latest >= n.before) return false;
            if (r.start != NEVER) running += r.end == NEVER;
            else if (timed && r.due > n.after) ++scheduled;
            else ++queued;
        }
        const auto targets = register_values(w, TARGET, n.from, n.to), stops = register_values(w, ON_STOP, n.from, n.to);
        const std::size_t target = n.v[1];
        const auto expect = [&](int which, std::size_t value)
        {
            if (n.v[which] == value) return;
            describe_history(c, w);
            CHECK(counter_name(which), false, "after step " << step << " everything is at rest with target " << target << ", " << running << " tasks running, " << queued << " queued, " << scheduled << " scheduled, but " << counter_name(which) << "() is " << n.v[which] << ", not " << value);
        };
        CHECK("target_workers_size", targets.count(target), "target_workers_size() is " << target << ", it was set to " << show_set(targets));
        CHECK("on_stop", stops.count(n.v[8]), "on_stop() is " << n.v[8] << ", it was set to " << show_set(stops));
        const std::size_t workers = std::max(target, running);
        expect(0, workers);
        expect(2, running);
        expect(3, workers - running);
        expect(4, running + queued);
        expect(5, running);
        expect(6, queued);
        expect(7, scheduled);
        CHECK("idle", queued == 0 || running >= target, queued << " tasks are queued although only " << running << " of " << target << " workers are busy");
        const std::size_t threads = 1 + other_threads + workers + (scheduled ? 1 : 0);
        if (n.threads != threads) describe_history(c, w);
        CHECK("threads", n.threads == threads, "after step " << step << " there are " << n.threads << " threads instead of " << threads << ": the caller" << (other_threads ? ", other threads" : "") << ", " << workers << " workers" << (scheduled ? " and the scheduler" : ""));
        return true;
    }
    // readings at any moment
    void check_reads(pbt::Case& c, const World& w)
    {
        for (auto& x : w.reads)
        {
            const auto target = register_values(w, TARGET, x.call, x.ret);
            std::size_t most_workers = 0;
            for (auto& a : w.sets) if (a.kind == TARGET && a.call < x.ret) most_workers = std::max(most_workers, a.value);
            std::size_t lo = 0, hi = 0;
            const auto still_counted = [&](const Rec& r) // the worker may not have recorded the end yet
            {
                if (r.end == NEVER || r.end > x.call) return true;
                for (auto& o : w.recs) if (&o != &r && o.thread == r.thread && o.start != NEVER && o.start > r.end && o.start < x.call) return false;
                return true;
            };
            const auto picked_after = [&](const Rec& r) // the worker was busy with another task until then
            {
                Stamp pick = 0;
                if (r.start == NEVER) return NEVER;
                for (auto& o : w.recs) if (&o != &r && o.thread == r.thread && o.end != NEVER && o.end < r.start) pick = std::max(pick, o.end);
                return pick;
            };
            bool exact = true;
            switch (x.which)
            {
            case 0: lo = *target.begin(); hi = most_workers; break;
            case 1: exact = target.count(x.value) != 0; lo = *target.begin(); hi = *target.rbegin(); break;
            case 2: case 5:
                for (auto& r : w.recs)
                {
                    lo += r.start < x.call && r.end > x.ret;
                    hi += r.call < x.ret && r.start != NEVER && still_counted(r) && picked_after(r) < x.ret;
                    hi += r.call < x.ret && r.start == NEVER; // may have been picked already
                }
                hi = std::min(hi, most_workers);
                break;
            case 3: lo = 0; hi = most_workers; break;
            case 4:
                for (auto& r : w.recs)
                {
                    lo += std::min(r.queued, r.start) < x.call && r.end > x.ret;
                    hi += r.call < x.ret && still_counted(r);
                }
                break;
            case 6:
                for (auto& r : w.recs)
                {
                    lo += r.queued < x.call && picked_after(r) > x.ret;
                    hi += r.call < x.ret && (r.start == NEVER || r.start > x.call);
                }
                break;
            case 7:
                for (auto& r : w.recs)
                {
                    if (r.kind != AT && r.kind != AFTER) continue;
                    lo += r.ret < x.call && r.due > x.ret_time;
                    hi += r.call < x.ret && (r.start == NEVER || r.start > x.call);
                }
                break;
            default: exact = register_values(w, ON_STOP, x.call, x.ret).count(x.value) != 0; lo = 0; hi = 1; break;
            }
            if (exact && lo <= x.value && x.value <= hi) continue;
            describe_history(c, w);
            for (auto& a : w.sets) if (a.call && c.verbose()) c.out() << "\n  " << (a.kind == TARGET ? "target " : "on_stop ") << a.value << " [" << a.call << ".." << a.ret << "]";
            CHECK(std::string("reading ") + counter_name(x.which), false, counter_name(x.which) << "() read by thread " << x.thread << " [" << x.call << ".." << x.ret << "] is " << x.value << ", it must have been between " << lo << " and " << hi);
        }
    }
    // surplus workers leave between tasks: no worker takes a task while there are more busy workers than the target
    void check_picks(pbt::Case& c, const World& w)
    {
        for (std::size_t i = 0; i < w.recs.size(); ++i)
        {
            const Rec& B = w.recs[i];
            if (B.start == NEVER || B.start > w.destroy_call) continue;
            Stamp from = B.call;
            for (auto& o : w.recs) if (&o != &B && o.thread == B.thread && o.end != NEVER && o.end < B.start) from = std::max(from, o.end);
            std::size_t busy = 1;
            for (auto& r : w.recs) busy += &r != &B && r.start < from && r.end > B.start;
            const auto target = register_values(w, TARGET, from, B.start);
            if (busy <= *target.rbegin()) continue;
            describe_history(c, w);
            for (auto& a : w.sets) if (a.kind == TARGET && c.verbose()) c.out() << "\n  target " << a.value << " [" << a.call << ".." << a.ret << "]";
            CHECK("surplus worker", false, "thread " << B.thread << " took task " << i << " in [" << from << ".." << B.start << "] while " << busy - 1 << " other workers were busy and the target was " << show_set(target));
        }
    }
    int plain(pbt::Case& c, World& w, int depth)
    {
        const int id = new_task(c, w, 2);
        const std::size_t at = static_cast<std::size_t>(id);
        if (c.flag(0.3)) { w.plans[at].gate = static_cast<int>(w.gates.size()); w.gates.emplace_back(); }
        if (depth == 0)
            for (std::size_t k = c.flag(0.3) ? 1 + c.draw(3) : 0; k > 0; --k)
            {
                Action a;
                switch (c.weighted({ 2, 2, 1, 1, 1 }))
                {
                case 0: a = Action{ READ, -1, static_cast<long long>(c.draw(9)) }; break;
                case 1: a = Action{ TARGET, -1, static_cast<long long>(c.draw(5)) }; break;
                case 2: a = Action{ ASYNC, plain(c, w, 1) }; break;
                case 3: a = Action{ AFTER, plain(c, w, 1), static_cast<long long>(c.draw(4)) * MS }; break;
                default: a = Action{ ON_STOP, -1, static_cast<long long>(c.draw(2)) }; break;
                }
                w.plans[at].body.push_back(a);
            }
        return id;
    }
    Action any(pbt::Case& c, World& w)
    {
        switch (c.weighted({ 5, 3, 5, 2, 2, 1, 1 }))
        {
        case 0: return Action{ ASYNC, plain(c, w, 0) };
        case 1: return Action{ TARGET, -1, static_cast<long long>(c.draw(c.draw(8) ? 5 : 12)) };
        case 2: return Action{ READ, -1, static_cast<long long>(c.draw(9)) };
        case 3: return Action{ AFTER, plain(c, w, 0), static_cast<long long>(c.draw(6)) * MS };
        case 4: if (w.gates.empty()) return Action{ POINT }; return Action{ OPEN, -1, static_cast<long long>(c.draw(w.gates.size())) };
        case 5: return Action{ AT, plain(c, w, 0), static_cast<long long>(c.draw(12)) * MS - 3 * MS };
        default: return Action{ ON_STOP, -1, static_cast<long long>(c.draw(2)) };
        }
    }
}

VPROP(history, .quick = 240000)
{
    World w;
    const std::size_t workers = c.draw(5);
    struct Step { std::vector<std::vector<Action>> scripts; long long sleep; };
    std::vector<Step> steps(1 + c.draw(4));
    for (auto& st : steps)
    {
        st.scripts.resize(1 + (c.draw(3) ? 0 : 1 + c.draw(2)));
        for (auto& s : st.scripts) for (std::size_t k = c.length(6); k > 0; --k) s.push_back(any(c, w));
        st.sleep = c.draw(3) ? 0 : static_cast<long long>(c.draw(8)) * MS;
    }
    NOTE(workers << " workers");
    for (auto& st : steps) { NOTE("; step"); for (auto& s : st.scripts) NOTE(" [" << text(w, s) << "]"); if (st.sleep) NOTE(" wait " << st.sleep / MS << "ms"); }
    std::size_t checked = 0, resized = 0;
    vs::Config config;
    config.steps = 400000;
    vs::run(c, config, [&]
    {
        w.prepare();
        w.create(workers);
        int step = 0;
        for (auto& st : steps)
        {
            ++step;
            std::vector<std::thread> threads;
            for (std::size_t t = 1; t < st.scripts.size(); ++t) threads.emplace_back([&, t] { w.script(st.scripts[t]); });
            w.script(st.scripts[0]);
            for (auto& t : threads) t.join();
            if (st.sleep) vs::sleep_until(vs::now() + st.sleep);
            vs::allow_jumps(false);
            vs::quiesce();
            const Counters n = read_all(w);
            { vs::Quiet q; checked += check_rest(c, w, n, 0, step); }
        }
        for (std::size_t g = 0; g < w.gates.size(); ++g) w.gates[g].open();
        vs::quiesce();
        const Counters n = read_all(w);
        { vs::Quiet q; check_rest(c, w, n, 0, step + 1); }
        w.destroy();
        vs::Quiet q;
        check_reads(c, w);
        check_picks(c, w);
        for (auto& a : w.sets) resized += a.kind == TARGET;
    });
    c.nontrivial(checked > 0 && resized > 1);
}

// a single thread, no waiting: the call that raises the target has started the missing workers when it returns, and
// lowering it makes the surplus leave
VPROP(resizes, .quick = 120000)
{
    World w;
    const std::size_t workers = c.draw(6);
    std::vector<std::pair<std::size_t, int>> targets(1 + c.length(6));
    for (auto& t : targets) t = { c.draw(c.draw(6) ? 5 : 11), static_cast<int>(c.draw(3)) };
    NOTE(workers << " workers, targets");
    for (auto& t : targets) NOTE(" " << t.first << (t.second == 0 ? "" : t.second == 1 ? " (then at rest)" : " (with a task)"));
    for (auto& t : targets) if (t.second == 2) { new_task(c, w, 2); }
    bool up = false, down = false;
    vs::run(c, [&]
    {
        w.prepare();
        w.create(workers);
        CHECK("constructor", w.pool->workers_size() == workers, "a pool made with " << workers << " workers has " << w.pool->workers_size());
        std::size_t last = workers;
        int task = 0;
        for (auto& t : targets)
        {
            if (t.second == 2) w.act(Action{ ASYNC, task++ });
            w.act(Action{ TARGET, -1, static_cast<long long>(t.first) });
            const std::size_t size = w.pool->workers_size(), target = w.pool->target_workers_size();
            {
                vs::Quiet q;
                CHECK("started", size >= t.first, "just after the target was raised to " << t.first << " there are " << size << " workers");
                CHECK("target", target == t.first, "the target is " << target << " after it was set to " << t.first);
                up |= t.first > last;
                down |= t.first < last;
                last = t.first;
            }
            if (t.second == 1)
            {
                vs::quiesce();
                const Counters n = read_all(w);
                vs::Quiet q;
                check_rest(c, w, n, 0, 0);
            }
        }
        vs::quiesce();
        const Counters n = read_all(w);
        { vs::Quiet q; check_rest(c, w, n, 0, 0); }
        w.destroy();
        vs::Quiet q;
        for (auto& r : w.recs) CHECK("lost", r.call == NEVER || r.end != NEVER || last == 0, "a task was lost although workers remained");
    });
    c.nontrivial(up && down);
}

// dozens of workers, hundreds of tasks, everything at rest between the steps
VPROP(crowd, .quick = 12000)
{
    World w;
    const std::size_t workers = c.large(60);
    struct Step { int kind; std::size_t n; };
    std::vector<Step> steps(1 + c.draw(6));
    const Pattern priorities = draw_pattern(c);
    std::vector<std::vector<Action>> scripts;

    for (auto& st : steps)
    {
        st.kind = static_cast<int>(c.weighted({ 3, 3, 2, 2, 1 }));
        scripts.emplace_back();
        auto& s = scripts.back();
        if (st.kind == 0) // tasks that are held
            for (st.n = c.large(100); s.size() < st.n;) { s.push_back(Action{ ASYNC, plain_task(w, priorities.at(s.size())) }); w.plans.back().gate = static_cast<int>(w.gates.size()); w.gates.emplace_back(); }
        else if (st.kind == 1)
        {
            st.n = c.large(60);
            s.push_back(Action{ TARGET, -1, static_cast<long long>(st.n) });
        }
        else if (st.kind == 2) for (st.n = c.large(100); s.size() < st.n;) s.push_back(Action{ ASYNC, plain_task(w, priorities.at(s.size())) });
        else if (st.kind == 3) for (st.n = c.large(200); s.size() < st.n;) s.push_back(Action{ s.size() % 2 ? AT : AFTER, plain_task(w, priorities.at(s.size())), (1000 + static_cast<long long>(s.size() % 7)) * MS });
        else
        {
            st.n = w.gates.empty() ? 0 : c.draw(w.gates.size() + 1);
            for (std::size_t g = 0; g < st.n; ++g) s.push_back(Action{ OPEN, -1, static_cast<long long>(g) });
        }
    }
    static const char* const names[] = { "held tasks", "target", "tasks", "scheduled tasks", "let go" };
    NOTE(workers << " workers, priorities " << text(priorities));
    for (auto& st : steps) NOTE("; " << names[st.kind] << " " << st.n);
    std::size_t most = workers, checked = 0;
    vs::Config config;
    config.steps = 2000000;
    config.jumps = false;
    vs::run(c, config, [&]
    {
        w.prepare();
        w.create(workers);
        int step = 0;
        for (auto& s : scripts)
        {
            ++step;
            w.script(s);
            if (!s.empty() && s[0].kind == TARGET) most = std::max(most, static_cast<std::size_t>(s[0].value));
            vs::quiesce();
            const Counters n = read_all(w);
            vs::Quiet q;
            checked += check_rest(c, w, n, 0, step);
        }
        for (auto& g : w.gates) g.open();
        vs::quiesce();
        const Counters n = read_all(w);
        { vs::Quiet q; check_rest(c, w, n, 0, step + 1); }
        w.destroy();
        vs::Quiet q;
        check_picks(c, w);
    });
    c.nontrivial(checked > 1 && w.plans.size() >= 10);
    if (most > 16) c.label("more than 16 workers");
    if (w.plans.size() > 100) c.label("more than 100 tasks");
}

// starting threads may fail: the call says so, and what the pool then reports and does is true
VPROP(no_more_threads, .quick = 60000)
{
    struct Step { int kind; std::size_t n; int id; };
    World w;
    const std::size_t workers = c.draw(5);
    const std::size_t at_first = c.draw(3) ? 0 : 1 + c.draw(5);
    std::vector<Step> steps(1 + c.length(9));
    NOTE(workers << " workers" << (at_first ? ", at most " + std::to_string(at_first) + " threads" : std::string()));
    for (auto& st : steps)
    {
        st.kind = static_cast<int>(c.weighted({ 3, 3, 3, 2, 1 }));
        st.n = 0;
        st.id = -1;
        switch (st.kind)
        {
        case 0: st.n = c.draw(4) ? 1 + c.draw(6) : 0; if (st.n) { NOTE("; at most " << st.n << " threads"); } else NOTE("; any number of threads"); break;
        case 1: st.n = c.draw(6); NOTE("; target " << st.n); break;
        case 2: st.id = new_task(c, w); st.n = c.draw(5); NOTE("; " << text(w, Action{ AT, st.id, static_cast<long long>(st.n) * MS })); break;
        case 3: st.id = new_task(c, w); NOTE("; " << text(w, Action{ ASYNC, st.id })); break;
        default: st.n = 1 + c.draw(5); NOTE("; wait " << st.n << " ms"); break;
        }
    }
    bool failed_start = false, failed_target = false, failed_schedule = false;
    vs::Config config;
    config.jumps = false;
    vs::run(c, config, [&]
    {
        w.prepare();
        std::size_t limit = at_first;
        vs::thread_limit(static_cast<unsigned>(limit));
        const auto try_to = [&](bool has_room, const char* what, const std::function<void()>& f)
        {
            bool failed = false;
            try { f(); } catch (const std::system_error&) { failed = true; }
            vs::Quiet q;
            CHECK("failure", failed == !has_room, what << (failed ? " fails although the threads can be started" : " does not say that a thread could not be started"));
            return failed;
        };
        failed_start = try_to(!limit || limit > workers, "the constructor", [&] { w.create(workers); });
        if (failed_start)
        {
            const unsigned left = vs::threads_alive();
            CHECK("threads", left == 1, left - 1 << " threads are left of a pool that could not be created");
            limit = 0;
            vs::thread_limit(0);
            w.create(workers);
        }
        std::size_t have = workers, target = workers; // workers, and the target they follow
        std::vector<int> lost;
        const auto rest = [&](const char* when)
        {
            vs::quiesce();
            const Counters n = read_all(w);
            vs::Quiet q;
            std::size_t queued = 0, scheduled = 0;
            for (auto& r : w.recs)
            {
                if (r.ret == NEVER || r.start != NEVER) continue;
                ++(r.kind == AT && r.due > n.after ? scheduled : queued);
            }
            const auto expect = [&](int which, std::size_t value)
            {
                if (n.v[which] != value) describe_history(c, w);
                CHECK(counter_name(which), n.v[which] == value, when << " " << counter_name(which) << "() is " << n.v[which] << ", not " << value);
            };
            const std::size_t busy_threads = 1 + (scheduled ? 1 : 0);
            CHECK("threads", n.threads == busy_threads + n.v[0], when << " there are " << n.threads << " threads, but workers_size() is " << n.v[0] << " and " << scheduled << " tasks are scheduled");
            if (have == target) { expect(0, have); expect(1, target); }
            expect(2, 0);
            expect(3, n.v[0]);
            expect(4, queued);
            expect(5, 0);
            expect(6, queued);
            expect(7, scheduled);
            CHECK("idle", queued == 0 || n.v[0] == 0, when << " " << queued << " tasks are queued although there are " << n.v[0] << " idle workers");
            for (int id : lost)
            {
                const Rec& r = w.recs[static_cast<std::size_t>(id)];
                CHECK("refused task", r.start == NEVER, "task " << id << " ran although run_at had failed");
                CHECK("refused task", r.copies == 0, "the pool keeps the state captured by task " << id << " although run_at had failed");
            }
            return n.v[0];
        };
        rest("after the construction");
        for (auto& st : steps)
        {
            const std::size_t alive = vs::threads_alive();
            switch (st.kind)
            {
            case 0: limit = st.n; vs::thread_limit(static_cast<unsigned>(limit)); break;
            case 1:
            {
                const std::size_t missing = st.n > have ? st.n - have : 0, room = !limit ? missing : limit > alive ? limit - alive : 0;
                const bool failed = try_to(missing <= room, "target_workers_size", [&] { w.pool->target_workers_size(st.n); });
                failed_target |= failed;
                const std::size_t before = have, most = have + room;
                if (!failed) { have = target = st.n; break; }
                target = NEVER;
                have = rest("after workers could not be started");
                CHECK("workers", before <= have && have <= most, have << " workers are left of " << before << " after " << st.n << " were asked for and no more than " << most << " could be had");
                break;
            }
            case 2:
            {
                const bool scheduling = w.pool->scheduled_tasks_size() != 0;
                const bool failed = try_to(scheduling || !limit || alive < limit, "run_at", [&] { w.act(Action{ AT, st.id, static_cast<long long>(st.n) * MS }); });
                failed_schedule |= failed;
                if (failed) lost.push_back(st.id);
                break;
            }
            case 3: w.act(Action{ ASYNC, st.id }); break;
            default: vs::sleep_until(vs::now() + static_cast<long long>(st.n) * MS); break;
            }
            rest("after a step");
        }
        vs::thread_limit(0);
        w.pool->target_workers_size(2);
        have = target = 2;
        vs::sleep_until(vs::now() + 20 * MS);
        rest("when threads can be started again");
        {
            vs::Quiet q;
            for (std::size_t i = 0; i < w.recs.size(); ++i)
                CHECK("lost", w.recs[i].ret == NEVER || w.recs[i].end != NEVER, "task " << i << " never ran");
        }
        w.destroy();
        const unsigned left = vs::threads_alive();
        CHECK("threads", left == 1, left - 1 << " threads are left of a destroyed pool");
    });
    c.nontrivial(failed_start || failed_target || failed_schedule);
    if (failed_start) c.label("the constructor failed");
    if (failed_target) c.label("workers could not be started");
    if (failed_schedule) c.label("the scheduler could not be started");
}

int main(int c, char** v) { return pbt::main(c, v, "P27", "history: the target was changed and the counters were compared at rest at least once; resizes: the target went both up and down; crowd: ten tasks, counters compared at rest at least twice; no_more_threads: starting a thread failed at least once"); }
