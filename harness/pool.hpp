// Generated scenarios for thread pools and the history they leave behind (P23 to P28).
#pragma once
#include "pbt.hpp"
#include "vsched.hpp"
#include <chrono>
#include <deque>
#include <functional>
#include <limits>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <pluto/thread_pool.hpp>
#ifndef VARIANT
#define VARIANT
#define VPROP(NAME, ...) PROP(NAME, __VA_ARGS__)
#else
#define VPROP2(NAME, VAR, ...) PROP(NAME##_##VAR, __VA_ARGS__)
#define VPROP1(NAME, VAR, ...) VPROP2(NAME, VAR, __VA_ARGS__)
#define VPROP(NAME, ...) VPROP1(NAME, VARIANT, __VA_ARGS__)
#endif

namespace pool_test
{
    typedef pluto::thread_pool Pool;
    typedef std::uint64_t Stamp;
    constexpr Stamp NEVER = ~Stamp(0);
    constexpr long long MS = 1000000;
    constexpr long long FOR_EVER = std::numeric_limits<long long>::max(), BIG_BANG = std::numeric_limits<long long>::min();

    enum Kind { ASYNC, SYNC, AT, AFTER, TARGET, ON_STOP, WAIT_NONE, WAIT_ALL, READ, POINT, SLEEP, QUIESCE, OPEN };
    struct TaskPlan;
    struct Action
    {
        Kind kind{ POINT };
        int task{ -1 };        // ASYNC, SYNC, AT, AFTER: index of the plan
        long long value{ 0 };  // TARGET count, ON_STOP 0/1, READ which, SLEEP ns, OPEN gate, AT/AFTER offset in ns
    };
    struct TaskPlan
    {
        int priority{ 0 };
        int form{ 0 };         // 0 number, 1 enumerator if there is one, 2 default argument
        int points{ 0 };
        int gate{ -1 };
        std::vector<Action> body;
        std::vector<Action> cleanup;  // run when the captured state dies
        bool each{ false };           // every copying and every death of the captured state uses the pool
        int fails{ 0 };               // the copying of the captured state that fails, if the submitting call makes so many
    };
    struct Rec // what happened to one task
    {
        Kind kind{ ASYNC };
        int priority{ 0 };
        Stamp call{ NEVER }, ret{ NEVER }, start{ NEVER }, end{ NEVER };
        Stamp queued{ NEVER };     // the task is certainly queued (if not yet started) from here on
        long long due{ 0 }, due_latest{ 0 }, ret_time{ 0 }, start_time{ 0 };
        int starts{ 0 }, thread{ -1 }, submitter{ -1 };
        int copies{ 0 };
        bool cleaned{ false };
        int until_failure{ 0 };    // while it is being submitted
        bool refused{ false };     // the call that should have submitted it failed
    };
    struct WaitRec { Kind kind; int thread; Stamp call, ret; };
    struct ReadRec { int which; Stamp call, ret; std::size_t value; long long ret_time{ 0 }; int thread{ 0 }; };
    struct SetRec { Kind kind; std::size_t value; Stamp call, ret; };

    inline const char* priority_name(int p)
    {
        switch (p) { case -128: return "lowest"; case -64: return "lower"; case -32: return "low"; case 0: return "normal"; case 32: return "high"; case 64: return "higher"; case 127: return "highest"; default: return nullptr; }
    }
    inline const char* counter_name(int k)
    {
        static const char* const n[] = { "workers_size", "target_workers_size", "active_workers_size", "waiting_workers_size", "tasks_size", "active_tasks_size", "waiting_tasks_size", "scheduled_tasks_size", "on_stop" };
        return n[k];
    }
    inline std::size_t read_counter(const Pool& p, int k)
    {
        switch (k)
        {
        case 0: return p.workers_size();
        case 1: return p.target_workers_size();
        case 2: return p.active_workers_size();
        case 3: return p.waiting_workers_size();
        case 4: return p.tasks_size();
        case 5: return p.active_tasks_size();
        case 6: return p.waiting_tasks_size();
        case 7: return p.scheduled_tasks_size();
        default: return static_cast<std::size_t>(p.on_stop());
        }
    }

    struct World
    {
        std::deque<TaskPlan> plans;
        std::deque<Rec> recs;               // by plan
        std::deque<vs::Gate> gates;
        std::vector<WaitRec> waits;
        std::vector<ReadRec> reads;
        std::vector<SetRec> sets;
        std::unique_ptr<int[]> effects;     // plain memory written by tasks
        Pool* pool{ nullptr };
        bool destroying{ false }, destroyed{ false };
        Stamp destroy_call{ NEVER }, destroy_ret{ NEVER };
        std::size_t max_target{ 0 };

        void prepare()
        {
            recs.resize(plans.size());
            effects.reset(new int[plans.size() + 1]());
            for (std::size_t i = 0; i < plans.size(); ++i) recs[i].priority = plans[i].priority;
        }
        void create(std::size_t workers) { max_target = workers; sets.push_back(SetRec{ TARGET, workers, 0, 0 }); sets.push_back(SetRec{ ON_STOP, 0, 0, 0 }); pool = new Pool(workers); }
        void destroy()
        {
            { vs::Quiet q; destroying = true; destroy_call = vs::stamp(); }
            Pool* const p = pool;
            delete p;
            vs::Quiet q;
            destroyed = true;
            pool = nullptr;
            destroy_ret = vs::stamp();
        }
        void run_task(int id);
        void act(const Action& a, bool in_task = false);
        void script(const std::vector<Action>& s, bool in_task = false) { for (auto& a : s) act(a, in_task); }
        bool all_ended() const { for (auto& r : recs) if (r.ret != NEVER && r.end == NEVER) return false; return true; }
    };

    // what a task captures: counts its copies; the last one's death runs the clean-up actions
    struct Captured
    {
        World* w; int id; unsigned magic;
        Captured(World* world, int task) : w(world), id(task), magic(0x600D600D) { vs::Quiet q; ++w->recs[static_cast<std::size_t>(id)].copies; }
        Captured(const Captured& o) : w(o.w), id(o.id), magic(0x600D600D)
        {
            {
                vs::Quiet q;
                o.alive();
                ++w->recs[static_cast<std::size_t>(id)].copies;
                if (w->destroying || !w->plans[static_cast<std::size_t>(id)].each) return;
            }
            (void)w->pool->waiting_tasks_size();
        }
        Captured& operator=(const Captured&) = delete;
        ~Captured()
        {
            {
                vs::Quiet q;
                alive();
                magic = 0xDEADDEAD;
                --w->recs[static_cast<std::size_t>(id)].copies;
                if (w->destroying || !w->plans[static_cast<std::size_t>(id)].each) return;
            }
            (void)w->pool->tasks_size();
        }
        void alive() const { if (magic != 0x600D600D) vs::fail("captured state", "captured state of task " + std::to_string(id) + " is used or destroyed after its destruction"); }
    };
    struct Cleanup
    {
        World* w; int id;
        Cleanup(World* world, int task) : w(world), id(task) {}
        ~Cleanup()
        {
            {
                vs::Quiet q;
                Rec& r = w->recs[static_cast<std::size_t>(id)];
                if (r.cleaned) vs::fail("captured state", "the state captured by task " + std::to_string(id) + " is destroyed twice");
                r.cleaned = true;
            }
            // once the destructor of the pool has been entered only running tasks may use the pool
            if (!w->destroying) w->script(w->plans[static_cast<std::size_t>(id)].cleanup, true);
        }
    };
    // captured state that cannot always be copied
    struct CopyFailure {};
    struct Tripwire
    {
        World* w; int id;
        Tripwire(World* world, int task) : w(world), id(task) {}
        Tripwire(const Tripwire& o) : w(o.w), id(o.id)
        {
            {
                vs::Quiet q;
                Rec& r = w->recs[static_cast<std::size_t>(id)];
                if (!r.until_failure || r.submitter != vs::self() || --r.until_failure) return;
            }
            throw CopyFailure{};
        }
        Tripwire& operator=(const Tripwire&) = delete;
    };
    struct Fn
    {
        Captured token;
        Tripwire tripwire;
        std::shared_ptr<Cleanup> cleanup;
        void operator()() const { { vs::Quiet q; token.alive(); } token.w->run_task(token.id); }
    };
    inline Fn make(World& w, int id)
    {
        return Fn{ Captured(&w, id), Tripwire(&w, id), w.plans[static_cast<std::size_t>(id)].cleanup.empty() ? nullptr : std::make_shared<Cleanup>(&w, id) };
    }

    inline void World::run_task(int id)
    {
        const std::size_t i = static_cast<std::size_t>(id);
        Rec& r = recs[i];
        const TaskPlan& p = plans[i];
        {
            vs::Quiet q;
            if (destroyed) vs::fail("after destruction", "task " + std::to_string(id) + " runs after the destruction of its pool");
            if (r.refused) vs::fail("refused task", "task " + std::to_string(id) + " runs although the call that should have submitted it failed");
            if (++r.starts > 1) vs::fail("runs twice", "task " + std::to_string(id) + " runs a second time");
            r.start = vs::stamp();
            r.thread = vs::self();
            r.start_time = vs::now();
            if (r.kind == AT || r.kind == AFTER)
                CHECK("early", r.due == FOR_EVER ? false : r.start_time >= r.due, "task " << id << " due at " << (r.due - vs::START) << " ns was started at " << (r.start_time - vs::START) << " ns");
        }
        for (int k = 0; k < p.points; ++k) vs::point();
        if (p.gate >= 0) gates[static_cast<std::size_t>(p.gate)].wait();
        script(p.body, true);
        effects[i] = id + 1;
        vs::Quiet q;
        if (destroyed) vs::fail("after destruction", "task " + std::to_string(id) + " still runs after the destruction of its pool");
        r.end = vs::stamp();
    }

    inline void World::act(const Action& a, bool in_task)
    {
        switch (a.kind)
        {
        case ASYNC: case SYNC: case AT: case AFTER:
        {
            const std::size_t i = static_cast<std::size_t>(a.task);
            Rec& r = recs[i];
            const TaskPlan& p = plans[i];
            const Pool::priority named = static_cast<Pool::priority>(p.priority);
            const signed char number = static_cast<signed char>(p.priority);
            const bool by_name = p.form == 1 && priority_name(p.priority);
            const bool by_default = p.form == 2 && p.priority == (a.kind == SYNC ? PLUTO_THREAD_POOL_PRIORITY_HIGH : PLUTO_THREAD_POOL_PRIORITY_NORMAL);
            {
                vs::Quiet q;
                if (r.call != NEVER) vs::fail("harness", "a task is submitted twice");
                r.kind = a.kind;
                r.submitter = vs::self();
                r.call = vs::stamp();
                r.until_failure = p.fails;
            }
            try {
            if (a.kind == ASYNC)
            {
                if (by_default) pool->run_async(make(*this, a.task));
                else if (by_name) pool->run_async(make(*this, a.task), named);
                else pool->run_async(make(*this, a.task), number);
            }
            else if (a.kind == SYNC)
            {
                if (by_default) pool->run_sync(make(*this, a.task));
                else if (by_name) pool->run_sync(make(*this, a.task), named);
                else pool->run_sync(make(*this, a.task), number);
            }
            else
            {
                typedef Pool::clock_type Clock;
                const auto ns = [](Clock::time_point t) { return static_cast<long long>(std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count()); };
                const auto d = std::chrono::duration_cast<Clock::duration>(std::chrono::nanoseconds(a.value));
                const Clock::time_point base = Clock::now();
                if (a.kind == AT)
                {
                    Clock::time_point t = base + d;
                    {
                        vs::Quiet q;
                        r.due = r.due_latest = a.value;
                        if (a.value == FOR_EVER) t = Clock::time_point::max();
                        else if (a.value == BIG_BANG) t = Clock::time_point::min();
                        else r.due = r.due_latest = ns(t);
                    }
                    if (by_default) pool->run_at(t, make(*this, a.task));
                    else if (by_name) pool->run_at(t, make(*this, a.task), named);
                    else pool->run_at(t, make(*this, a.task), number);
                }
                else
                {
                    const bool endless = a.value > FOR_EVER / 2; // the clock cannot count that far: it never comes due
                    { vs::Quiet q; r.due = endless ? FOR_EVER : ns(base + d); r.due_latest = FOR_EVER; }
                    if (by_default) pool->run_after(d, make(*this, a.task));
                    else if (by_name) pool->run_after(d, make(*this, a.task), named);
                    else pool->run_after(d, make(*this, a.task), number);
                    vs::Quiet q;
                    if (!endless) r.due_latest = vs::now() + a.value;
                }
            }
            }
            catch (const CopyFailure&)
            {
                vs::Quiet q;
                CHECK("refused task", r.starts == 0, "task " << a.task << " ran although the call that should have submitted it fails");
                CHECK("refused task", r.copies == 0, r.copies << " copies of the state captured by task " << a.task << " are left when the call that should have submitted it has failed");
                r.refused = true;
                r.call = NEVER;
                break;
            }
            vs::Quiet q;
            r.until_failure = 0;
            r.ret = vs::stamp();
            r.ret_time = vs::now();
            if (r.queued == NEVER && a.kind == ASYNC) r.queued = r.ret;
            if (a.kind == SYNC)
            {
                CHECK("sync returned early", r.end != NEVER && r.end < r.ret, "run_sync returned although its task " << a.task << (r.start == NEVER ? " has not started" : " has not finished"));
            }
            break;
        }
        case TARGET:
        case ON_STOP:
        {
            std::size_t at;
            {
                vs::Quiet q;
                if (a.kind == TARGET) max_target = std::max(max_target, static_cast<std::size_t>(a.value));
                at = sets.size();
                sets.push_back(SetRec{ a.kind, static_cast<std::size_t>(a.value), vs::stamp(), NEVER });
            }
            Pool& same = a.kind == TARGET ? pool->target_workers_size(static_cast<std::size_t>(a.value)) : pool->on_stop(a.value ? Pool::action::complete_tasks : Pool::action::join_all);
            vs::Quiet q;
            CHECK("returns itself", &same == pool, "a setter does not return its pool");
            sets[at].ret = vs::stamp();
            break;
        }
        case WAIT_NONE: case WAIT_ALL:
        {
            WaitRec r{ a.kind, vs::self(), vs::stamp(), NEVER };
            std::size_t at;
            { vs::Quiet q; at = waits.size(); waits.push_back(r); }
            if (a.kind == WAIT_NONE) pool->wait_until_no_tasks_waiting(); else pool->wait_until_all_tasks_complete();
            vs::Quiet q;
            waits[at].ret = vs::stamp();
            break;
        }
        case READ:
        {
            ReadRec r{ static_cast<int>(a.value), vs::stamp(), 0, 0 };
            r.value = read_counter(*pool, r.which);
            vs::Quiet q;
            r.ret = vs::stamp();
            r.ret_time = vs::now();
            r.thread = vs::self();
            reads.push_back(r);
            break;
        }
        case POINT: vs::point(); break;
        case SLEEP: vs::sleep_until(vs::now() + a.value); break;
        case QUIESCE: vs::quiesce(); break;
        case OPEN: gates[static_cast<std::size_t>(a.value)].open(); break;
        }
        (void)in_task;
    }

    // after run_sync: the task's effects must be visible to the caller (the race detector watches)
    inline void see_effect(World& w, int id)
    {
        const int seen = w.effects[static_cast<std::size_t>(id)];
        vs::Quiet q;
        CHECK("effects", seen == id + 1, "the effects of task " << id << " are not visible after run_sync");
    }

    inline std::string text(const World& w, const Action& a);
    inline std::string text(const World& w, const std::vector<Action>& s)
    {
        std::string r;
        for (auto& a : s) r += (r.empty() ? "" : " ") + text(w, a);
        return r;
    }
    inline std::string text(const World& w, const Action& a)
    {
        const auto task = [&]
        {
            const TaskPlan& p = w.plans[static_cast<std::size_t>(a.task)];
            std::string r = "#" + std::to_string(a.task) + " prio " + std::to_string(p.priority);
            if (p.points) r += " steps " + std::to_string(p.points);
            if (p.gate >= 0) r += " gate " + std::to_string(p.gate);
            if (!p.body.empty()) r += " {" + text(w, p.body) + "}";
            if (p.each) r += " every copy uses the pool";
            if (p.fails) r += " copy " + std::to_string(p.fails) + " fails";
            if (!p.cleanup.empty()) r += " on clean-up {" + text(w, p.cleanup) + "}";
            return r;
        };
        const auto ms = [](long long v) { return v == FOR_EVER ? std::string("for ever") : v == BIG_BANG ? std::string("the beginning") : std::to_string(v / 1000) + "us"; };
        switch (a.kind)
        {
        case ASYNC: return "async(" + task() + ")";
        case SYNC: return "sync(" + task() + ")";
        case AT: return "at(" + ms(a.value) + ", " + task() + ")";
        case AFTER: return "after(" + ms(a.value) + ", " + task() + ")";
        case TARGET: return "target(" + std::to_string(a.value) + ")";
        case ON_STOP: return a.value ? "on_stop(complete)" : "on_stop(join)";
        case WAIT_NONE: return "wait_none";
        case WAIT_ALL: return "wait_all";
        case READ: return counter_name(static_cast<int>(a.value));
        case POINT: return ".";
        case SLEEP: return "sleep(" + ms(a.value) + ")";
        case QUIESCE: return "quiesce";
        default: return "open(" + std::to_string(a.value) + ")";
        }
    }

    // ---- generators
    inline int draw_priority(pbt::Case& c)
    {
        static const int named[] = { 0, 32, -32, 64, -64, 127, -128 };
        switch (c.draw(4))
        {
        case 0: return 0;
        case 1: return c.pick(named);
        case 2: return static_cast<int>(c.draw(3)) - 1;
        default: return static_cast<int>(c.draw(256)) - 128;
        }
    }
    inline int new_task(pbt::Case& c, World& w, int max_points = 3)
    {
        TaskPlan p;
        p.priority = draw_priority(c);
        p.form = static_cast<int>(c.draw(3));
        p.points = static_cast<int>(c.draw(static_cast<std::uint64_t>(max_points) + 1));
        w.plans.push_back(p);
        return static_cast<int>(w.plans.size()) - 1;
    }
    // ---- many tasks from a few draws
    inline std::uint64_t mix(std::uint64_t x)
    {
        x += 0x9e3779b97f4a7c15ull;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }
    struct Pattern
    {
        int mode;
        std::vector<int> palette;
        std::uint64_t seed;
        int at(std::size_t i) const
        {
            switch (mode)
            {
            case 0: return palette[0];
            case 1: return palette[i % palette.size()];
            case 2: return palette[mix(seed + i) % palette.size()];
            case 3: return static_cast<int>((i * (1 + seed % 7)) % 256) - 128;
            case 4: return 127 - static_cast<int>((i * (1 + seed % 7)) % 256);
            default: return static_cast<int>(mix(seed + i) % 256) - 128;
            }
        }
    };
    inline Pattern draw_pattern(pbt::Case& c)
    {
        Pattern p;
        p.mode = static_cast<int>(c.draw(6));
        for (std::size_t k = 1 + c.draw(5); k > 0; --k) p.palette.push_back(draw_priority(c));
        p.seed = c.draw(1000);
        return p;
    }
    inline std::string text(const Pattern& p)
    {
        static const char* const n[] = { "all of priority", "of priorities, in turn,", "of priorities, mixed,", "of rising priorities", "of falling priorities", "of all priorities, mixed" };
        std::string r = n[p.mode];
        if (p.mode == 0) r += " " + std::to_string(p.palette[0]);
        else if (p.mode < 3) for (int v : p.palette) r += " " + std::to_string(v);
        return r + " (" + std::to_string(p.seed) + ")";
    }
    inline int plain_task(World& w, int priority, int points = 0, int form = 0)
    {
        TaskPlan p;
        p.priority = priority;
        p.points = points;
        p.form = form;
        w.plans.push_back(p);
        return static_cast<int>(w.plans.size()) - 1;
    }
    inline void describe_history(pbt::Case& c, const World& w)
    {
        if (!c.verbose()) return;
        c.out() << "\nhistory:";
        for (std::size_t i = 0; i < w.recs.size(); ++i)
        {
            const Rec& r = w.recs[i];
            const auto st = [](Stamp s) { return s == NEVER ? std::string("-") : std::to_string(s); };
            c.out() << "\n  task " << i << " prio " << r.priority << " submitted [" << st(r.call) << ".." << st(r.ret) << "] ran [" << st(r.start) << ".." << st(r.end) << "] on thread " << r.thread;
            if (r.kind == AT || r.kind == AFTER) c.out() << " due " << (r.due == FOR_EVER ? -1 : r.due == BIG_BANG ? -2 : r.due - vs::START) << " started at " << (r.start == NEVER ? -1 : r.start_time - vs::START);
        }
        for (auto& x : w.waits) c.out() << "\n  " << (x.kind == WAIT_NONE ? "wait_none" : "wait_all") << " by thread " << x.thread << " [" << x.call << ".." << (x.ret == NEVER ? std::string("-") : std::to_string(x.ret)) << "]";
    }
}
