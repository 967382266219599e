// P33: a bounded log buffer never overflows and accounts for every message.
#include "logs.hpp"
using namespace log_test;

namespace
{
    // what is known about message i being in memory
    bool surely_waiting(const World& w, std::size_t i, const std::set<int>& dropped, Stamp lo, Stamp hi) // accepted and not handed over, all through [lo, hi]
    {
        const Rec& r = w.recs[i];
        return r.ret < lo && !dropped.count(static_cast<int>(i)) && r.handed > hi;
    }
    bool maybe_in_memory(const World& w, std::size_t i, const std::set<int>& dropped, Stamp lo, Stamp hi)
    {
        const Rec& r = w.recs[i];
        return r.call < hi && !dropped.count(static_cast<int>(i)) && r.erased > lo;
    }
    void check_history(pbt::Case& c, World& w, std::size_t& ndropped)
    {
        std::set<int> dropped;
        for (std::size_t f = 0; f < w.files.size(); ++f)
        {
            const int n = static_cast<int>(f);
            const Content got = parse(w, n, chain_text(w, n, false), false);
            const std::set<int> there(got.ids.begin(), got.ids.end());
            for (std::size_t i = 0; i < w.recs.size(); ++i) if (w.plans[i].file == n && w.recs[i].call != NEVER && !there.count(static_cast<int>(i))) dropped.insert(static_cast<int>(i));
            check_file(c, w, n, got, SOME);
        }
        for (std::size_t i = 0; i < w.recs.size(); ++i)
        {
            const Rec& r = w.recs[i];
            if (r.call == NEVER) continue;
            const auto limits = w.register_values(MAX, r.call, r.ret);
            std::size_t waiting = 0, memory = 0;
            for (std::size_t k = 0; k < w.recs.size(); ++k)
            {
                if (k == i || w.plans[k].file != w.plans[i].file) continue;
                waiting += surely_waiting(w, k, dropped, r.call, r.ret);
                memory += maybe_in_memory(w, k, dropped, r.call, r.ret);
            }
            if (dropped.count(static_cast<int>(i)))
            {
                // some limit that may have been in force was reached
                const bool may = std::any_of(limits.begin(), limits.end(), [&](long long m) { return m != 0 && static_cast<long long>(memory) >= m; });
                if (may) continue;
                describe_history(c, w);
                CHECK("dropped", false, "message " << i << " was dropped although at most " << memory << " messages to its file were in memory");
            }
            else
            {
                const bool may = std::any_of(limits.begin(), limits.end(), [&](long long m) { return m == 0 || static_cast<long long>(waiting) < m; });
                if (may) continue;
                describe_history(c, w);
                CHECK("overflow", false, "message " << i << " was accepted although " << waiting << " messages to its file were waiting already, limit " << *limits.rbegin());
            }
        }
        // the counter
        for (auto& x : w.reads)
        {
            std::size_t lo = 0, hi = 0;
            Stamp sure = 0, last_possible = 0; // the last reset that certainly preceded; drops before it do not count
            for (auto& s : w.sets) if (s.kind == RESET && s.ret < x.call) sure = std::max(sure, s.call);
            for (auto& s : w.sets) if (s.kind == RESET && s.call < x.ret) last_possible = std::max(last_possible, s.ret);
            for (int d : dropped)
            {
                const Rec& r = w.recs[static_cast<std::size_t>(d)];
                lo += r.ret < x.call && r.call > last_possible;
                hi += r.call < x.ret && r.ret > sure;
            }
            if (lo <= x.value && x.value <= hi) continue;
            describe_history(c, w);
            CHECK("counter", false, "num_discarded_logs() [" << x.call << ".." << x.ret << "] is " << x.value << ", it must have been between " << lo << " and " << hi);
        }
        ndropped = dropped.size();
    }
}

PROP(histories, .quick = 80000)
{
    World w;
    w.root = std::string(pbt::scratch_dir()) + "/logs";
    w.files = draw_files(c, 4);
    std::vector<std::vector<Action>> scripts(1 + c.draw(4));
    const long long limit = c.draw(8) ? 1 + static_cast<long long>(c.draw(4)) : 0;
    const long long flush = static_cast<long long>(c.draw(6));
    const std::size_t limits = c.draw(3); // how often the limit changes
    const bool levels = c.draw(6) == 0;
    for (auto& s : scripts)
        for (std::size_t k = c.length(10); k > 0; --k)
            switch (c.weighted({ 12, 1, 1, limits ? 1.0 : 0, 1, 1, 0.6, 0.6 }))
            {
            case 0: s.push_back(draw_log(c, w)); w.plans.back().payload = std::string(c.draw(3), 'x'); break;
            case 1: s.push_back(Action{ FLUSH, static_cast<long long>(c.draw(6)) }); break;
            case 2: s.push_back(Action{ DISCARDED }); break;
            case 3: s.push_back(Action{ MAX, static_cast<long long>(c.draw(6)) }); break;
            case 4: s.push_back(Action{ RESET }); break;
            case 5: s.push_back(Action{ STALL }); break;
            case 6: s.push_back(Action{ GO_ON }); break;
            default: s.push_back(Action{ POINT }); break;
            }
    (void)levels;
    const bool rest = c.draw(2);
    note(c, w, scripts);
    NOTE("; limit " << limit << ", flush size " << flush << (rest ? ", then rest" : ""));
    w.prepare();
    std::size_t dropped = 0;
    vs::run(c, [&]
    {
        w.create(false, true);
        w.act(Action{ FLUSH, flush });
        w.act(Action{ MAX, limit });
        std::vector<std::thread> threads;
        for (std::size_t t = 1; t < scripts.size(); ++t) threads.emplace_back([&, t] { w.script(scripts[t]); });
        w.script(scripts[0]);
        for (auto& t : threads) t.join();
        w.act(Action{ DISCARDED });
        { vs::Quiet q; w.stalled = 0; }
        for (auto& s : w.stalls) s.open();
        if (rest) vs::quiesce();
        w.act(Action{ DISCARDED });
        w.destroy();
    });
    check_history(c, w, dropped);
    c.nontrivial(dropped > 0);
}

// a stalled writer: exactly as many messages as the limit allows are kept, the rest is dropped and counted
PROP(stalled, .quick = 30000)
{
    World w;
    w.root = std::string(pbt::scratch_dir()) + "/logs";
    w.files = draw_files(c, 4);
    const std::size_t limit = 1 + c.draw(6), nfiles = w.files.size();
    const bool flushes = c.draw(2); // the writer holds a first message of the first file, or has nothing to do
    std::vector<Action> script;
    std::size_t cap = limit;
    std::vector<std::size_t> fill(nfiles, 0);
    std::size_t drops = 0, total_drops = 0, kept = 0;
    std::vector<std::size_t> expected; // per DISCARDED
    std::set<int> dropped;
    if (flushes) { script.push_back(draw_log(c, w)); w.plans.back().file = 0; fill[0] = 1; script.push_back(Action{ QUIESCE }); ++kept; }
    for (std::size_t k = 2 + c.length(16); k > 0; --k)
        switch (c.weighted({ 10, 1.5, 0.7, 0.8 }))
        {
        case 0:
        {
            const Action a = draw_log(c, w);
            Msg& m = w.plans.back();
            m.payload.clear();
            script.push_back(a);
            std::size_t& n = fill[static_cast<std::size_t>(m.file)];
            if (cap == 0 || n < cap) { ++n; ++kept; }
            else { ++drops; ++total_drops; dropped.insert(static_cast<int>(a.value)); }
            break;
        }
        case 1: script.push_back(Action{ DISCARDED }); expected.push_back(drops); break;
        case 2: script.push_back(Action{ RESET }); drops = 0; break;
        default: cap = c.draw(8); script.push_back(Action{ MAX, static_cast<long long>(cap) }); break;
        }
    std::vector<std::vector<Action>> scripts{ script };
    note(c, w, scripts);
    NOTE("; limit " << limit << (flushes ? ", the writer is stalled by the first message" : ", flush size beyond reach"));
    w.prepare();
    vs::run(c, [&]
    {
        w.create(false, true);
        w.act(Action{ FLUSH, flushes ? 1 : 1000 });
        w.act(Action{ MAX, static_cast<long long>(limit) });
        if (flushes) w.act(Action{ STALL });
        w.script(script);
        w.act(Action{ DISCARDED });
        { vs::Quiet q; w.stalled = 0; }
        for (auto& s : w.stalls) s.open();
        w.destroy();
    });
    expected.push_back(drops);
    for (std::size_t k = 0; k < expected.size(); ++k)
        CHECK_EQ("counter", w.reads[k].value, expected[k], "num_discarded_logs(), reading number " << k + 1);
    for (std::size_t f = 0; f < nfiles; ++f)
    {
        const int n = static_cast<int>(f);
        const Content got = parse(w, n, chain_text(w, n, false), false);
        std::vector<int> want;
        for (std::size_t i = 0; i < w.plans.size(); ++i) if (w.plans[i].file == n && !dropped.count(static_cast<int>(i))) want.push_back(static_cast<int>(i));
        CHECK_EQ("kept", got.ids, want, "the messages in " << w.files[f].name);
    }
    c.nontrivial(total_drops > 0 && kept > 0);
}

// larger limits and many messages
PROP(crowd, .quick = 6000)
{
    World w;
    w.root = std::string(pbt::scratch_dir()) + "/logs";
    Crowd crowd = draw_crowd(c, w, 12, 300);
    const long long limit = 1 + static_cast<long long>(c.large(60)), flush = 1 + static_cast<long long>(c.draw(3) ? 0 : c.large(80));
    const std::size_t stall_every = c.draw(2) ? 0 : 1 + c.draw(60), read_every = 1 + c.draw(40), reset_every = c.draw(2) ? 0 : 1 + c.draw(100), change_every = c.draw(3) ? 0 : 5 + c.draw(60);
    for (std::size_t t = 0; t < crowd.nthreads; ++t)
    {
        std::vector<Action> s;
        for (std::size_t i = 0; i < crowd.scripts[t].size(); ++i)
        {
            s.push_back(crowd.scripts[t][i]);
            if (stall_every && i % stall_every == 0) s.push_back(Action{ i / stall_every % 2 ? GO_ON : STALL });
            if (i % read_every == read_every - 1) s.push_back(Action{ DISCARDED });
            if (reset_every && i % reset_every == reset_every - 1) s.push_back(Action{ RESET });
            if (change_every && t == 0 && i % change_every == change_every - 1) s.push_back(Action{ MAX, static_cast<long long>(mix(crowd.seed + i) % 40) });
        }
        crowd.scripts[t] = s;
    }
    for (auto& m : w.plans) m.payload.resize(std::min<std::size_t>(m.payload.size(), 5));
    NOTE("; limit " << limit << ", flush size " << flush << ", stalled every " << stall_every << ", counter read every " << read_every << ", reset every " << reset_every << ", limit changed every " << change_every);
    w.prepare();
    std::size_t dropped = 0;
    vs::Config config;
    config.steps = 3000000;
    vs::run(c, config, [&]
    {
        w.create(false, true);
        w.act(Action{ FLUSH, flush });
        w.act(Action{ MAX, limit });
        std::vector<std::thread> threads;
        for (std::size_t t = 1; t < crowd.nthreads; ++t) threads.emplace_back([&, t] { w.script(crowd.scripts[t]); });
        w.script(crowd.scripts[0]);
        for (auto& t : threads) t.join();
        { vs::Quiet q; w.stalled = 0; }
        for (auto& s : w.stalls) s.open();
        vs::quiesce();
        w.act(Action{ DISCARDED });
        w.destroy();
    });
    check_history(c, w, dropped);
    c.nontrivial(dropped > 0 && w.plans.size() - dropped > 10);
    if (dropped > 50) c.label("more than 50 messages dropped");
    if (limit > 16) c.label("limit above 16");
}

// exactly, with a stalled writer
PROP(stalled_crowd, .quick = 6000)
{
    World w;
    w.root = std::string(pbt::scratch_dir()) + "/logs";
    const std::size_t limit = 1 + c.large(300), nfiles = 1 + c.large(30), messages = 1 + c.large(500), shape = c.draw(3), seed = c.draw(1000);
    w.files = many_files(nfiles);
    std::vector<std::vector<int>> want(nfiles);
    std::size_t drops = 0;
    std::vector<Action> script;
    for (std::size_t i = 0; i < messages; ++i)
    {
        const std::size_t f = shape == 0 ? 0 : shape == 1 ? i % nfiles : mix(seed + i) % nfiles;
        script.push_back(plain_log(w, f, 0, 0));
        if (want[f].size() < limit) want[f].push_back(static_cast<int>(i)); else ++drops;
        if (i == 0) script.push_back(Action{ QUIESCE });
    }
    NOTE(messages << " messages to " << nfiles << " files, shape " << shape << " seed " << seed << ", limit " << limit << ", the writer is stalled by the first");
    w.prepare();
    vs::Config config;
    config.steps = 3000000;
    vs::run(c, config, [&]
    {
        w.create(false, true);
        w.act(Action{ MAX, static_cast<long long>(limit) });
        w.act(Action{ STALL });
        w.script(script);
        w.act(Action{ DISCARDED });
        { vs::Quiet q; w.stalled = 0; }
        for (auto& s : w.stalls) s.open();
        w.destroy();
    });
    CHECK_EQ("counter", w.reads[0].value, drops, "num_discarded_logs()");
    for (std::size_t f = 0; f < nfiles; ++f)
    {
        const int n = static_cast<int>(f);
        CHECK_EQ("kept", parse(w, n, chain_text(w, n, false), false).ids, want[f], "the messages in " << w.files[f].name);
    }
    c.nontrivial(drops > 0);
    if (limit > 50 && drops) c.label("limit above 50 reached");
}

int main(int c, char** v) { return pbt::main(c, v, "P33", "at least one message was dropped (stalled: and one was kept; crowd: and more than ten were)"); }
