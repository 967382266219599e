// P34: the logger always makes progress and never races or hangs.
#include "logs.hpp"
using namespace log_test;

namespace
{
    // everything is at rest: no file has as many messages in memory as are written without further calls
    void check_flushed(pbt::Case& c, const World& w, const char* when, bool rotated)
    {
        const Stamp now = [] { vs::Quiet q; return vs::stamp(); }();
        std::vector<std::size_t> on_disk(w.files.size());
        for (std::size_t f = 0; f < w.files.size(); ++f) on_disk[f] = parse(w, static_cast<int>(f), chain_text(w, static_cast<int>(f), rotated), rotated).ids.size();
        vs::Quiet q;
        const auto sizes = w.register_values(FLUSH, now, now);
        for (std::size_t f = 0; f < w.files.size(); ++f)
        {
            std::size_t sure = 0;
            for (std::size_t i = 0; i < w.plans.size(); ++i) sure += w.plans[i].file == static_cast<int>(f) && w.accepted(static_cast<int>(i)) == 1 && w.recs[i].ret != NEVER;
            if (sure <= on_disk[f]) continue;
            const std::size_t pending = sure - on_disk[f];
            if (static_cast<long long>(pending) < *sizes.rbegin()) continue;
            describe_history(c, w);
            CHECK("not flushed", false, when << " nothing moves, and " << pending << " messages to " << w.files[f].name << " are in memory although the flush size is " << *sizes.rbegin());
        }
    }
}

PROP(flushing, .quick = 70000)
{
    World w;
    w.root = std::string(pbt::scratch_dir()) + "/logs";
    w.files = draw_files(c, 3);
    struct Step { std::vector<std::vector<Action>> scripts; };
    std::vector<Step> steps(1 + c.draw(4));
    for (auto& st : steps)
    {
        st.scripts.resize(1 + (c.draw(2) ? c.draw(3) : 0));
        for (auto& s : st.scripts)
            for (std::size_t k = c.length(6); k > 0; --k)
                switch (c.weighted({ 8, 2, 0.7 }))
                {
                case 0: s.push_back(draw_log(c, w)); if (c.draw(4)) w.plans.back().payload.clear(); break;
                case 1: s.push_back(Action{ FLUSH, static_cast<long long>(c.draw(8)) }); break;
                default: s.push_back(Action{ SLEEP, static_cast<long long>(c.draw(3)) * MS }); break;
                }
    }
    std::vector<std::vector<Action>> all;
    for (auto& st : steps) for (auto& s : st.scripts) all.push_back(s);
    note(c, w, all);
    w.prepare();
    bool lowered = false;
    vs::run(c, [&]
    {
        w.create(false, true);
        int n = 0;
        for (auto& st : steps)
        {
            std::vector<std::thread> threads;
            for (std::size_t t = 1; t < st.scripts.size(); ++t) threads.emplace_back([&, t] { w.script(st.scripts[t]); });
            w.script(st.scripts[0]);
            for (auto& t : threads) t.join();
            vs::quiesce();
            check_flushed(c, w, ("after step " + std::to_string(++n)).c_str(), false);
        }
        w.destroy();
    });
    for (std::size_t f = 0; f < w.files.size(); ++f) check_file(c, w, static_cast<int>(f), parse(w, static_cast<int>(f), chain_text(w, static_cast<int>(f), false), false), ALL);
    for (auto& s : w.sets) lowered |= s.kind == FLUSH && s.value > 1;
    c.nontrivial(w.plans.size() >= 2 && lowered);
}

// all members from all threads at once
PROP(chaos, .quick = 70000)
{
    World w;
    w.root = std::string(pbt::scratch_dir()) + "/logs";
    w.files = draw_files(c, 3);
    for (auto& f : w.files) { f.exists = false; f.before.clear(); }
    std::vector<std::vector<Action>> scripts(2 + c.draw(3));
    for (auto& s : scripts)
        for (std::size_t k = c.length(9); k > 0; --k)
            switch (c.weighted({ 8, 1.5, 0.7, 0.7, 1, 0.7, 0.7, 1, 1, 0.7, 2, 0.7 }))
            {
            case 0: s.push_back(draw_log(c, w, true)); break;
            case 1: s.push_back(Action{ FLUSH, static_cast<long long>(c.draw(6)) }); break;
            case 2: s.push_back(Action{ RESET }); break;
            case 3: s.push_back(Action{ DISCARDED }); break;
            case 4: s.push_back(Action{ LEVEL, static_cast<long long>(c.draw(10)) }); break;
            case 5: s.push_back(Action{ DIRS, 1 }); break;
            case 6: s.push_back(Action{ HEADER, static_cast<long long>(c.draw(2)) }); break;
            case 7: s.push_back(Action{ LOG_WRITER }); break;
            case 8: s.push_back(Action{ HEADER_WRITER }); break;
            case 9: s.push_back(Action{ ROTATION, static_cast<long long>(c.draw(60)) }); break;
            case 10: s.push_back(Action{ GETTERS, static_cast<long long>(c.draw(10)) }); break;
            default: s.push_back(Action{ LIMIT, 900 + static_cast<long long>(c.draw(100)) }); break;
            }
    const bool rest = c.draw(2);
    note(c, w, scripts);
    w.prepare();
    vs::run(c, [&]
    {
        w.create(c.draw(2) != 0, true);
        w.act(Action{ LIMIT, 1000 });
        std::vector<std::thread> threads;
        for (std::size_t t = 1; t < scripts.size(); ++t) threads.emplace_back([&, t] { w.script(scripts[t]); });
        w.script(scripts[0]);
        for (auto& t : threads) t.join();
        if (rest) { vs::quiesce(); check_flushed(c, w, "at the end", true); }
        w.destroy();
    });
    for (std::size_t f = 0; f < w.files.size(); ++f) check_file(c, w, static_cast<int>(f), parse(w, static_cast<int>(f), chain_text(w, static_cast<int>(f), true), true), ALL);
    std::set<int> setters;
    for (auto& s : w.sets) if (s.call) setters.insert(s.kind);
    c.nontrivial(w.plans.size() >= 2 && setters.size() >= 2);
}

// the writers use their logger themselves
PROP(reentrant, .quick = 40000)
{
    World w;
    w.root = std::string(pbt::scratch_dir()) + "/logs";
    w.files = draw_files(c, 3);
    for (auto& f : w.files) { f.exists = false; f.before.clear(); }
    const auto draw_action = [&](double logs)
    {
        switch (c.weighted({ logs, 1, 0.5, 0.5, 0.5, 0.5, 0.5, 1, 1, 0.5, 1 }))
        {
        case 0: return draw_log(c, w);
        case 1: return Action{ FLUSH, static_cast<long long>(c.draw(4)) };
        case 2: return Action{ RESET };
        case 3: return Action{ DISCARDED };
        case 4: return Action{ LEVEL, static_cast<long long>(c.draw(5)) };
        case 5: return Action{ DIRS, 1 };
        case 6: return Action{ HEADER, static_cast<long long>(c.draw(2)) };
        case 7: return Action{ LOG_WRITER };
        case 8: return Action{ HEADER_WRITER };
        case 9: return Action{ ROTATION, static_cast<long long>(c.draw(60)) };
        default: return Action{ GETTERS, static_cast<long long>(c.draw(10)) };
        }
    };
    std::vector<std::vector<Action>> scripts(1 + c.draw(3));
    for (auto& s : scripts) for (std::size_t k = c.length(6); k > 0; --k) s.push_back(draw_action(10));
    for (std::size_t k = 1 + c.length(8); k > 0; --k) w.nested.push_back(draw_action(4));
    if (c.draw(2)) for (std::size_t k = 1 + c.length(4); k > 0; --k) w.cleanup.push_back(draw_action(3));
    const bool header = c.draw(2) != 0, rest = c.draw(3) != 0;
    const long long flush = 1 + static_cast<long long>(c.draw(c.draw(2) ? 1 : 4));
    note(c, w, scripts);
    NOTE("; inside the writers [" << text(w, std::vector<Action>(w.nested.begin(), w.nested.end())) << "]; while their captured state is destroyed [" << text(w, std::vector<Action>(w.cleanup.begin(), w.cleanup.end())) << "]; flush size " << flush << (header ? ", with header" : "") << (rest ? ", destroyed at rest" : ", destroyed at once"));
    const std::size_t planned = w.nested.size() + w.cleanup.size();
    bool cleanup = !w.cleanup.empty();
    w.prepare();
    vs::run(c, [&]
    {
        w.create(header, true);
        w.act(Action{ LIMIT, 1000 });
        w.act(Action{ FLUSH, flush });
        std::vector<std::thread> threads;
        for (std::size_t t = 1; t < scripts.size(); ++t) threads.emplace_back([&, t] { w.script(scripts[t]); });
        w.script(scripts[0]);
        for (auto& t : threads) t.join();
        if (rest) { vs::quiesce(); check_flushed(c, w, "at the end", true); }
        w.destroy();
    });
    // what the writers logged while the logger was being destroyed may have been refused
    std::set<int> late;
    for (std::size_t i = 0; i < w.recs.size(); ++i) if (w.recs[i].ret != NEVER && w.recs[i].ret > w.destroy_call) late.insert(static_cast<int>(i));
    for (std::size_t f = 0; f < w.files.size(); ++f) check_file(c, w, static_cast<int>(f), parse(w, static_cast<int>(f), chain_text(w, static_cast<int>(f), true), true), ALL, &late);
    const std::size_t done = planned - w.nested.size() - (cleanup ? w.cleanup.size() : 0);
    c.nontrivial(done > 0);
    if (done > 3) c.label("more than three calls inside the writers");
}

// many files and messages, larger flush sizes
PROP(crowd, .quick = 5000)
{
    World w;
    w.root = std::string(pbt::scratch_dir()) + "/logs";
    const Crowd crowd = draw_crowd(c, w, 40, 400);
    std::vector<long long> flushes(1 + c.draw(4));
    for (auto& f : flushes) f = static_cast<long long>(c.large(300));
    NOTE("; flush sizes");
    for (auto f : flushes) NOTE(" " << f);
    w.prepare();
    vs::Config config;
    config.steps = 3000000;
    vs::run(c, config, [&]
    {
        w.create(false, true);
        for (std::size_t k = 0; k < flushes.size(); ++k)
        {
            w.act(Action{ FLUSH, flushes[k] });
            std::vector<std::thread> threads;
            const auto part = [&, k](std::size_t t) { const auto& s = crowd.scripts[t]; for (std::size_t i = k * s.size() / flushes.size(); i < (k + 1) * s.size() / flushes.size(); ++i) w.act(s[i]); };
            for (std::size_t t = 1; t < crowd.nthreads; ++t) threads.emplace_back([&, t] { part(t); });
            part(0);
            for (auto& t : threads) t.join();
            vs::quiesce();
            check_flushed(c, w, ("after step " + std::to_string(k + 1)).c_str(), false);
        }
        w.destroy();
    });
    for (std::size_t f = 0; f < w.files.size(); ++f) check_file(c, w, static_cast<int>(f), parse(w, static_cast<int>(f), chain_text(w, static_cast<int>(f), false), false), ALL);
    c.nontrivial(w.plans.size() >= 30);
    if (w.plans.size() > 200) c.label("more than 200 messages");
}

int main(int c, char** v) { return pbt::main(c, v, "P34", "at least two messages; flushing: a flush size above 1 was set; chaos: at least two kinds of setters were used; reentrant: a writer called its logger; crowd: at least 30 messages"); }
