// P29: every accepted message reaches its file exactly once and in order.
#include "logs.hpp"
using namespace log_test;

PROP(delivered, .quick = 100000)
{
    World w;
    w.root = std::string(pbt::scratch_dir()) + "/logs";
    w.files = draw_files(c, 3);
    const bool header = c.draw(3) == 0, rotate = c.draw(4) == 0;
    const long long rotation = rotate ? 1 + static_cast<long long>(c.draw(c.draw(2) ? 30 : 400)) : 0;
    const std::size_t flush = c.draw(2) ? 1 : c.draw(6);
    std::vector<std::vector<Action>> scripts(1 + c.draw(4));
    for (auto& s : scripts)
        for (std::size_t k = c.length(8); k > 0; --k)
            switch (c.weighted({ 12, 1, 1, 0.7 }))
            {
            case 0: s.push_back(draw_log(c, w)); break;
            case 1: s.push_back(Action{ POINT }); break;
            case 2: s.push_back(Action{ SLEEP, static_cast<long long>(c.draw(3)) * MS }); break;
            default: s.push_back(Action{ FLUSH, static_cast<long long>(c.draw(6)) }); break;
            }
    const bool rest = c.draw(2);
    note(c, w, scripts);
    NOTE("; flush size " << flush << (header ? ", with header" : "") << (rotate ? ", rotation at " + std::to_string(rotation) : "") << (rest ? ", destroyed at rest" : ", destroyed at once"));
    if (rotate) for (auto& f : w.files) f.exists = false, f.before.clear();
    w.prepare();
    std::size_t concurrent = 0;
    vs::run(c, [&]
    {
        w.create(header, true);
        w.act(Action{ FLUSH, static_cast<long long>(flush) });
        if (rotate) { w.act(Action{ LIMIT, 1000 }); w.act(Action{ ROTATION, rotation }); }
        std::vector<std::thread> threads;
        for (std::size_t t = 1; t < scripts.size(); ++t) threads.emplace_back([&, t] { w.script(scripts[t]); });
        w.script(scripts[0]);
        for (auto& t : threads) t.join();
        if (rest) vs::quiesce();
        w.destroy();
    });
    for (std::size_t f = 0; f < w.files.size(); ++f)
    {
        const int n = static_cast<int>(f);
        check_file(c, w, n, parse(w, n, chain_text(w, n, rotate), rotate && header), ALL);
    }
    // and nothing else has appeared
    std::size_t unexpected = 0;
    for (auto& e : fs::recursive_directory_iterator(w.root))
    {
        if (e.is_directory()) continue;
        bool known = rotate;
        for (std::size_t f = 0; f < w.files.size(); ++f) known |= e.path().string() == w.path(static_cast<int>(f));
        unexpected += !known;
    }
    CHECK("other files", unexpected == 0, unexpected << " files have appeared that nobody logged to");
    for (auto& a : w.recs) for (auto& b : w.recs) concurrent += a.thread != b.thread && a.call < b.call && b.call < a.handed;
    c.nontrivial(w.plans.size() >= 2 && concurrent > 0);
    if (rotate) c.label("with rotation");
}

// hundreds of messages, dozens of files
PROP(crowd, .quick = 6000)
{
    World w;
    w.root = std::string(pbt::scratch_dir()) + "/logs";
    const Crowd crowd = draw_crowd(c, w, 40, 500);
    const bool header = c.draw(3) == 0, rotate = c.draw(4) == 0, rest = c.draw(2);
    const long long rotation = rotate ? 1 + static_cast<long long>(c.draw(400)) : 0;
    const std::size_t flush = c.draw(2) ? 1 : c.large(200);
    NOTE("; flush size " << flush << (header ? ", with header" : "") << (rotate ? ", rotation at " + std::to_string(rotation) : "") << (rest ? ", destroyed at rest" : ", destroyed at once"));
    w.prepare();
    vs::Config config;
    config.steps = 3000000;
    vs::run(c, config, [&]
    {
        w.create(header, true);
        w.act(Action{ FLUSH, static_cast<long long>(flush) });
        if (rotate) { w.act(Action{ LIMIT, 1000 }); w.act(Action{ ROTATION, rotation }); }
        std::vector<std::thread> threads;
        for (std::size_t t = 1; t < crowd.nthreads; ++t) threads.emplace_back([&, t] { w.script(crowd.scripts[t]); });
        w.script(crowd.scripts[0]);
        for (auto& t : threads) t.join();
        if (rest) vs::quiesce();
        w.destroy();
    });
    for (std::size_t f = 0; f < w.files.size(); ++f)
    {
        const int n = static_cast<int>(f);
        check_file(c, w, n, parse(w, n, chain_text(w, n, rotate), rotate && header), ALL);
    }
    std::size_t unexpected = 0;
    for (auto& e : fs::recursive_directory_iterator(w.root))
    {
        if (e.is_directory()) continue;
        bool known = rotate;
        for (std::size_t f = 0; f < w.files.size() && !known; ++f) known |= e.path().string() == w.path(static_cast<int>(f));
        unexpected += !known;
    }
    CHECK("other files", unexpected == 0, unexpected << " files have appeared that nobody logged to");
    c.nontrivial(w.plans.size() >= 30);
    if (w.plans.size() > 200) c.label("more than 200 messages");
    if (crowd.nfiles > 16) c.label("more than 16 files");
}

int main(int c, char** v) { return pbt::main(c, v, "P29", "messages of at least two threads overlapped: one was logged before another thread's was handed to the writer; crowd: at least 30 messages"); }
