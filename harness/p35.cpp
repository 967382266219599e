// P35: unwritable files delay messages but do not lose or leak them.
#include "logs.hpp"
#include <sys/stat.h>
using namespace log_test;

namespace
{
    std::set<std::string> denied, pinned;
    bool is_denied(const char* p) { return denied.count(p) != 0; }
    bool is_pinned(const char* p) { return pinned.count(p) != 0; }

    enum Trouble { NONE, DENIED, DIRECTORY, NO_PARENT, PARENT_GONE, PINNED };
    const char* const names[] = { "fine", "permission denied", "a directory in its place", "parent directory missing or a file", "parent directory deleted", "cannot be renamed" };
    struct State
    {
        Trouble trouble{ NONE };
        std::vector<std::string> gone;  // where deleted directories went
        bool away{ false };             // there is something to put back
        int pin{ 0 };                   // which of the rotated files cannot be renamed
    };
    struct Disk
    {
        World& w;
        bool dirs;                      // the logger creates directories
        bool rotation;
        std::vector<State> states;
        std::string parent(int f) const { return fs::path(w.path(f)).parent_path().string(); }
        static std::string numbered(const std::string& p, int i)
        {
            const fs::path q(p);
            return i ? (q.parent_path() / q.stem()).string() + "_" + std::to_string(i) + q.extension().string() : p;
        }
        void break_it(int f, Trouble t)
        {
            vs::Quiet q;
            State& s = states[static_cast<std::size_t>(f)];
            const std::string p = w.path(f), d = parent(f);
            switch (t)
            {
            case DENIED: denied.insert(p); break;
            case PINNED: pinned.insert(numbered(p, s.pin)); break;
            case DIRECTORY:
                if (!fs::exists(d)) { denied.insert(p); t = DENIED; break; }
                s.away = fs::exists(p);
                if (s.away) fs::rename(p, p + ".away");
                fs::create_directory(p);
                break;
            case NO_PARENT:
                s.away = fs::exists(d);
                if (s.away) fs::rename(d, d + ".away");
                if (dirs) { fs::create_directories(fs::path(d).parent_path()); FILE* o = std::fopen(d.c_str(), "wb"); std::fclose(o); }
                break;
            case PARENT_GONE: // not a trouble: the logger makes it again
                if (fs::exists(d)) { s.gone.push_back(d + ".gone" + std::to_string(s.gone.size())); fs::rename(d, s.gone.back()); }
                t = NONE;
                break;
            default: break;
            }
            s.trouble = t;
        }
        void mend(int f)
        {
            vs::Quiet q;
            State& s = states[static_cast<std::size_t>(f)];
            const std::string p = w.path(f), d = parent(f);
            switch (s.trouble)
            {
            case DENIED: denied.erase(p); break;
            case PINNED: pinned.erase(numbered(p, s.pin)); break;
            case DIRECTORY: fs::remove(p); if (s.away) fs::rename(p + ".away", p); break;
            case NO_PARENT:
                if (dirs) fs::remove(d);
                if (s.away) fs::rename(d + ".away", d); else fs::create_directories(d);
                break;
            default: break;
            }
            s.trouble = NONE;
        }
        // the file's whole content, wherever it is now
        std::string content(int f) const
        {
            const State& s = states[static_cast<std::size_t>(f)];
            const std::string p = w.path(f), file = fs::path(p).filename().string();
            std::string all;
            for (auto& g : s.gone) all += chain_text(g + "/" + file, rotation);
            if (s.trouble == DIRECTORY) return all + slurp(p + ".away");
            if (s.trouble == NO_PARENT) return all + chain_text(parent(f) + ".away/" + file, rotation);
            return all + chain_text(p, rotation);
        }
        Content parsed(int f) const { return parse(w, f, content(f), true, !w.destroyed); }
    };
    // messages of f that are logged and must be written by now but are not
    std::size_t missing(const World& w, int f, const Content& got)
    {
        std::size_t n = 0;
        for (std::size_t i = 0; i < w.plans.size(); ++i) n += w.plans[i].file == f && w.recs[i].ret != NEVER;
        return n - std::min(n, got.ids.size());
    }
}

PROP(outages, .quick = 60000)
{
    World w;
    w.root = std::string(pbt::scratch_dir()) + "/logs";
    const std::size_t nfiles = 1 + c.draw(3);
    for (std::size_t f = 0; f < nfiles; ++f)
    {
        static const char* const rest[] = { "/f.log", "/noext", "/deep/f.log", "/v1.2/.x" };
        FileSpec s{ "d" + std::to_string(f) + rest[c.draw(4)], "", false };
        if (c.draw(3) == 0) { s.exists = true; s.before = c.draw(2) ? "old\n" : ""; }
        if (c.draw(3) == 0) s.name = w.root + "/" + s.name;
        w.files.push_back(s);
    }
    const bool dirs = c.draw(3) != 0, header = c.draw(4) == 0;
    const long long flush = c.draw(3) ? 1 : 1 + static_cast<long long>(c.draw(3));
    // a failure may then come between the messages of one batch
    const long long rotation = c.draw(3) == 0 ? 1 + static_cast<long long>(c.draw(40)) : 0;
    struct Change { int file; Trouble trouble; };
    struct Step { std::vector<Change> changes; std::vector<std::vector<Action>> scripts; std::vector<Change> during; };
    std::vector<Step> steps(1 + c.draw(5));
    const auto draw_changes = [&](std::vector<Change>& v)
    {
        for (std::size_t f = 0; f < nfiles; ++f)
            if (c.draw(3) == 0) v.push_back(Change{ static_cast<int>(f), static_cast<Trouble>(c.weighted({ 3, 1.5, 1, 1, dirs ? 0.7 : 0, rotation ? 2.0 : 0 })) });
        // a rotation would move the directory away
        if (rotation) for (auto& x : v) if (x.trouble == DIRECTORY) x.trouble = DENIED;
    };
    for (auto& st : steps)
    {
        draw_changes(st.changes);
        st.scripts.resize(1 + (c.draw(3) == 0));
        for (auto& s : st.scripts) for (std::size_t k = c.length(6); k > 0; --k) s.push_back(c.draw(6) ? draw_log(c, w) : Action{ SLEEP, static_cast<long long>(c.draw(20)) * 1000 });
        if (c.draw(4) == 0) draw_changes(st.during);
    }
    // troubles that begin while the writer is at its n-th message
    struct Sudden { int at; Change change; };
    std::vector<Sudden> sudden;
    if (c.draw(2))
        for (std::size_t k = 1 + c.draw(3); k > 0; --k)
            sudden.push_back(Sudden{ 1 + static_cast<int>(c.draw(12)), Change{ static_cast<int>(c.draw(nfiles)), rotation && c.draw(2) ? PINNED : DENIED } });
    std::vector<int> pins(nfiles, 0);
    if (rotation) for (auto& p : pins) p = static_cast<int>(c.weighted({ 3, 1, 1 }));
    const bool mended = c.draw(4) != 0;
    {
        std::vector<std::vector<Action>> all;
        for (auto& st : steps)
        {
            for (auto& s : st.scripts) all.push_back(s);
        }
        note(c, w, all);
        NOTE((dirs ? "; directories are created" : "; directories are not created") << ", flush size " << flush);
        if (rotation) { NOTE(", rotation size " << rotation); for (auto p : pins) NOTE(", renames fail at _" << p); }
        for (auto& x : sudden) NOTE("; at the " << x.at << ". message written " << w.files[static_cast<std::size_t>(x.change.file)].name << ": " << names[x.change.trouble]);
        int n = 0;
        for (auto& st : steps) { ++n; for (auto& x : st.changes) NOTE("; before step " << n << " " << w.files[static_cast<std::size_t>(x.file)].name << ": " << names[x.trouble]); for (auto& x : st.during) NOTE("; during step " << n << " " << w.files[static_cast<std::size_t>(x.file)].name << ": " << names[x.trouble]); }
        NOTE((mended ? "; all mended" : "; destroyed as it is"));
    }
    w.prepare();
    denied.clear();
    pinned.clear();
    Disk disk{ w, dirs, rotation != 0, std::vector<State>(nfiles) };
    for (std::size_t f = 0; f < nfiles; ++f) disk.states[f].pin = pins[f];
    if (!dirs) for (std::size_t f = 0; f < nfiles; ++f) fs::create_directories(disk.parent(static_cast<int>(f)));
    std::size_t outage_with_messages = 0, kept = 0;
    vs::Config config;
    config.steps = 1500000;
    config.jumps = false;
    vs::run(c, config, [&]
    {
        vs::file_faults(is_denied, is_pinned);
        w.create(header, dirs);
        w.act(Action{ FLUSH, flush });
        if (rotation) { w.act(Action{ ROTATION, rotation }); w.act(Action{ LIMIT, 1000 }); }
        int written = 0;
        w.at_write = [&]
        {
            ++written;
            for (auto& x : sudden)
                if (x.at == written && disk.states[static_cast<std::size_t>(x.change.file)].trouble == NONE) disk.break_it(x.change.file, x.change.trouble);
        };
        const auto apply = [&](const std::vector<Change>& v)
        {
            for (auto& x : v)
            {
                disk.mend(x.file);
                if (x.trouble != NONE) disk.break_it(x.file, x.trouble);
            }
        };
        // lets the writer work until every available file has all it should have
        const auto settle = [&](const char* when)
        {
            for (int round = 0; ; ++round)
            {
                bool done = true;
                for (std::size_t f = 0; f < nfiles; ++f)
                {
                    vs::Quiet q;
                    const int n = static_cast<int>(f);
                    const std::size_t m = missing(w, n, disk.parsed(n));
                    if (disk.states[f].trouble != NONE) { outage_with_messages += m > 0; continue; }
                    if (static_cast<long long>(m) < flush) continue;
                    done = false;
                    if (round >= 80)
                    {
                        describe_history(c, w);
                        CHECK("not written", false, when << " " << m << " messages to " << w.files[f].name << " are still not written although the file can be opened");
                    }
                }
                if (done) return;
                // a writer that sleeps between its attempts gets a minute
                if (vs::others_blocked()) vs::sleep_until(vs::now() + 1000 * MS);
                else vs::sleep_until(vs::now() + 40000);
            }
        };
        int number = 0;
        for (auto& st : steps)
        {
            ++number;
            apply(st.changes);
            std::vector<std::thread> threads;
            for (std::size_t t = 1; t < st.scripts.size(); ++t) threads.emplace_back([&, t] { w.script(st.scripts[t]); });
            const std::size_t half = st.scripts[0].size() / 2;
            for (std::size_t k = 0; k < st.scripts[0].size(); ++k)
            {
                if (k == half) apply(st.during);
                w.act(st.scripts[0][k]);
            }
            for (auto& t : threads) t.join();
            settle(("after step " + std::to_string(number)).c_str());
        }
        if (mended)
        {
            for (std::size_t f = 0; f < nfiles; ++f) { kept += disk.states[f].trouble != NONE; disk.mend(static_cast<int>(f)); }
            settle("after all is mended");
        }
        w.destroy();
        vs::file_faults(nullptr);
    });
    for (std::size_t f = 0; f < nfiles; ++f)
    {
        const int n = static_cast<int>(f);
        check_file(c, w, n, disk.parsed(n), disk.states[f].trouble == NONE ? ALL : SOME);
    }
    c.nontrivial(outage_with_messages > 0);
    if (nfiles > 1 && outage_with_messages) c.label("with other files");
    if (kept && mended) c.label("mended in the end");
}

int main(int c, char** v) { return pbt::main(c, v, "P35", "messages were logged to a file while it could not be opened"); }
