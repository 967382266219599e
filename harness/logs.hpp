// Generated scenarios for loggers under the deterministic scheduler and the history they leave behind (P29, P33 to P35).
#pragma once
#include "pbt.hpp"
#include "vsched.hpp"
#include <algorithm>
#include <cstdio>
#include <deque>
#include <filesystem>
#include <fcntl.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
#include <pluto/logger.hpp>

namespace log_test
{
    namespace fs = std::filesystem;
    typedef std::uint64_t Stamp;
    constexpr Stamp NEVER = ~Stamp(0);
    constexpr long long MS = 1000000;

    enum Kind { LOG, FLUSH, MAX, RESET, DISCARDED, LEVEL, DIRS, HEADER, ROTATION, LIMIT, LOG_WRITER, HEADER_WRITER, GETTERS, POINT, SLEEP, STALL, GO_ON, QUIESCE };
    struct Action { Kind kind{ POINT }; long long value{ 0 }; };
    struct Msg // a planned message
    {
        int file{ 0 }, api{ 0 }, level{ 3 };
        std::string payload;
    };
    struct Rec // and what became of it
    {
        Stamp call{ NEVER }, ret{ NEVER };
        Stamp handed{ NEVER };      // the log writer was called with it
        Stamp erased{ NEVER };      // a later batch was begun: it is certainly out of memory
        int thread{ -1 }, writes{ 0 };
    };
    struct SetRec { Kind kind; long long value; Stamp call, ret; };
    struct ReadRec { std::size_t value; Stamp call, ret; };
    struct FileSpec { std::string name; std::string before; bool exists; }; // name as passed to the logger

    inline std::string slurp(const std::string& p)
    {
        vs::Quiet q;
        std::string s;
        const int f = ::open(p.c_str(), O_RDONLY);
        if (f < 0) return s;
        char buf[4096];
        for (ssize_t n; (n = ::read(f, buf, sizeof buf)) > 0;) s.append(buf, static_cast<std::size_t>(n));
        ::close(f);
        return s;
    }

    struct World
    {
        std::string root;
        std::vector<FileSpec> files;
        std::vector<Msg> plans;
        std::deque<Rec> recs;
        std::vector<SetRec> sets;
        std::vector<ReadRec> reads;
        std::deque<vs::Gate> stalls;          // the writer waits at the first that is not open
        std::size_t stalled{ 0 };             // stalls in use
        pluto::logger* log{ nullptr };
        std::vector<int> open_batch;          // written in the current batch
        int tokens{ 0 }, slot{ 0 };
        bool destroyed{ false }, ready{ false };
        Stamp destroy_call{ NEVER };
        std::function<void()> at_write{};     // called for every message the writer is given
        // done inside the writers, and while the state they captured is destroyed; one at a time
        std::deque<Action> nested{}, cleanup{};

        struct Token // what a log writer captures
        {
            World* w; unsigned magic;
            explicit Token(World* world) : w(world), magic(0x70C7) { vs::Quiet q; ++w->tokens; }
            Token(const Token& o) : w(o.w), magic(0x70C7) { vs::Quiet q; o.alive(); ++w->tokens; }
            Token& operator=(const Token&) = delete;
            ~Token()
            {
                { vs::Quiet q; alive(); magic = 0xDEAD; --w->tokens; }
                w->do_nested(w->cleanup);
            }
            void alive() const { if (magic != 0x70C7) vs::fail("captured state", "a writer's captured state is used or destroyed after its destruction"); }
        };

        std::string path(int f) const { const std::string& n = files[static_cast<std::size_t>(f)].name; return n[0] == '/' ? n : root + "/" + n; }
        std::string message(int id) const { return std::to_string(id) + "|" + plans[static_cast<std::size_t>(id)].payload; }

        // directories and files before the logger is made
        void prepare()
        {
            recs.resize(plans.size());
            fs::remove_all(root);
            fs::create_directories(root);
            if (::chdir(root.c_str()) != 0) std::abort();
            for (std::size_t f = 0; f < files.size(); ++f)
                if (files[f].exists)
                {
                    const std::string p = path(static_cast<int>(f));
                    fs::create_directories(fs::path(p).parent_path());
                    FILE* o = std::fopen(p.c_str(), "wb");
                    std::fwrite(files[f].before.data(), 1, files[f].before.size(), o);
                    std::fclose(o);
                }
        }
        void on_write(std::ostream& stream, const pluto::log_entry& e)
        {
            {
                vs::Quiet q;
                const int id = std::atoi(e.message.c_str());
                if (id < 0 || static_cast<std::size_t>(id) >= recs.size() || e.message != message(id)) vs::fail("altered", "the writer is given a message nobody logged: " + pbt::show(e.message));
                const std::size_t i = static_cast<std::size_t>(id);
                if (recs[i].call == NEVER) vs::fail("invented", "the writer is given message " + std::to_string(id) + " which was not logged");
                if (static_cast<int>(e.level) != plans[i].level) vs::fail("altered", "message " + std::to_string(id) + " has changed its level");
                if (recs[i].writes++) vs::fail("written twice", "message " + std::to_string(id) + " is handed to the writer twice");
                const Stamp now = vs::stamp();
                long& seen = stream.iword(slot);
                if (!seen) // another stream: what was written to the last one is done with
                {
                    seen = 1;
                    for (int o : open_batch) recs[static_cast<std::size_t>(o)].erased = now;
                    open_batch.clear();
                }
                open_batch.push_back(id);
                recs[i].handed = now;
                if (at_write) at_write();
            }
            for (std::size_t s = 0; s < stalled; ++s) stalls[s].wait();
            do_nested(nested);
            stream << e.message.size() << ':' << e.message;
        }
        void do_nested(std::deque<Action>& from)
        {
            Action a;
            {
                vs::Quiet q;
                if (from.empty() || !ready) return;
                a = from.front();
                from.pop_front();
            }
            act(a);
        }
        std::function<void(std::ostream&, const pluto::log_entry&)> writer()
        {
            Token t(this);
            return [t](std::ostream& stream, const pluto::log_entry& e) { t.alive(); t.w->on_write(stream, e); t.alive(); };
        }
        std::function<void(std::ostream&)> header()
        {
            Token t(this);
            return [t](std::ostream& stream) { t.alive(); t.w->do_nested(t.w->nested); t.alive(); stream << "H"; };
        }
        void create(bool with_header, bool dirs)
        {
            slot = std::ios_base::xalloc() % 8;
            log = new pluto::logger;
            log->log_writer(writer()).header_writer(header()).write_header(with_header).create_dirs(dirs);
            vs::Quiet q;
            ready = true;
            sets.push_back(SetRec{ FLUSH, 1, 0, 0 });
            sets.push_back(SetRec{ MAX, 0, 0, 0 });
            sets.push_back(SetRec{ LEVEL, 0, 0, 0 });
        }
        void destroy()
        {
            { vs::Quiet q; destroy_call = vs::stamp(); cleanup.clear(); }
            delete log;
            vs::Quiet q;
            log = nullptr;
            destroyed = true;
            CHECK("captured state", tokens == 0, tokens << " copies of the writers' captured state are left after the destruction of the logger");
        }
        void act(const Action& a);
        void script(const std::vector<Action>& s) { for (auto& a : s) act(a); }

        std::set<long long> register_values(Kind kind, Stamp lo, Stamp hi) const
        {
            std::set<long long> v;
            for (auto& a : sets)
            {
                if (a.kind != kind || a.call > hi) continue;
                bool overwritten = false;
                for (auto& b : sets) overwritten |= b.kind == kind && b.call > a.ret && b.ret < lo;
                if (!overwritten) v.insert(a.value);
            }
            return v;
        }
        // by level: 1 certainly accepted, 0 certainly refused, -1 unknown
        int accepted(int id) const
        {
            const Rec& r = recs[static_cast<std::size_t>(id)];
            if (r.call == NEVER) return 0;
            const auto v = register_values(LEVEL, r.call, r.ret);
            const int level = plans[static_cast<std::size_t>(id)].level;
            if (*v.rbegin() <= level) return 1;
            return *v.begin() > level ? 0 : -1;
        }
    };

    inline void World::act(const Action& a)
    {
        const auto set = [&](auto&& f)
        {
            std::size_t at;
            { vs::Quiet q; at = sets.size(); sets.push_back(SetRec{ a.kind, a.value, vs::stamp(), NEVER }); }
            pluto::logger& same = f();
            vs::Quiet q;
            CHECK("returns itself", &same == log, "a setter does not return its logger");
            sets[at].ret = vs::stamp();
        };
        switch (a.kind)
        {
        case LOG:
        {
            const std::size_t i = static_cast<std::size_t>(a.value);
            const Msg& m = plans[i];
            std::string text, name;
            {
                vs::Quiet q;
                text = message(static_cast<int>(a.value));
                name = files[static_cast<std::size_t>(m.file)].name;
                if (recs[i].call != NEVER) vs::fail("harness", "a message is logged twice");
                recs[i].thread = vs::self();
                recs[i].call = vs::stamp();
            }
            const pluto::log_level level = static_cast<pluto::log_level>(m.level);
            const pluto::source_info source{ "place.cpp", 7, "place" };
            const bool plain = text.find('\0') == std::string::npos;
            if (m.api == 1 && plain) log->writef(name, level, source, "%s", text.c_str());
            else if (m.api == 2) log->stream(name, level, source) << text;
            else if (m.api == 3) { auto s = log->stream(name, level, source); s << a.value << '|' << plans[i].payload; s.end(); s.end(); }
#if PLUTO_UTILS_HAS_FORMAT
            else if (m.api == 4) log->format(name, level, source, "{}|{}", a.value, plans[i].payload);
#endif
            else log->write(name, level, source, text);
            vs::Quiet q;
            recs[i].ret = vs::stamp();
            break;
        }
        case FLUSH: set([&]() -> pluto::logger& { return log->buffer_flush_size(static_cast<std::size_t>(a.value)); }); break;
        case MAX: set([&]() -> pluto::logger& { return log->buffer_max_size(static_cast<std::size_t>(a.value)); }); break;
        case RESET: set([&]() -> pluto::logger& { return log->reset_num_discarded_logs(); }); break;
        case LEVEL: set([&]() -> pluto::logger& { return log->level(static_cast<pluto::log_level>(a.value)); }); break;
        case DIRS: set([&]() -> pluto::logger& { return log->create_dirs(a.value != 0); }); break;
        case HEADER: set([&]() -> pluto::logger& { return log->write_header(a.value != 0); }); break;
        case ROTATION: set([&]() -> pluto::logger& { return log->file_rotation_size(static_cast<std::size_t>(a.value)); }); break;
        case LIMIT: set([&]() -> pluto::logger& { return log->file_rotation_limit(static_cast<std::size_t>(a.value)); }); break;
        case LOG_WRITER: set([&]() -> pluto::logger& { return log->log_writer(writer()); }); break;
        case HEADER_WRITER: set([&]() -> pluto::logger& { return log->header_writer(header()); }); break;
        case DISCARDED:
        {
            ReadRec r{ 0, vs::stamp(), 0 };
            r.value = log->num_discarded_logs();
            vs::Quiet q;
            r.ret = vs::stamp();
            reads.push_back(r);
            break;
        }
        case GETTERS:
            switch (a.value)
            {
            case 0: (void)log->level(); break;
            case 1: (void)log->is_logging(); break;
            case 2: (void)log->create_dirs(); break;
            case 3: (void)log->write_header(); break;
            case 4: (void)log->buffer_max_size(); break;
            case 5: (void)log->buffer_flush_size(); break;
            case 6: (void)log->file_rotation_size(); break;
            case 7: (void)log->file_rotation_limit(); break;
            case 8: { const auto f = log->header_writer(); std::ostringstream s; f(s); break; }
            default: (void)log->should_log(pluto::log_level::info); { const auto f = log->log_writer(); } break;
            }
            break;
        case POINT: vs::point(); break;
        case SLEEP: vs::sleep_until(vs::now() + a.value); break;
        case STALL: { vs::Quiet q; stalls.emplace_back(); ++stalled; } break;
        case GO_ON: for (std::size_t s = 0; s < stalled; ++s) if (!stalls[s].is_open()) { stalls[s].open(); break; } break;
        case QUIESCE: vs::quiesce(); break;
        }
    }

    // ---- reading files back
    struct Content { std::vector<int> ids; bool header{ false }; };
    // what is in a file and in those that rotation has moved away, oldest first
    inline std::string chain_text(const std::string& p, bool rotated)
    {
        std::string all;
        if (rotated)
        {
            const fs::path q(p);
            const std::string base = (q.parent_path() / q.stem()).string(), ext = q.extension().string();
            std::vector<std::string> parts;
            for (int i = 1, gap = 0; gap < 8; ++i) // a rotation that failed half way leaves a gap
            {
                const std::string n = base + "_" + std::to_string(i) + ext;
                if (::access(n.c_str(), F_OK) != 0) { ++gap; continue; }
                gap = 0;
                parts.push_back(slurp(n));
            }
            for (std::size_t i = parts.size(); i-- > 0;) all += parts[i];
        }
        return all + slurp(p);
    }
    inline std::string chain_text(const World& w, int f, bool rotated) { return chain_text(w.path(f), rotated); }
    inline Content parse(const World& w, int f, const std::string& all, bool header_anywhere, bool being_written = false)
    {
        Content r;
        const FileSpec& spec = w.files[static_cast<std::size_t>(f)];
        CHECK("existing content", all.compare(0, spec.before.size(), spec.before) == 0, "the content that " << spec.name << " had before is not kept");
        std::size_t at = spec.before.size();
        const auto bad = [&](const std::string& what) { CHECK("file content", false, spec.name << " at offset " << at << ": " << what << "; content " << pbt::show(all)); };
        while (at < all.size())
        {
            if (all.compare(at, 2, "H\n") == 0)
            {
                if (at != 0 && !header_anywhere) bad("a header in the middle");
                r.header = true;
                at += 2;
                continue;
            }
            if (being_written && all.find('\n', at) == std::string::npos) break;
            std::size_t n = 0, k = at;
            while (k < all.size() && all[k] >= '0' && all[k] <= '9') n = n * 10 + static_cast<std::size_t>(all[k++] - '0');
            if (being_written && (k >= all.size() || k + 1 + n >= all.size())) break;
            if (k == at || k >= all.size() || all[k] != ':' || k + 1 + n >= all.size() || all[k + 1 + n] != '\n') bad("not a whole entry");
            const std::string text = all.substr(k + 1, n);
            const int id = std::atoi(text.c_str());
            if (id < 0 || static_cast<std::size_t>(id) >= w.plans.size() || text != w.message(id)) bad("an entry that is none of the messages");
            if (w.plans[static_cast<std::size_t>(id)].file != f) bad("message " + std::to_string(id) + " of another file");
            r.ids.push_back(id);
            at = k + 1 + n + 1;
        }
        return r;
    }
    inline void describe_history(pbt::Case& c, const World& w)
    {
        if (!c.verbose()) return;
        const auto st = [](Stamp s) { return s == NEVER ? std::string("-") : std::to_string(s); };
        c.out() << "\nhistory:";
        for (std::size_t i = 0; i < w.recs.size(); ++i)
        {
            const Rec& r = w.recs[i];
            if (r.call == NEVER) continue;
            c.out() << "\n  message " << i << " to " << w.files[static_cast<std::size_t>(w.plans[i].file)].name << " by thread " << r.thread << " [" << st(r.call) << ".." << st(r.ret) << "] handed over at " << st(r.handed) << ", gone by " << st(r.erased);
        }
        for (auto& s : w.sets) if (s.call) c.out() << "\n  set " << s.kind << " to " << s.value << " [" << st(s.call) << ".." << st(s.ret) << "]";
    }
    // every message that may be in a file is there once, all that must be are, and in order
    enum Must { ALL, SOME };
    inline void check_file(pbt::Case& c, const World& w, int f, const Content& got, Must must, const std::set<int>* may_be_lost = nullptr)
    {
        const std::string& name = w.files[static_cast<std::size_t>(f)].name;
        std::map<int, std::size_t> place;
        for (std::size_t k = 0; k < got.ids.size(); ++k)
        {
            const int id = got.ids[k];
            if (!place.emplace(id, k).second) { describe_history(c, w); CHECK("written twice", false, "message " << id << " is twice in " << name); }
            if (w.accepted(id) == 0) { describe_history(c, w); CHECK("not accepted", false, "message " << id << " is in " << name << " but was not logged"); }
        }
        for (std::size_t i = 0; i < w.recs.size(); ++i)
        {
            const int id = static_cast<int>(i);
            if (w.plans[i].file != f || place.count(id) || must == SOME || w.accepted(id) != 1 || (may_be_lost && may_be_lost->count(id))) continue;
            describe_history(c, w);
            CHECK("lost", false, "message " << id << " is not in " << name);
        }
        for (std::size_t a = 0; a < got.ids.size(); ++a)
            for (std::size_t b = a + 1; b < got.ids.size(); ++b)
            {
                const Rec &A = w.recs[static_cast<std::size_t>(got.ids[a])], &B = w.recs[static_cast<std::size_t>(got.ids[b])];
                if (B.ret == NEVER || B.ret > A.call) continue;
                describe_history(c, w);
                CHECK("order", false, "in " << name << " message " << got.ids[a] << " precedes message " << got.ids[b] << (A.thread == B.thread ? " of the same thread" : "") << ", whose logging call had returned before the other began");
            }
    }

    // ---- generators
    inline std::vector<FileSpec> draw_files(pbt::Case& c, std::size_t max)
    {
        static const char* const names[] = { "a.log", "b.log", "sub/a.log", "sub/deep/er/x.txt", "noext", ".hidden", "a b.log", "sub/b.log", "sub2/noext", "v1.2/.hidden" };
        std::vector<FileSpec> r;
        std::set<std::string> used;
        for (std::size_t k = 1 + c.draw(max); k > 0; --k)
        {
            const std::string n = names[c.draw(sizeof(names) / sizeof(*names))];
            if (!used.insert(n).second) continue;
            FileSpec s{ n, "", false };
            switch (c.draw(4))
            {
            case 0: s.exists = true; s.before = c.draw(2) ? "" : c.draw(2) ? "old content\n" : std::string("no newline\0\x80", 12); break;
            default: break;
            }
            if (c.draw(3) == 0) s.name = std::string(pbt::scratch_dir()) + "/logs/" + n;
            r.push_back(s);
        }
        return r;
    }
    inline std::string draw_payload(pbt::Case& c)
    {
        switch (c.weighted({ 5, 1, 1, 1, 0.5 }))
        {
        case 0: return std::string(c.draw(4), 'x');
        case 1: return "line\nline\n";
        case 2: return std::string("\0\xff\r\n\t%s{}", 10);
        case 3: return std::string(20 + c.draw(200), 'y');
        default: return std::string(8000 + c.draw(2000), 'z'); // more than the stream's buffer
        }
    }
    inline Action draw_log(pbt::Case& c, World& w, bool levels = false)
    {
        Msg m;
        m.file = static_cast<int>(c.draw(w.files.size()));
        m.api = static_cast<int>(c.weighted({ 4, 1, 1, 1, 1 }));
        m.level = levels || c.flag(0.3) ? static_cast<int>(c.draw(9)) : 3;
        m.payload = draw_payload(c);
        w.plans.push_back(m);
        return Action{ LOG, static_cast<long long>(w.plans.size()) - 1 };
    }
    // one of many messages
    inline Action plain_log(World& w, std::size_t file, int api, std::size_t size)
    {
        Msg m;
        m.file = static_cast<int>(file);
        m.api = api;
        m.payload = std::string(size, 'q');
        w.plans.push_back(m);
        return Action{ LOG, static_cast<long long>(w.plans.size()) - 1 };
    }
    inline std::uint64_t mix(std::uint64_t x)
    {
        x += 0x9e3779b97f4a7c15ull;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }
    inline std::vector<FileSpec> many_files(std::size_t n)
    {
        std::vector<FileSpec> r;
        for (std::size_t i = 0; i < n; ++i) r.push_back(FileSpec{ (i % 3 == 2 ? "d" + std::to_string(i % 5) + "/" : std::string()) + "f" + std::to_string(i) + (i % 7 == 6 ? "" : ".log"), "", false });
        return r;
    }
    inline std::string text(const World& w, const std::vector<Action>& s)
    {
        static const char* const names[] = { "log", "flush_size", "max_size", "reset_discarded", "discarded", "level", "create_dirs", "write_header", "rotation_size", "rotation_limit", "log_writer", "header_writer", "get", ".", "sleep", "stall the writer", "let the writer go on", "quiesce" };
        std::string r;
        for (auto& a : s)
        {
            if (!r.empty()) r += ' ';
            if (a.kind == LOG)
            {
                const Msg& m = w.plans[static_cast<std::size_t>(a.value)];
                r += "#" + std::to_string(a.value) + "->" + w.files[static_cast<std::size_t>(m.file)].name + (m.payload.size() > 12 ? "(" + std::to_string(m.payload.size()) + " bytes)" : m.payload.empty() ? "" : pbt::show(m.payload)) + (m.api ? "/api" + std::to_string(m.api) : "") + (m.level != 3 ? "/level" + std::to_string(m.level) : "");
            }
            else
            {
                r += names[a.kind];
                if ((a.kind >= FLUSH && a.kind <= MAX) || (a.kind >= LEVEL && a.kind <= LIMIT) || a.kind == GETTERS) r += "(" + std::to_string(a.value) + ")";
                if (a.kind == SLEEP) r += "(" + std::to_string(a.value / 1000) + "us)";
            }
        }
        return r;
    }
    inline void note(pbt::Case& c, const World& w, const std::vector<std::vector<Action>>& scripts)
    {
        if (!c.verbose()) return;
        c.out() << "files";
        for (auto& f : w.files) c.out() << " " << f.name << (f.exists ? " (" + std::to_string(f.before.size()) + " bytes)" : "");
        for (auto& s : scripts) c.out() << "; [" << text(w, s) << "]";
    }
    // hundreds of messages to dozens of files by a dozen threads, from a few draws
    struct Crowd
    {
        std::size_t nfiles, nthreads, each, shape;
        std::uint64_t seed;
        std::vector<std::vector<Action>> scripts;
    };
    inline Crowd draw_crowd(pbt::Case& c, World& w, std::size_t most_files, std::size_t most)
    {
        Crowd r;
        r.nfiles = 1 + c.large(most_files - 1);
        r.nthreads = 1 + c.large(11);
        r.each = 1 + c.large(most / r.nthreads);
        r.shape = c.draw(4); // which file is next: all the first, in turn, any, in blocks
        r.seed = c.draw(1000);
        const std::size_t apis = c.draw(2) ? 5 : 1, sizes = c.draw(3);
        w.files = many_files(r.nfiles);
        for (std::size_t t = 0; t < r.nthreads; ++t)
        {
            r.scripts.emplace_back();
            for (std::size_t i = 0; i < r.each; ++i)
            {
                const std::uint64_t x = mix(r.seed * 1000 + i * 16 + t);
                const std::size_t file = r.shape == 0 ? 0 : r.shape == 1 ? (i + t) % r.nfiles : r.shape == 2 ? x % r.nfiles : (i / 8 + t) % r.nfiles;
                r.scripts.back().push_back(plain_log(w, file, static_cast<int>(x / 64 % apis), sizes == 0 ? 0 : sizes == 1 ? x / 8 % 5 : x % 29 ? x / 4 % 60 : x / 4 % 9000));
            }
        }
        NOTE(r.nfiles << " files, " << r.nthreads << " threads with " << r.each << " messages each, shape " << r.shape << " apis " << apis << " sizes " << sizes << " seed " << r.seed);
        return r;
    }
}
