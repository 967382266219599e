// Choice-sequence property-based testing engine (implementation).  See pbt.hpp and DESIGN.md.
#include "pbt.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <typeinfo>
#include <cxxabi.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{
    namespace
    {
        constexpr std::size_t MAX_CHOICES = 1 << 17;
        constexpr std::size_t MAX_LABELS = 96;
        constexpr std::size_t MAX_SAMPLES = 24;
        constexpr std::size_t HASH_SLOTS = std::size_t(1) << 23;

        struct LabelSlot { char name[56]; std::uint64_t count; };
        struct Sample { int prop; char text[3000]; };

        struct Shm // one per worker
        {
            volatile int prop;
            volatile std::uint64_t index;
            volatile int running;        // 1 while a case runs
            volatile int failed;         // a failure is recorded
            volatile int nontrivial;
            volatile std::uint64_t progress;
            std::uint32_t count[2];
            std::uint64_t choices[2][MAX_CHOICES];
            char signature[256];
            char message[6000];
            std::uint64_t evaluations, nontrivials, known;
            std::uint64_t per_prop[256], per_prop_nt[256];
            int nlabels;
            LabelSlot labels[MAX_LABELS];
            int nsamples;
            int cut; // some sub-property ended for want of time
            Sample samples[MAX_SAMPLES];
        };

        struct Shared
        {
            std::atomic<std::uint64_t> distinct;
            std::atomic<int> stop;
            std::atomic<std::uint64_t> hashes[HASH_SLOTS];
        };

        Shared* shared;
        Shm* shms;      // workers + 1 (shrinker)
        Shm* me;
        int workers = 8;
        bool is_thorough = false;
        std::uint64_t seed = 1;
        double scale_factor = 1;
        double time_budget = 0; // seconds; 0: by tier
        std::string property_id, scratch_base, my_scratch;
        std::vector<std::string> known; // sub/signature

        // ---- the source of choices
        struct Rng
        {
            std::uint64_t s[4];
            static std::uint64_t mix(std::uint64_t& x)
            {
                std::uint64_t z = (x += 0x9e3779b97f4a7c15ull);
                z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
                z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
                return z ^ (z >> 31);
            }
            void init(std::uint64_t x) { for (auto& v : s) v = mix(x); }
            static std::uint64_t rotl(std::uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
            std::uint64_t next()
            {
                const std::uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
                s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
                return r;
            }
            std::uint64_t below(std::uint64_t n) { return n ? static_cast<std::uint64_t>((static_cast<unsigned __int128>(next()) * n) >> 64) : next(); }
            double real() { return static_cast<double>(next() >> 11) * 0x1.0p-53; }
        };
        Rng rng[2];
        std::vector<std::uint64_t> prefix[2];
        bool random_tail;

        template<class Random>
        std::uint64_t take(int stream, std::uint64_t bound, Random random)
        {
            const std::uint32_t k = me->count[stream];
            if (k >= MAX_CHOICES) return 0;
            std::uint64_t v;
            if (k < prefix[stream].size())
            {
                v = prefix[stream][k];
                if (bound && v >= bound) v = bound - 1;
            }
            else v = random_tail ? random() : 0;
            me->choices[stream][k] = v;
            me->count[stream] = k + 1;
            return v;
        }

        std::vector<const char*> case_labels;
        bool count_labels;

        std::uint64_t hash_name(const std::string& s)
        {
            std::uint64_t h = 1469598103934665603ull;
            for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; }
            return h;
        }

        bool insert_hash(std::uint64_t h)
        {
            if (!h) h = 1;
            std::size_t i = h & (HASH_SLOTS - 1);
            for (int probe = 0; probe < 64; ++probe, i = (i + 1) & (HASH_SLOTS - 1))
            {
                std::uint64_t cur = shared->hashes[i].load(std::memory_order_relaxed);
                if (cur == h) return false;
                if (cur == 0)
                {
                    if (shared->hashes[i].compare_exchange_strong(cur, h)) return true;
                    if (cur == h) return false;
                }
            }
            return false;
        }

        void store(char* dst, std::size_t cap, const std::string& s)
        {
            const std::size_t n = std::min(cap - 1, s.size());
            std::memcpy(dst, s.data(), n);
            dst[n] = 0;
        }

        void record_failure(const std::string& sig, const std::string& msg)
        {
            store(me->signature, sizeof me->signature, sig);
            store(me->message, sizeof me->message, msg);
            me->failed = 1;
        }

        void set_cpu_limit(double seconds)
        {
            itimerval t{};
            t.it_value.tv_sec = static_cast<time_t>(seconds);
            t.it_value.tv_usec = static_cast<suseconds_t>((seconds - static_cast<double>(t.it_value.tv_sec)) * 1e6);
            setitimer(ITIMER_PROF, &t, nullptr);
        }

        std::string demangle(const char* n)
        {
            int st = 0;
            char* d = abi::__cxa_demangle(n, nullptr, nullptr, &st);
            std::string r = d ? d : n;
            free(d);
            return r;
        }

        Case* current_case;
        void finish(const Case& c)
        {
            me->nontrivial = c.m_nontrivial;
            if (count_labels)
                for (const char* l : case_labels)
                {
                    int k = 0;
                    while (k < me->nlabels && std::strcmp(me->labels[k].name, l)) ++k;
                    if (k == me->nlabels && k < static_cast<int>(MAX_LABELS)) { store(me->labels[k].name, 56, l); ++me->nlabels; }
                    if (k < static_cast<int>(MAX_LABELS)) ++me->labels[k].count;
                }
            if (c.m_verbose && (c.m_nontrivial || me->failed))
            {
                const std::string text = c.m_out.str();
                if (me->nsamples < static_cast<int>(MAX_SAMPLES))
                {
                    me->samples[me->nsamples].prop = me->prop;
                    store(me->samples[me->nsamples].text, sizeof me->samples[0].text, text);
                    ++me->nsamples;
                }
            }
        }

        // Runs the body in this process; the failure, if any, is left in *me.
        void run_body(const Prop& p, Case& c)
        {
            me->count[0] = me->count[1] = 0;
            me->failed = 0;
            me->nontrivial = 0;
            case_labels.clear();
            me->running = 1;
            current_case = &c;
            set_cpu_limit(p.options.cpu_limit);
            try { p.run(c); }
            catch (const Failure& f) { record_failure(f.signature, f.message); }
            catch (const std::exception& e) { record_failure("exception:" + demangle(typeid(e).name()), std::string("unexpected exception ") + demangle(typeid(e).name()) + ": " + e.what()); }
            catch (...) { record_failure("exception", "unexpected exception of unknown type"); }
            set_cpu_limit(0);
            finish(c);
            current_case = nullptr;
            me->running = 0;
        }

        std::string read_tail(const std::string& path, std::size_t max = 60000)
        {
            std::ifstream f(path, std::ios::binary);
            std::string s((std::istreambuf_iterator<char>(f)), {});
            return s.size() > max ? s.substr(s.size() - max) : s;
        }

        // describe an abnormal end of a process
        void describe_crash(int status, const std::string& errfile, std::string& sig, std::string& msg)
        {
            const std::string err = read_tail(errfile);
            std::size_t p = err.find("SUMMARY: ");
            std::size_t u = err.find("runtime error: ");
            std::size_t a = err.find("ssertion ");
            if (p != std::string::npos)
            {
                std::string line = err.substr(p + 9, err.find('\n', p) - p - 9);
                std::istringstream ss(line);
                std::string tool, kind;
                ss >> tool >> kind;
                sig = tool + " " + kind;
                msg = line;
                if (u != std::string::npos) msg += " | " + err.substr(u, err.find('\n', u) - u);
            }
            else if (u != std::string::npos) { sig = "undefined-behaviour"; msg = err.substr(u, err.find('\n', u) - u); }
            else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF) { sig = "hang"; msg = "case used up its CPU time limit or blocked for ever (does not terminate)"; }
            else if (WIFSIGNALED(status))
            {
                sig = std::string("signal ") + strsignal(WTERMSIG(status));
                msg = "process ended by signal " + std::to_string(WTERMSIG(status)) + " (" + strsignal(WTERMSIG(status)) + ")";
                if (a != std::string::npos) { std::size_t b = err.rfind('\n', a); b = b == std::string::npos ? 0 : b + 1; msg += ": " + err.substr(b, err.find('\n', a) - b); }
                std::size_t t = err.find("terminate called");
                if (t != std::string::npos) msg += ": " + err.substr(t, err.find('\n', t) - t);
            }
            else { sig = "exit " + std::to_string(WEXITSTATUS(status)); msg = "process ended with status " + std::to_string(WEXITSTATUS(status)) + ": " + err.substr(0, 400); }
        }

        void redirect_stderr(const std::string& file)
        {
            const int fd = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
            if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
        }

        // tells when a process has been asleep without using any CPU time for a while (deadlock)
        struct IdleWatch
        {
            using clk = std::chrono::steady_clock;
            // a thread that waits for a processor of a busy machine is not asleep
            static bool any_thread_runs(pid_t pid)
            {
                char path[64];
                std::snprintf(path, sizeof path, "/proc/%d/task", static_cast<int>(pid));
                DIR* const d = opendir(path);
                if (!d) return false;
                bool runs = false;
                while (const dirent* const e = readdir(d))
                {
                    if (e->d_name[0] == '.') continue;
                    char file[128], buf[512];
                    std::snprintf(file, sizeof file, "%s/%.20s/stat", path, e->d_name);
                    const int fd = open(file, O_RDONLY | O_CLOEXEC);
                    const ssize_t n = fd < 0 ? -1 : read(fd, buf, sizeof buf - 1);
                    if (fd >= 0) close(fd);
                    if (n <= 0) continue;
                    buf[n] = 0;
                    const char* const p = std::strrchr(buf, ')');
                    if (p && p[1] == ' ' && p[2] != 'S' && p[2] != 'Z' && p[2] != 'X') { runs = true; break; }
                }
                closedir(d);
                return runs;
            }
            unsigned long long ticks{ ~0ull };
            clk::time_point since{ clk::now() }, checked{};
            double idle(pid_t pid)
            {
                const auto now = clk::now();
                if (std::chrono::duration<double>(now - checked).count() < 0.2) return std::chrono::duration<double>(now - since).count();
                checked = now;
                char path[64], buf[1024];
                std::snprintf(path, sizeof path, "/proc/%d/stat", static_cast<int>(pid));
                const int fd = open(path, O_RDONLY | O_CLOEXEC);
                const ssize_t n = fd < 0 ? -1 : read(fd, buf, sizeof buf - 1);
                if (fd >= 0) close(fd);
                if (n <= 0) { since = now; return 0; }
                buf[n] = 0;
                const char* p = std::strrchr(buf, ')');
                char state = 'R';
                unsigned long long u = 0, k = 0;
                if (!p || std::sscanf(p + 1, " %c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %llu %llu", &state, &u, &k) != 3) { since = now; return 0; }
                if (state != 'S' || u + k != ticks || any_thread_runs(pid)) { ticks = u + k; since = now; }
                return std::chrono::duration<double>(now - since).count();
            }
        };
        const double IDLE_LIMIT = 10;

        // wait for pid; a process that makes no progress for a minute of wall time is hanging
        int wait_child(pid_t pid, double wall)
        {
            using clk = std::chrono::steady_clock;
            const auto start = clk::now();
            int status = 0;
            int spin = 0;
            IdleWatch watch;
            for (;;)
            {
                const pid_t r = waitpid(pid, &status, WNOHANG);
                if (r == pid) return status;
                if (r < 0 && errno != EINTR) return 0;
                if ((spin > 1000 && watch.idle(pid) > IDLE_LIMIT) || std::chrono::duration<double>(clk::now() - start).count() > wall)
                {
                    kill(pid, SIGKILL);
                    waitpid(pid, &status, 0);
                    return SIGPROF; // reported as hang
                }
                if (++spin < 200) usleep(50); else usleep(500);
            }
        }

        // run one case in a forked child of this process; result in *me
        void run_forked(const Prop& p, Case& c, const std::string& errfile)
        {
            me->count[0] = me->count[1] = 0;
            me->failed = 0;
            me->nontrivial = 0;
            const pid_t pid = fork();
            if (pid == 0)
            {
                redirect_stderr(errfile);
                setpgid(0, 0);
                run_body(p, c);
                _exit(0);
            }
            // blocking wait: the CPU limit ends spinning children, alarm-like polling ends blocked ones
            int status = 0;
            if (p.options.fork_each)
            {
                status = wait_child(pid, 120);
            }
            else status = wait_child(pid, p.options.cpu_limit * 3 + 30);
            if (!me->failed && !(WIFEXITED(status) && WEXITSTATUS(status) == 0))
            {
                std::string sig, msg;
                describe_crash(status, errfile, sig, msg);
                record_failure(sig, msg);
            }
        }

        bool is_known(const Prop& p)
        {
            const std::string k = p.name + "/" + me->signature;
            return std::find(known.begin(), known.end(), k) != known.end();
        }

        std::uint64_t cases_of(const Prop& p)
        {
            std::uint64_t n = is_thorough ? (p.options.thorough ? p.options.thorough : p.options.quick * (p.options.enumerate ? 1 : 15)) : p.options.quick;
            if (!p.options.enumerate) n = std::max<std::uint64_t>(1, static_cast<std::uint64_t>(static_cast<double>(n) * scale_factor));
            return n;
        }

        void remove_tree(const std::string& path)
        {
            if (path.size() < 5 || path.find("/pbt-scratch-") == std::string::npos) return;
            DIR* d = opendir(path.c_str());
            if (!d) return;
            while (dirent* e = readdir(d))
            {
                const std::string n = e->d_name;
                if (n == "." || n == "..") continue;
                const std::string full = path + "/" + n;
                struct stat st;
                if (lstat(full.c_str(), &st)) continue;
                if (S_ISDIR(st.st_mode)) { chmod(full.c_str(), 0700); remove_tree(full); }
                else unlink(full.c_str());
            }
            closedir(d);
            rmdir(path.c_str());
        }

        void prepare(const Prop& p, std::uint64_t i, bool replay)
        {
            random_tail = !replay;
            if (!replay)
            {
                prefix[0].clear();
                prefix[1].clear();
                if (p.options.enumerate) prefix[0].push_back(i);
                rng[0].init(seed * 0x9e3779b97f4a7c15ull ^ hash_name(property_id + "/" + p.name) ^ (i * 0xd1342543de82ef95ull));
                rng[1].init(~(seed * 0x9e3779b97f4a7c15ull) ^ hash_name(p.name + "#") ^ (i * 0xaf251af3b0f025b5ull));
            }
        }

        int worker_main(int w, const std::vector<int>& selected)
        {
            me = &shms[w];
            my_scratch = scratch_base + "/w" + std::to_string(w);
            mkdir(my_scratch.c_str(), 0755);
            const std::string errfile = scratch_base + "/err" + std::to_string(w);
            redirect_stderr(errfile);
            count_labels = true;
            std::vector<int> sampled(props().size(), 0);
            using clk = std::chrono::steady_clock;
            const auto begun = clk::now();
            std::size_t remaining = selected.size();
            for (int pi : selected)
            {
                const Prop& p = props()[static_cast<std::size_t>(pi)];
                const std::uint64_t n = cases_of(p);
                me->prop = pi;
                // each sub-property may use an equal part of the time that is left, so that the check always ends in time
                const auto now = clk::now();
                --remaining;
                const auto until = now + std::chrono::duration_cast<clk::duration>(std::chrono::duration<double>(
                    std::max(1.0, time_budget - std::chrono::duration<double>(now - begun).count()) / (remaining + 1)));
                unsigned turn = 0;
                for (std::uint64_t i = static_cast<std::uint64_t>(w); i < n; i += static_cast<std::uint64_t>(workers))
                {
                    if (++turn % 16 == 0 || p.options.fork_each)
                    {
                        if (shared->stop.load(std::memory_order_relaxed)) return 0;
                        if (!p.options.enumerate && i >= n / 64 && clk::now() > until) { me->cut = 1; break; }
                    }
                    me->index = i;
                    ++me->progress;
                    Case c;
                    c.m_scale = p.options.enumerate ? 1.0 : std::min(1.0, 0.15 + static_cast<double>(i) / static_cast<double>(n));
                    const int before = me->nsamples;
                    c.m_verbose = (sampled[static_cast<std::size_t>(pi)] < 1 && (pi + 1) % workers == w && i >= n / 3);
                    prepare(p, i, false);
                    if (p.options.fork_each) run_forked(p, c, errfile); else run_body(p, c);
                    if (me->nsamples > before) ++sampled[static_cast<std::size_t>(pi)];
                    ++me->evaluations;
                    ++me->per_prop[pi];
                    if (me->nontrivial)
                    {
                        ++me->nontrivials;
                        ++me->per_prop_nt[pi];
                        std::uint64_t h = hash_name(p.name);
                        for (int s = 0; s < 2; ++s)
                        {
                            std::uint32_t len = me->count[s];
                            while (len && me->choices[s][len - 1] == 0) --len;
                            for (std::uint32_t k = 0; k < len; ++k) { h ^= me->choices[s][k] + 0x9e3779b97f4a7c15ull; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }
                            h = h * 31 + 7;
                        }
                        if (insert_hash(h)) ++shared->distinct;
                    }
                    if (me->failed)
                    {
                        if (is_known(p)) { ++me->known; me->failed = 0; continue; }
                        return 1;
                    }
                }
            }
            return 0;
        }

        // Runs, in one fresh process, the cases that a worker ran before a failing one and then that one: for failures
        // that need a history of earlier cases (state that outlives a case).
        // back: how many earlier cases of the sub-property; all: those of earlier sub-properties too.
        struct History { int pi; std::uint64_t index, back; bool all; };
        bool fails_after(const History& h, const std::vector<int>& selected, bool verbose)
        {
            me = &shms[workers];
            my_scratch = scratch_base + "/shrink";
            remove_tree(my_scratch);
            mkdir(my_scratch.c_str(), 0755);
            count_labels = false;
            me->failed = 0;
            me->nsamples = 0;
            me->prop = h.pi;
            const std::string errfile = scratch_base + "/err_shrink";
            const pid_t pid = fork();
            if (pid == 0)
            {
                redirect_stderr(errfile);
                setpgid(0, 0);
                const std::uint64_t w = h.index % static_cast<std::uint64_t>(workers), step = static_cast<std::uint64_t>(workers);
                for (int pi : selected)
                {
                    if (!h.all && pi != h.pi) continue;
                    const Prop& p = props()[static_cast<std::size_t>(pi)];
                    const std::uint64_t n = cases_of(p), first = pi == h.pi && !h.all && h.back < h.index / step ? h.index - h.back * step : w;
                    for (std::uint64_t i = first; i < n; i += step)
                    {
                        Case c;
                        c.m_scale = p.options.enumerate ? 1.0 : std::min(1.0, 0.15 + static_cast<double>(i) / static_cast<double>(n));
                        c.m_verbose = verbose && pi == h.pi && i == h.index;
                        me->prop = pi;
                        me->index = i;
                        prepare(p, i, false);
                        if (p.options.fork_each) run_forked(p, c, errfile); else run_body(p, c);
                        if (me->failed && is_known(p)) me->failed = 0;
                        if (me->failed || (pi == h.pi && i == h.index)) _exit(0);
                    }
                }
                _exit(0);
            }
            const int status = wait_child(pid, 600);
            if (!me->failed && !(WIFEXITED(status) && WEXITSTATUS(status) == 0))
            {
                std::string sig, msg;
                describe_crash(status, errfile, sig, msg);
                record_failure(sig, msg);
            }
            return me->failed && me->prop == h.pi && me->index == h.index;
        }

        // ---- shrinking (in the parent)
        typedef std::vector<std::uint64_t> Seq;
        struct Input { Seq s[2]; };

        Seq trimmed(const std::uint64_t* p, std::size_t n)
        {
            while (n && p[n - 1] == 0) --n;
            return Seq(p, p + n);
        }

        bool less(const Input& a, const Input& b)
        {
            const std::size_t na = a.s[0].size(), nb = b.s[0].size();
            if (na != nb) return na < nb;
            if (a.s[0] != b.s[0]) return a.s[0] < b.s[0];
            // fewer context switches (non-zero decisions) first, then shorter, then smaller
            const auto nz = [](const Seq& q) { return std::count_if(q.begin(), q.end(), [](std::uint64_t v) { return v != 0; }); };
            const auto za = nz(a.s[1]), zb = nz(b.s[1]);
            if (za != zb) return za < zb;
            if (a.s[1].size() != b.s[1].size()) return a.s[1].size() < b.s[1].size();
            return a.s[1] < b.s[1];
        }

        std::uint64_t tries;

        // run input in a child; on failure normalises it and returns true
        bool fails(const Prop& p, int pi, Input& in, bool verbose, double cpu)
        {
            ++tries;
            me = &shms[workers];
            me->prop = pi;
            me->nsamples = 0;
            my_scratch = scratch_base + "/shrink";
            remove_tree(my_scratch);
            mkdir(my_scratch.c_str(), 0755);
            prefix[0] = in.s[0];
            prefix[1] = in.s[1];
            random_tail = false;
            count_labels = false;
            Case c;
            c.m_verbose = verbose;
            Prop q = p;
            q.options.cpu_limit = std::min(q.options.cpu_limit, cpu);
            run_forked(q, c, scratch_base + "/err_shrink");
            if (!me->failed || is_known(p)) return false;
            in.s[0] = trimmed(me->choices[0], me->count[0]);
            in.s[1] = trimmed(me->choices[1], me->count[1]);
            return true;
        }

        void shrink(const Prop& p, int pi, Input& best)
        {
            using clk = std::chrono::steady_clock;
            const auto start = clk::now();
            tries = 0;
            const auto budget = [&] { return tries < 4000 && std::chrono::duration<double>(clk::now() - start).count() < 60; };
            const auto attempt = [&](Input cand)
            {
                if (!budget()) return false;
                if (!less(cand, best)) return false;
                if (!fails(p, pi, cand, false, 3)) return false;
                if (!less(cand, best)) return false;
                best = cand;
                return true;
            };
            bool improved = true;
            while (improved && budget())
            {
                improved = false;
                { Input c = best; c.s[1].clear(); improved |= attempt(c); }
                for (int st = 0; st < 2; ++st)
                {
                    // keep only a prefix
                    for (std::size_t len = best.s[st].size() / 2; len > 0 && budget(); len /= 2)
                    {
                        if (len >= best.s[st].size()) continue;
                        Input c = best; c.s[st].resize(best.s[st].size() - len); improved |= attempt(c);
                    }
                    // delete / zero blocks
                    for (std::size_t size : { 64, 32, 16, 8, 6, 5, 4, 3, 2, 1 })
                    {
                        if (size > best.s[st].size()) continue;
                        for (std::size_t at = best.s[st].size(); at-- > 0 && budget();)
                        {
                            if (at + size > best.s[st].size()) continue;
                            bool ok = false;
                            { Input c = best; c.s[st].erase(c.s[st].begin() + static_cast<long>(at), c.s[st].begin() + static_cast<long>(at + size)); ok = attempt(c); }
                            if (!ok && at > 0 && best.s[st][at - 1] > 0)
                            {
                                Input c = best; --c.s[st][at - 1];
                                c.s[st].erase(c.s[st].begin() + static_cast<long>(at), c.s[st].begin() + static_cast<long>(at + size)); ok = attempt(c);
                            }
                            if (!ok)
                            {
                                Input c = best; bool any = false;
                                for (std::size_t k = at; k < at + size; ++k) { any |= c.s[st][k] != 0; c.s[st][k] = 0; }
                                if (any) ok = attempt(c);
                            }
                            improved |= ok;
                        }
                    }
                    // minimise single values
                    for (std::size_t at = 0; at < best.s[st].size() && budget(); ++at)
                    {
                        if (best.s[st][at] == 0) continue;
                        std::uint64_t lo = 0, hi = best.s[st][at]; // hi fails
                        while (lo < hi && budget())
                        {
                            const std::uint64_t mid = lo + (hi - lo) / 2;
                            Input c = best;
                            if (at >= c.s[st].size()) break;
                            c.s[st][at] = mid;
                            if (attempt(c)) { improved = true; hi = at < best.s[st].size() ? best.s[st][at] : 0; }
                            else lo = mid + 1;
                        }
                        if (at < best.s[st].size() && best.s[st][at] > 0)
                        {
                            Input c = best; --c.s[st][at]; improved |= attempt(c);
                        }
                    }
                }
            }
        }

        std::string json_escape(const std::string& s)
        {
            std::string r = "\"";
            for (unsigned char ch : s)
            {
                char buf[8];
                if (ch == '"' || ch == '\\') { r += '\\'; r += static_cast<char>(ch); }
                else if (ch == '\n') r += "\\n";
                else if (ch < 0x20 || ch >= 0x7f) { std::snprintf(buf, sizeof buf, "\\u%04x", ch); r += buf; }
                else r += static_cast<char>(ch);
            }
            return r + "\"";
        }

        std::string write_replay(const std::string& dir, const Prop& p, const Input& in, const std::string& sig, const std::string& msg, const std::string& text)
        {
            std::uint64_t h = hash_name(p.name + sig);
            for (const auto& s : in.s) for (auto v : s) { h ^= v; h *= 1099511628211ull; }
            char name[64];
            std::snprintf(name, sizeof name, "%016llx", static_cast<unsigned long long>(h));
            const std::string path = dir + "/" + property_id + "-" + name + ".replay";
            std::ofstream f(path, std::ios::binary);
            f << "pbt-replay 1\nproperty " << property_id << "\nsub " << p.name << "\n";
            for (int s = 0; s < 2; ++s) { f << (s ? "schedule" : "data"); for (auto v : in.s[s]) f << ' ' << v; f << '\n'; }
            f << "--- (for the reader)\nsignature: " << sig << "\nmessage: " << msg << "\ncase:\n" << text << "\n";
            return path;
        }

        std::string write_history(const std::string& dir, const Prop& p, const History& h, const std::string& sig, const std::string& msg, const std::string& text)
        {
            const std::string path = dir + "/" + property_id + "-history-" + p.name + "-" + std::to_string(h.index) + ".replay";
            std::ofstream f(path, std::ios::binary);
            f << "pbt-replay 1\nproperty " << property_id << "\nsub " << p.name << "\nhistory " << seed << ' ' << workers << ' ' << is_thorough << ' ' << scale_factor
              << ' ' << h.index << ' ' << h.back << ' ' << h.all << "\n--- (for the reader)\nThe case fails only in a process that has run the " << (h.all ? std::string() : std::to_string(h.back))
              << " cases before it.\nsignature: " << sig << "\nmessage: " << msg << "\ncase:\n" << text << "\n";
            return path;
        }

        bool read_history(const std::string& path, std::string& sub, History& h)
        {
            std::ifstream f(path, std::ios::binary);
            std::string line;
            bool found = false;
            if (!std::getline(f, line) || line != "pbt-replay 1") return false;
            while (std::getline(f, line) && line.rfind("---", 0) != 0)
            {
                std::istringstream ss(line);
                std::string key;
                ss >> key;
                if (key == "sub") ss >> sub;
                else if (key == "history") { ss >> seed >> workers >> is_thorough >> scale_factor >> h.index >> h.back >> h.all; found = workers > 0 && workers < 1000; }
            }
            return found && !sub.empty();
        }

        bool read_replay(const std::string& path, std::string& sub, Input& in)
        {
            std::ifstream f(path, std::ios::binary);
            std::string line;
            if (!std::getline(f, line) || line != "pbt-replay 1") return false;
            while (std::getline(f, line) && line.rfind("---", 0) != 0)
            {
                std::istringstream ss(line);
                std::string key;
                ss >> key;
                if (key == "sub") ss >> sub;
                else if (key == "data" || key == "schedule") { std::uint64_t v; while (ss >> v) in.s[key == "schedule"].push_back(v); }
            }
            return !sub.empty();
        }
    }

    // ---- Case
    std::uint64_t Case::draw(std::uint64_t bound)
    {
        if (bound == 1) return 0;
        return take(0, bound, [bound] { return rng[0].below(bound); });
    }
    bool Case::flag(double probability)
    {
        return take(0, 2, [probability] { return static_cast<std::uint64_t>(rng[0].real() < probability); }) != 0;
    }
    std::uint64_t Case::sched_draw(std::uint64_t bound)
    {
        if (bound == 1) return 0;
        return take(1, bound, [bound] { return rng[1].below(bound); });
    }
    std::uint64_t Case::sched_weighted(std::uint64_t n, double p0)
    {
        if (n <= 1) return 0;
        return take(1, n, [n, p0] { return rng[1].real() < p0 ? 0 : 1 + rng[1].below(n - 1); });
    }
    long long Case::range(long long lo, long long hi)
    {
        const std::uint64_t span = static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo) + 1;
        return static_cast<long long>(static_cast<std::uint64_t>(lo) + draw(span));
    }
    long long Case::around(long long lo, long long hi)
    {
        if (lo > 0) return range(lo, hi);
        if (hi < 0) return -range(-hi, -lo);
        // zig-zag so that 0 is simplest
        const bool negative = lo < 0 && flag(0.4);
        return negative ? -range(0, -lo) : range(0, hi);
    }
    std::size_t Case::weighted(const std::vector<double>& weights)
    {
        double sum = 0;
        for (double w : weights) sum += w;
        const std::size_t got = static_cast<std::size_t>(take(0, weights.size(), [&]
        {
            double x = rng[0].real() * sum;
            for (std::size_t i = 0; i + 1 < weights.size(); ++i) { if (x < weights[i]) return static_cast<std::uint64_t>(i); x -= weights[i]; }
            return static_cast<std::uint64_t>(weights.size() - 1);
        }));
        // a shrunk case may hold a number that could not have been drawn
        if (weights[got] > 0) return got;
        return static_cast<std::size_t>(std::find_if(weights.begin(), weights.end(), [](double w) { return w > 0; }) - weights.begin());
    }
    std::uint64_t Case::bits()
    {
        switch (draw(7))
        {
        case 0: return draw(16);
        case 1: return ~std::uint64_t(0) - draw(16);
        case 2: { const auto s = draw(64); const auto base = std::uint64_t(1) << s; return base + draw(3) - 1; }
        case 3: { const auto s = draw(64); return ~(std::uint64_t(1) << s) + draw(3); }
        case 4: return draw(0) >> draw(64);
        case 5: return draw(256);
        default: return draw(0);
        }
    }
    std::size_t Case::length(std::size_t max)
    {
        return static_cast<std::size_t>(take(0, max + 1, [max, this]
        {
            const double r = rng[0].real();
            const double cap = std::max(1.0, static_cast<double>(max) * m_scale);
            if (r < 0.6) return std::min<std::uint64_t>(max, rng[0].below(static_cast<std::uint64_t>(std::min(cap, 8.0)) + 1));
            return std::min<std::uint64_t>(max, rng[0].below(static_cast<std::uint64_t>(cap) + 1));
        }));
    }
    std::size_t Case::large(std::size_t max)
    {
        return static_cast<std::size_t>(take(0, max + 1, [max]
        {
            const double r = rng[0].real();
            int bits = 0;
            while ((std::uint64_t(2) << bits) <= max) ++bits;
            const std::uint64_t k = rng[0].below(static_cast<std::uint64_t>(bits) + 1);
            std::uint64_t n;
            if (r < 0.5) n = (std::uint64_t(1) << k) + rng[0].below(5) - 2;
            else if (r < 0.6) { static const std::uint64_t tens[] = { 10, 20, 50, 99, 100, 101, 200, 500, 999, 1000, 1001, 5000, 10000, 50000, 100000 }; n = tens[rng[0].below(15)]; }
            else n = (std::uint64_t(1) << k) + rng[0].below(std::uint64_t(1) << k);
            return n > max ? (n >> 63 ? 0 : rng[0].below(max + 1)) : n;
        }));
    }
    void Case::label(const char* name)
    {
        for (const char* l : case_labels) if (!std::strcmp(l, name)) return;
        case_labels.push_back(name);
    }

    // ---- registry
    std::vector<Prop>& props() { static std::vector<Prop> v; return v; }
    Register::Register(const char* name, Options options, std::function<void(Case&)> run)
    {
        props().push_back({ name, std::move(options), std::move(run) });
    }
    void (*fail_hook)(const std::string&, const std::string&) = nullptr;
    void fail(const std::string& signature, const std::string& message)
    {
        if (fail_hook) fail_hook(signature, message);
        throw Failure{ signature, message };
    }
    // used by fail hooks that end the process at once
    void record_and_exit(const std::string& signature, const std::string& message)
    {
        record_failure(signature, message);
        if (current_case) finish(*current_case);
        _exit(1);
    }
    bool thorough() { return is_thorough; }
    std::string scratch_dir() { return my_scratch; }

    std::string show_bytes(const void* data, std::size_t size)
    {
        std::string r = "\"";
        const unsigned char* p = static_cast<const unsigned char*>(data);
        for (std::size_t i = 0; i < size; ++i)
        {
            char buf[8];
            if (p[i] == '"' || p[i] == '\\') { r += '\\'; r += static_cast<char>(p[i]); }
            else if (p[i] >= 0x20 && p[i] < 0x7f) r += static_cast<char>(p[i]);
            else { std::snprintf(buf, sizeof buf, "\\x%02x", p[i]); r += buf; }
            if (i > 400) { r += "...(" + std::to_string(size) + " bytes)"; break; }
        }
        return r + "\"";
    }

    int main(int argc, char** argv, const char* property, const char* rule)
    {
        property_id = property;
        std::string out, replay, replay_dir = ".", only;
        bool list = false;
        for (int i = 1; i < argc; ++i)
        {
            const std::string a = argv[i];
            const auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--seed") seed = std::strtoull(next().c_str(), nullptr, 10);
            else if (a == "--tier") is_thorough = next() == "thorough";
            else if (a == "--out") out = next();
            else if (a == "--replay") replay = next();
            else if (a == "--replay-dir") replay_dir = next();
            else if (a == "--only") only = next();
            else if (a == "--workers") workers = std::max(1, std::atoi(next().c_str()));
            else if (a == "--budget") time_budget = std::atof(next().c_str());
            else if (a == "--scale") scale_factor = std::atof(next().c_str());
            else if (a == "--known") known.push_back(next());
            else if (a == "--list") list = true;
            else { std::fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
        }
        if (list) { for (auto& p : props()) std::printf("%s %llu\n", p.name.c_str(), static_cast<unsigned long long>(cases_of(p))); return 0; }
        if (props().size() > 256) return 3;
        if (time_budget <= 0) time_budget = is_thorough ? 720 : 540;

        std::string history_sub;
        History history{};
        const bool is_history = !replay.empty() && read_history(replay, history_sub, history);

        const char* tmp = std::getenv("TMPDIR");
        std::string templ = std::string(tmp && *tmp ? tmp : "/tmp") + "/pbt-scratch-XXXXXX";
        if (!mkdtemp(&templ[0])) { std::perror("mkdtemp"); return 3; }
        scratch_base = templ;

        const auto map_shared = [](std::size_t n)
        {
            void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED) { std::perror("mmap"); std::exit(3); }
            return p;
        };
        shms = static_cast<Shm*>(map_shared(sizeof(Shm) * static_cast<std::size_t>(workers + 1)));
        shared = static_cast<Shared*>(map_shared(sizeof(Shared)));
        me = &shms[workers];

        if (is_history)
        {
            std::vector<int> all;
            for (std::size_t pi = 0; pi < props().size(); ++pi)
            {
                if (!props()[pi].options.enabled || props()[pi].options.enabled()) all.push_back(static_cast<int>(pi));
                if (props()[pi].name == history_sub) history.pi = static_cast<int>(pi);
            }
            const bool failed = fails_after(history, all, true);
            std::printf("%s\n", me->nsamples ? me->samples[0].text : "");
            if (failed) std::printf("FAILED %s: %s\n", me->signature, me->message);
            else std::printf("passed\n");
            remove_tree(scratch_base);
            return failed ? 1 : 0;
        }
        if (!replay.empty())
        {
            std::string sub;
            Input in;
            if (!read_replay(replay, sub, in)) { std::fprintf(stderr, "cannot read replay file %s\n", replay.c_str()); return 3; }
            for (std::size_t pi = 0; pi < props().size(); ++pi)
                if (props()[pi].name == sub)
                {
                    const bool failed = fails(props()[pi], static_cast<int>(pi), in, true, 1e9);
                    std::printf("%s\n", me->nsamples ? me->samples[0].text : "");
                    if (failed) std::printf("FAILED %s: %s\n", me->signature, me->message);
                    else std::printf("passed\n");
                    remove_tree(scratch_base);
                    return failed ? 1 : 0;
                }
            std::fprintf(stderr, "unknown sub-property %s\n", sub.c_str());
            remove_tree(scratch_base);
            return 3;
        }

        std::vector<int> selected;
        for (std::size_t i = 0; i < props().size(); ++i)
            if ((only.empty() || props()[i].name == only) && (!props()[i].options.enabled || props()[i].options.enabled()))
                selected.push_back(static_cast<int>(i));
        if (selected.empty()) { std::fprintf(stderr, "nothing to run\n"); remove_tree(scratch_base); return 3; }

        using clk = std::chrono::steady_clock;
        std::vector<pid_t> pids(static_cast<std::size_t>(workers));
        std::vector<std::uint64_t> seen(static_cast<std::size_t>(workers), 0);
        std::vector<clk::time_point> seen_at(static_cast<std::size_t>(workers), clk::now());
        std::fflush(nullptr);
        for (int w = 0; w < workers; ++w)
        {
            const pid_t pid = fork();
            if (pid == 0) _exit(worker_main(w, selected));
            if (pid < 0) { std::perror("fork"); return 3; }
            pids[static_cast<std::size_t>(w)] = pid;
        }
        int alive = workers, failing = -1, failing_status = 0;
        std::vector<IdleWatch> watches(static_cast<std::size_t>(workers));
        const double patience = 180; // wall seconds without finishing a case
        while (alive)
        {
            int status = 0;
            const pid_t r = waitpid(-1, &status, WNOHANG);
            if (r <= 0)
            {
                usleep(5000);
                for (int w = 0; w < workers; ++w)
                {
                    const auto u = static_cast<std::size_t>(w);
                    if (!pids[u]) continue;
                    const double still = std::chrono::duration<double>(clk::now() - seen_at[u]).count();
                    if (shms[w].progress != seen[u]) { seen[u] = shms[w].progress; seen_at[u] = clk::now(); watches[u] = IdleWatch(); }
                    else if (still > patience || (still > 1 && !props()[static_cast<std::size_t>(shms[w].prop)].options.fork_each && watches[u].idle(pids[u]) > IDLE_LIMIT)) { kill(pids[u], SIGPROF); seen_at[u] = clk::now(); }
                }
                continue;
            }
            for (int w = 0; w < workers; ++w)
                if (pids[static_cast<std::size_t>(w)] == r)
                {
                    pids[static_cast<std::size_t>(w)] = 0;
                    --alive;
                    if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0) && failing < 0)
                    {
                        failing = w;
                        failing_status = status;
                        shared->stop = 1;
                        // others may be inside long cases: they stop at the next one; do not wait for them
                        for (pid_t o : pids) if (o) kill(o, SIGKILL);
                    }
                }
        }

        int code = 0;
        std::string failure_json = "null";
        if (failing >= 0)
        {
            Shm& f = shms[failing];
            const int pi = f.prop;
            const Prop& p = props()[static_cast<std::size_t>(pi)];
            std::string sig = f.signature, msg = f.message;
            if (!f.failed) describe_crash(failing_status, scratch_base + "/err" + std::to_string(failing), sig, msg);
            Input original;
            original.s[0] = trimmed(f.choices[0], f.count[0]);
            original.s[1] = trimmed(f.choices[1], f.count[1]);
            std::fprintf(stderr, "failure in %s case %llu: %s: %s\n", p.name.c_str(), static_cast<unsigned long long>(f.index), sig.c_str(), msg.c_str());
            const auto reproduces = [&](const Input& in, int times)
            {
                int k = 0;
                for (int i = 0; i < times; ++i) { Input c = in; k += fails(p, pi, c, false, 1e9); }
                return k;
            };
            Input best = original;
            bool confirmed = false;
            if (reproduces(original, 1) || reproduces(original, 10) > 0)
            {
                Input c = original;
                if (fails(p, pi, c, false, 1e9)) best = c; // normalised
                const Input normal = best;
                shrink(p, pi, best);
                if (reproduces(best, 3) == 3) confirmed = true;
                else { best = normal; confirmed = reproduces(best, 3) > 0; }
            }
            if (confirmed)
            {
                Input c = best;
                std::string text;
                if (fails(p, pi, c, true, 1e9)) { sig = me->signature; msg = me->message; }
                if (me->nsamples) text = me->samples[0].text;
                const std::string path = write_replay(replay_dir, p, best, sig, msg, text);
                failure_json = "{\"sub\":" + json_escape(p.name) + ",\"signature\":" + json_escape(sig) + ",\"message\":" + json_escape(msg) +
                    ",\"case\":" + json_escape(text) + ",\"replay\":" + json_escape(path) + ",\"shrink_runs\":" + std::to_string(tries) + "}";
                code = 1;
            }
            History h{ pi, f.index, 0, false };
            bool by_history = false;
            if (!confirmed)
            {
                for (std::uint64_t back : { std::uint64_t(1), std::uint64_t(2), std::uint64_t(8), std::uint64_t(64), std::uint64_t(512), ~std::uint64_t(0) })
                {
                    h.back = back;
                    if ((by_history = fails_after(h, selected, false))) break;
                }
                if (!by_history) { h.all = true; by_history = fails_after(h, selected, false); }
            }
            if (by_history)
            {
                std::string text;
                if (fails_after(h, selected, true)) { sig = me->signature; msg = me->message; }
                if (me->nsamples) text = me->samples[0].text;
                const std::string path = write_history(replay_dir, p, h, sig, msg, text);
                failure_json = "{\"sub\":" + json_escape(p.name) + ",\"signature\":" + json_escape(sig) + ",\"message\":" + json_escape(msg) +
                    ",\"case\":" + json_escape(text) + ",\"replay\":" + json_escape(path) + ",\"shrink_runs\":" + std::to_string(tries) + "}";
                code = 1;
            }
            else if (!confirmed)
            {
                std::fprintf(stderr, "the failure did not reproduce in 11 replays: error of the check or of the environment\n");
                std::ofstream keep(replay_dir + "/" + property_id + "-unreproduced.txt");
                keep << p.name << "\n" << sig << "\n" << msg << "\n" << read_tail(scratch_base + "/err" + std::to_string(failing), 8000);
                code = 2;
            }
        }

        // ---- report
        std::uint64_t evals = 0, nts = 0, knowns = 0;
        std::map<std::string, std::uint64_t> labels;
        std::string per, samples;
        bool cut = false;
        for (int w = 0; w < workers; ++w)
        {
            if (shms[w].cut) cut = true;
            evals += shms[w].evaluations;
            nts += shms[w].nontrivials;
            knowns += shms[w].known;
            for (int k = 0; k < shms[w].nlabels; ++k) labels[shms[w].labels[k].name] += shms[w].labels[k].count;
        }
        bool starved = false;
        for (int pi : selected)
        {
            std::uint64_t n = 0, nt = 0;
            for (int w = 0; w < workers; ++w) { n += shms[w].per_prop[pi]; nt += shms[w].per_prop_nt[pi]; }
            const Prop& p = props()[static_cast<std::size_t>(pi)];
            per += (per.empty() ? "" : ",") + json_escape(p.name) + ":{\"cases\":" + std::to_string(n) + ",\"nontrivial\":" + std::to_string(nt) +
                (p.options.enumerate ? ",\"exhaustive\":true" : "") + "}";
            if (nt == 0) starved = true;
            for (int w = 0; w < workers; ++w)
                for (int k = 0; k < shms[w].nsamples; ++k)
                    if (shms[w].samples[k].prop == pi)
                        samples += (samples.empty() ? "" : ",") + json_escape(p.name + ": " + std::string(shms[w].samples[k].text).substr(0, 900));
        }
        std::string lab;
        for (auto& l : labels) lab += (lab.empty() ? "" : ",") + json_escape(l.first) + ":" + std::to_string(l.second);
        if (code == 0 && starved && scale_factor >= 1) { std::fprintf(stderr, "a sub-property produced no non-trivial case: generator error\n"); code = 2; }
        const std::string json = "{\"evaluations\":" + std::to_string(evals) + ",\"nontrivial\":" + std::to_string(nts) + ",\"distinct_nontrivial\":" +
            std::to_string(shared->distinct.load()) + ",\"known\":" + std::to_string(knowns) + ",\"rule\":" + json_escape(rule) + ",\"sub_properties\":{" + per +
            "},\"cut_short\":" + (cut ? "true" : "false") + ",\"labels\":{" + lab + "},\"samples\":[" + samples + "],\"failure\":" + failure_json + "}";
        if (!out.empty()) std::ofstream(out, std::ios::binary) << json << "\n";
        else std::printf("%s\n", json.c_str());
        remove_tree(scratch_base);
        return code;
    }
}
