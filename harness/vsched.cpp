// Deterministic scheduler for concurrency properties (implementation).  Compiled without instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vsched.hpp"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>
#include <utime.h>

namespace pbt
{
    [[noreturn]] void record_and_exit(const std::string& signature, const std::string& message);
}

// ------------------------------------------------------------------ raw helpers
static inline long raw6(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

template<class F> static F real(const char* name, const char* version = nullptr)
{
    void* p = version ? dlvsym(RTLD_NEXT, name, version) : dlsym(RTLD_NEXT, name);
    if (!p) p = dlsym(RTLD_NEXT, name);
    F f;
    std::memcpy(&f, &p, sizeof f);
    return f;
}
#define REAL(NAME) ([]{ static const auto f = real<decltype(&NAME)>(#NAME); return f; }())

namespace
{
    constexpr int MAXT = 240;
    constexpr std::size_t STACK = 512 * 1024;
    typedef std::uint32_t Clk;

    // plain malloc containers: the runtime's own memory must not appear in the heap monitor
    template<class T> struct MallocAlloc
    {
        typedef T value_type;
        MallocAlloc() = default;
        template<class U> MallocAlloc(const MallocAlloc<U>&) {}
        T* allocate(std::size_t n) { return static_cast<T*>(std::malloc(n * sizeof(T))); }
        void deallocate(T* p, std::size_t) { std::free(p); }
        template<class U> bool operator==(const MallocAlloc<U>&) const { return true; }
        template<class U> bool operator!=(const MallocAlloc<U>&) const { return false; }
    };
    template<class T> using Vec = std::vector<T, MallocAlloc<T>>;
    template<class K, class V> using Map = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, MallocAlloc<std::pair<const K, V>>>;

    struct VC
    {
        Clk c[MAXT];
        void clear() { std::memset(c, 0, sizeof c); }
        void join(const VC& o, int n) { for (int i = 0; i < n; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
    };

    enum State { UNUSED, RUNNABLE, BLOCKED, QUIESCE, QUIESCE_TIME, EXITED };

    struct Thread
    {
        int index;
        State state;
        bool frozen, detached, joined;
        int go;                    // futex word: 1 = may run
        unsigned long vid;
        const char* what;          // why blocked
        const void* addr;          // on what
        const void* addr2;
        bool timed, timed_out, woken, cond, in_wait, at_join;
        int clock;                 // clock of the deadline
        long long deadline;
        void* (*fn)(void*);
        void* arg;
        void* result;
        pthread_t handle;
        bool real_thread;
        long run_length;
        VC vc;
        int depth;
        void* stack_pc[256];
    };

    struct Sync { VC vc, read_vc; int owner; int count; int readers; bool init; };

    Thread threads[MAXT];
    char* stacks;
    int nthreads;
    int current;
    bool is_active;
    vs::Config cfg;
    pbt::Case* the_case;
    long steps;
    long long vnow;
    std::uint64_t stamps;
    double stay_probability;
    bool may_freeze, may_spurious, may_jump;
    Map<const void*, Sync>* syncs;
    Vec<void*>* quarantine;
    std::size_t quarantined_bytes;
    bool (*fault)(const char*);
    bool (*rename_fault)(const char*);
    unsigned max_alive;
    int join_watcher;
    std::uint64_t join_at;
    std::uint32_t epoch = 1;
    const char* exe_base;

    __thread Thread* tl;    // the virtual thread run by this real thread
    __thread int quiet;

    inline bool on() { return is_active && tl && !quiet; }

    void futex_wait(int* p, int v) { raw6(SYS_futex, reinterpret_cast<long>(p), FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
    void futex_wake(int* p) { raw6(SYS_futex, reinterpret_cast<long>(p), FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

    void wait_go(Thread* t)
    {
        while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) futex_wait(&t->go, 0);
        __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
    }
    void give_go(Thread* t)
    {
        __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
        futex_wake(&t->go);
    }

    std::string where(const void* pc)
    {
        Dl_info info;
        std::string r;
        char buf[64];
        if (dladdr(pc, &info) && info.dli_fname)
        {
            char cmd[512];
            std::snprintf(cmd, sizeof cmd, "addr2line -Cfpsi -e '%s' %lx 2>/dev/null", info.dli_fname, static_cast<unsigned long>(static_cast<const char*>(pc) - static_cast<const char*>(info.dli_fbase) - 1));
            if (FILE* f = popen(cmd, "r"))
            {
                char line[2048];
                if (fgets(line, sizeof line, f))
                {
                    r = line;
                    while (!r.empty() && r.back() == '\n') r.pop_back();
                    if (r.size() > 300) r = r.substr(0, 150) + " ... " + r.substr(r.size() - 140);
                }
                pclose(f);
            }
            if (!r.empty()) return r;
        }
        std::snprintf(buf, sizeof buf, "%p", pc);
        return buf;
    }

    std::string stack_of(const Thread& t)
    {
        std::string r;
        int shown = 0;
        for (int d = std::min(t.depth, 256) - 1; d >= 0 && shown < 14; --d)
        {
            const std::string w = where(t.stack_pc[d]);
            if (w.find("std::") == 0 || w.find("operator new") == 0) continue;
            r += "\n      called from " + w;
            ++shown;
        }
        return r;
    }

    [[noreturn]] void give_up(const std::string& sig, std::string msg)
    {
        is_active = false;
        ++quiet;
        pbt::record_and_exit(sig, msg);
    }

    std::string describe_threads()
    {
        std::string r;
        char buf[200];
        for (int i = 0; i < nthreads; ++i)
        {
            const Thread& t = threads[i];
            if (t.state == EXITED) continue;
            std::snprintf(buf, sizeof buf, "; thread %d %s%s%s", i, t.state == RUNNABLE ? "can run" : t.state == BLOCKED ? "blocked in " : "waits for quiescence",
                t.state == BLOCKED ? t.what : "", t.timed ? " (with deadline)" : "");
            r += buf;
            if (the_case->verbose()) r += stack_of(t);
        }
        return r;
    }

    // ---- choosing who runs
    void wake_timed(Thread& t) { t.timed_out = true; t.state = RUNNABLE; t.timed = false; }
    void fire_deadlines()
    {
        for (int i = 0; i < nthreads; ++i)
            if (threads[i].state == BLOCKED && threads[i].timed && threads[i].deadline <= vnow) wake_timed(threads[i]);
    }
    int earliest_timed()
    {
        int best = -1;
        for (int i = 0; i < nthreads; ++i)
            if (threads[i].state == BLOCKED && threads[i].timed && threads[i].deadline < vs::START + 1000000000000000000ll && (best < 0 || threads[i].deadline < threads[best].deadline)) best = i;
        return best;
    }

    int runnable_others(int* out, bool frozen_too)
    {
        int n = 0;
        for (int k = 1; k < nthreads; ++k)
        {
            const int i = (current + k) % nthreads;
            if (threads[i].state == RUNNABLE && (frozen_too || !threads[i].frozen)) out[n++] = i;
        }
        return n;
    }

    void switch_to(int next)
    {
        Thread* const self = &threads[current];
        if (next == current) return;
        threads[next].run_length = 0;
        current = next;
        const bool exiting = self->state == EXITED;
        give_go(&threads[next]);
        if (!exiting) wait_go(self);
    }

    int pick_blocked() // the current thread cannot run: who does?
    {
        int others[MAXT];
        for (;;)
        {
            fire_deadlines();
            int n = runnable_others(others, false);
            if (n == 0)
            {
                n = runnable_others(others, true);
                for (int i = 0; i < nthreads; ++i) threads[i].frozen = false;
            }
            if (threads[current].state == RUNNABLE) return current; // its deadline has passed
            if (n > 0)
            {
                if (may_jump && earliest_timed() >= 0 && the_case->sched_weighted(24, 0.97) == 1)
                {
                    vnow = std::max(vnow, threads[earliest_timed()].deadline);
                    continue;
                }
                return others[n == 1 ? 0 : the_case->sched_draw(static_cast<std::uint64_t>(n))];
            }
            for (int i = 0; i < nthreads; ++i)
                if (threads[i].state == QUIESCE) { threads[i].state = RUNNABLE; return i; }
            const int t = earliest_timed();
            if (t >= 0) { vnow = std::max(vnow, threads[t].deadline); continue; }
            for (int i = 0; i < nthreads; ++i)
                if (threads[i].state == QUIESCE_TIME) { threads[i].state = RUNNABLE; return i; }
            give_up("deadlock", "every thread is blocked" + describe_threads());
        }
    }

    void block(State s, const char* what, const void* addr)
    {
        Thread& t = threads[current];
        t.state = s;
        t.what = what;
        t.addr = addr;
        switch_to(pick_blocked());
    }

    void count_step()
    {
        vnow += 37;
        if (++steps > cfg.steps) give_up("no-progress", "the case does not finish: " + std::to_string(steps) + " scheduling points" + describe_threads());
    }

    void yield_point(bool voluntary = false)
    {
        count_step();
        Thread& self = threads[current];
        fire_deadlines();
        int others[MAXT];
        const int n = runnable_others(others, false);
        ++self.run_length;
        if (voluntary || self.run_length > 1500)
        {
            self.run_length = 0;
            const int m = n ? n : runnable_others(others, true);
            if (!n) for (int i = 0; i < nthreads; ++i) threads[i].frozen = false;
            if (m) switch_to(others[m == 1 ? 0 : the_case->sched_draw(static_cast<std::uint64_t>(m))]);
            else if (voluntary && earliest_timed() >= 0 && may_jump) { vnow = std::max(vnow, threads[earliest_timed()].deadline); fire_deadlines(); }
            return;
        }
        const int timed = may_jump ? earliest_timed() : -1;
        int waiting[MAXT], w = 0;
        if (may_spurious) for (int i = 0; i < nthreads; ++i) if (threads[i].state == BLOCKED && threads[i].cond) waiting[w++] = i;
        if (n == 0 && timed < 0 && w == 0) return;
        const auto d = the_case->sched_weighted(32, stay_probability);
        if (d == 0) return;
        if (d <= 28 || (d <= 30 && w == 0) || (d == 31 && timed < 0))
        {
            if (n == 0) return;
            if (may_freeze && d % 4 == 0) self.frozen = true;
            switch_to(others[n == 1 ? 0 : the_case->sched_draw(static_cast<std::uint64_t>(n))]);
        }
        else if (d <= 30)
        {
            Thread& t = threads[waiting[w == 1 ? 0 : the_case->sched_draw(static_cast<std::uint64_t>(w))]];
            t.state = RUNNABLE;
        }
        else { vnow = std::max(vnow, threads[timed].deadline); fire_deadlines(); }
    }

    // ------------------------------------------------------------------ vector clocks, shadow memory
    Sync& sync_of(const void* a)
    {
        Sync& s = (*syncs)[a];
        if (!s.init) { std::memset(&s, 0, sizeof s); s.init = true; s.owner = -1; }
        return s;
    }
    VC& myvc() { return threads[current].vc; }
    void tick() { ++myvc().c[current]; }
    void acquire(const VC& v) { myvc().join(v, nthreads); }
    void release(VC& v) { v.join(myvc(), nthreads); tick(); }

    struct Rec { std::uint32_t pc; Clk clk; std::uint8_t tid, mask, flags, pad; };
    enum { WRITE = 1, ATOMIC = 2, FREED = 4 };
    struct Cell { std::uint32_t epoch; std::uint8_t used, next, freed, pad; Rec r[4]; };
    struct Page { std::uintptr_t number; Page* chain; Cell cells[512]; };
    constexpr std::size_t BUCKETS = 1 << 14;
    Page* buckets[BUCKETS];
    Page* last_page;

    Page* page_of(std::uintptr_t number, bool make)
    {
        if (last_page && last_page->number == number) return last_page;
        Page** b = &buckets[(number * 0x9e3779b97f4a7c15ull) >> 50];
        for (Page* p = *b; p; p = p->chain) if (p->number == number) return last_page = p;
        if (!make) return nullptr;
        void* m = mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) std::abort();
        Page* p = static_cast<Page*>(m);
        p->number = number;
        p->chain = *b;
        *b = p;
        return last_page = p;
    }
    Cell* cell_of(std::uintptr_t granule, bool make)
    {
        Page* p = page_of(granule >> 9, make);
        return p ? &p->cells[granule & 511] : nullptr;
    }

    [[noreturn]] void report(const char* kind, std::uintptr_t at, const Rec& old, const void* pc, unsigned flags)
    {
        std::string msg;
        const auto name = [](unsigned f) { return std::string(f & FREED ? "release of memory" : f & ATOMIC ? (f & WRITE ? "atomic write" : "atomic read") : f & WRITE ? "write" : "read"); };
        msg = std::string(kind) + ": " + name(flags) + " by thread " + std::to_string(current) + " and " + name(old.flags) + " by thread " + std::to_string(old.tid) + " are not ordered";
        if (the_case->verbose())
        {
            msg += " (address " + std::to_string(at) + ")\n   second at " + where(pc) + stack_of(threads[current]) + "\n   first at " + where(exe_base + static_cast<std::int32_t>(old.pc));
        }
        give_up(kind, msg);
    }

    inline void access8(std::uintptr_t granule, unsigned mask, unsigned flags, const void* pc)
    {
        Cell* cell = cell_of(granule, true);
        if (cell->epoch != epoch) { cell->epoch = epoch; cell->used = 0; cell->next = 0; cell->freed = 0; }
        if (cell->freed)
        {
            std::string msg = (flags & FREED) ? "memory released twice" : "access to released memory";
            if (the_case->verbose())
            {
                msg += " at " + where(pc) + stack_of(threads[current]);
                for (int i = 0; i < cell->used; ++i) if (cell->r[i].flags & FREED) msg += "\n   released by thread " + std::to_string(cell->r[i].tid) + " at " + where(exe_base + static_cast<std::int32_t>(cell->r[i].pc));
            }
            give_up(flags & FREED ? "double-free" : "use-after-free", msg);
        }
        const VC& vc = myvc();
        const Clk now = vc.c[current];
        int slot = -1;
        for (int i = 0; i < cell->used; ++i)
        {
            Rec& r = cell->r[i];
            if (r.tid == current)
            {
                if (r.clk == now && r.flags == flags && (r.mask & mask) == mask) return; // same epoch
                if ((r.mask & ~mask) == 0 && ((flags & WRITE) || !(r.flags & WRITE)) && !(flags & ATOMIC && !(r.flags & ATOMIC))) slot = i;
                continue;
            }
            if (!(r.mask & mask)) continue;
            if (!((r.flags | flags) & WRITE)) continue;
            if ((r.flags & ATOMIC) && (flags & ATOMIC)) continue;
            if (r.clk <= vc.c[r.tid]) { if ((r.mask & ~mask) == 0 && (flags & WRITE)) slot = i; continue; }
            if (cfg.races) report("data-race", granule << 3, r, pc, flags);
        }
        if (slot < 0)
        {
            if (cell->used < 4) slot = cell->used++;
            else { slot = cell->next; cell->next = (cell->next + 1) & 3; }
        }
        Rec& r = cell->r[slot];
        r.tid = static_cast<std::uint8_t>(current);
        r.clk = now;
        r.mask = static_cast<std::uint8_t>(mask);
        r.flags = static_cast<std::uint8_t>(flags);
        r.pc = static_cast<std::uint32_t>(static_cast<const char*>(pc) - exe_base);
    }

    void access_range(const void* p, std::size_t n, unsigned flags, const void* pc)
    {
        if (!n) return;
        std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p), e = a + n;
        while (a < e)
        {
            const std::uintptr_t g = a >> 3, stop = std::min<std::uintptr_t>(e, (g + 1) << 3);
            const unsigned mask = ((1u << (stop - a)) - 1u) << (a & 7);
            access8(g, mask, flags, pc);
            a = stop;
        }
    }
    void forget_range(const void* p, std::size_t n)
    {
        for (std::uintptr_t g = reinterpret_cast<std::uintptr_t>(p) >> 3; g <= (reinterpret_cast<std::uintptr_t>(p) + (n ? n - 1 : 0)) >> 3; ++g)
            if (Cell* c = cell_of(g, false)) { c->epoch = 0; }
    }

    void sync_touch(const void* p, const void* pc) { access8(reinterpret_cast<std::uintptr_t>(p) >> 3, 1u << (reinterpret_cast<std::uintptr_t>(p) & 7), ATOMIC, pc); }

    // ------------------------------------------------------------------ heap
    void* allocate(std::size_t n, std::size_t align, bool nothrow)
    {
        void* p;
        if (align > 16) { if (posix_memalign(&p, align, n ? n : 1)) p = nullptr; }
        else p = std::malloc(n ? n : 1);
        if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
        if (is_active && tl) forget_range(p, malloc_usable_size(p));
        return p;
    }
    void deallocate(void* p, const void* pc)
    {
        if (!p) return;
        if (!is_active || !tl) { std::free(p); return; }
        const std::size_t n = malloc_usable_size(p);
        if (!quiet)
        {
            access_range(p, n, WRITE | FREED, pc);
            for (std::uintptr_t g = reinterpret_cast<std::uintptr_t>(p) >> 3; g <= (reinterpret_cast<std::uintptr_t>(p) + n - 1) >> 3; ++g) cell_of(g, true)->freed = 1;
            std::memset(p, 0xDD, n);
        }
        else { std::free(p); return; }
        quarantine->push_back(p);
        quarantined_bytes += n;
    }

    // ------------------------------------------------------------------ threads
    void* thread_main(void* a)
    {
        Thread* t = static_cast<Thread*>(a);
        tl = t;
        wait_go(t);
        t->result = t->fn(t->arg);
        // end
        release(sync_of(t).vc);
        t->state = EXITED;
        for (int i = 0; i < nthreads; ++i)
            if (threads[i].state == BLOCKED && threads[i].addr == t) threads[i].state = RUNNABLE;
        const int next = pick_blocked();
        tl = nullptr;
        switch_to(next);
        return nullptr;
    }

    unsigned long free_vid()
    {
        for (unsigned long v = 1;; ++v)
        {
            bool used = false;
            for (int i = 0; i < nthreads; ++i)
                if (threads[i].vid == v && !(threads[i].state == EXITED && (threads[i].detached || threads[i].joined))) used = true;
            if (!used) return v;
        }
    }
    Thread* by_vid(unsigned long v)
    {
        Thread* r = nullptr;
        for (int i = 0; i < nthreads; ++i)
            if (threads[i].vid == v && !(threads[i].state == EXITED && (threads[i].detached || threads[i].joined))) r = &threads[i];
        return r;
    }

    void init_thread(Thread& t, int index)
    {
        t.index = index;
        t.state = RUNNABLE;
        t.frozen = t.detached = t.joined = false;
        t.go = 0;
        t.vid = 0;
        t.what = "";
        t.addr = t.addr2 = nullptr;
        t.timed = t.timed_out = t.woken = t.cond = t.in_wait = t.at_join = false;
        t.run_length = 0;
        t.depth = 0;
        t.vc.clear();
        t.vc.c[index] = 1;
        t.real_thread = false;
    }

    long long to_ns(const timespec& ts) { return static_cast<long long>(ts.tv_sec) * 1000000000ll + ts.tv_nsec; }

    // ------------------------------------------------------------------ mutexes
    void mutex_lock(const void* m, bool recursive)
    {
        Sync* s = &sync_of(m);
        if (s->owner == current && recursive) { ++s->count; return; }
        while (s->owner >= 0) { block(BLOCKED, "locking a mutex", m); s = &sync_of(m); }
        s->owner = current;
        s->count = 1;
        acquire(s->vc);
    }
    void mutex_unlock(const void* m)
    {
        Sync& s = sync_of(m);
        if (s.owner != current) give_up("unlock", "a mutex is unlocked by a thread that does not hold it");
        if (--s.count) return;
        s.owner = -1;
        release(s.vc);
        for (int i = 0; i < nthreads; ++i)
            if (threads[i].state == BLOCKED && threads[i].addr == m && !threads[i].cond) threads[i].state = RUNNABLE;
    }

    int cond_wait(const void* c, pthread_mutex_t* m, bool timed, int clock, long long deadline)
    {
        (void)clock;
        yield_point();
        Thread& t = threads[current];
        mutex_unlock(m);
        t.cond = t.in_wait = true;
        t.timed = timed;
        t.timed_out = false;
        t.deadline = deadline;
        block(BLOCKED, "waiting for a condition variable", c);
        t.cond = t.timed = false;
        const bool out = t.timed_out;
        t.timed_out = false;
        mutex_lock(m, false);
        t.in_wait = false;
        return out ? ETIMEDOUT : 0;
    }
    void cond_notify(const void* c, bool all)
    {
        int w[MAXT], n = 0;
        for (int i = 0; i < nthreads; ++i)
            if (threads[i].state == BLOCKED && threads[i].cond && threads[i].addr == c) w[n++] = i;
        if (!n) return;
        if (all) for (int i = 0; i < n; ++i) threads[w[i]].state = RUNNABLE;
        else threads[w[n == 1 ? 0 : the_case->sched_draw(static_cast<std::uint64_t>(n))]].state = RUNNABLE;
    }

    int sleep_to(long long deadline, const char* what)
    {
        yield_point();
        if (deadline <= vnow) return 0;
        Thread& t = threads[current];
        t.timed = true;
        t.deadline = deadline;
        block(BLOCKED, what, nullptr);
        t.timed = t.timed_out = false;
        return 0;
    }

    void warm_up()
    {
        static bool done = false;
        if (done) return;
        done = true;
        std::ostringstream s;
        std::tm tm{};
        tm.tm_mday = 1;
        s << std::put_time(&tm, "%Y-%m-%d %H:%M:%S.") << std::setw(6) << std::setfill('0') << 12 << 1.5 << "x" << 'c' << std::string("a") << std::endl;
        std::ofstream f("/dev/null", std::ios::app | std::ios::ate);
        f << s.str() << 17 << std::endl;
        f.tellp();
        std::tm r;
        std::time_t z = 1700000000;
        localtime_r(&z, &r);
        gmtime_r(&z, &r);
        std::istringstream in("12");
        int v;
        in >> v;
    }
}

// ------------------------------------------------------------------ public interface
namespace vs
{
    bool active() { return is_active && tl; }
    Quiet::Quiet() { ++quiet; }
    Quiet::~Quiet() { --quiet; }
    void point() { if (on()) yield_point(); }
    long long now() { return vnow; }
    std::uint64_t stamp() { return ++stamps; }
    int self() { return tl ? tl->index : 0; }
    void allow_jumps(bool v) { may_jump = v; }
    void advance(long long ns) { vnow += ns; }
    void sleep_until(long long ns) { if (on()) sleep_to(ns, "sleeping"); }
    void thread_limit(unsigned n) { max_alive = n; }
    void file_faults(bool (*f)(const char*), bool (*r)(const char*)) { fault = f; rename_fault = r; }
    unsigned threads_created() { return static_cast<unsigned>(nthreads); }
    unsigned threads_alive()
    {
        unsigned n = 0;
        for (int i = 0; i < nthreads; ++i) n += threads[i].state != EXITED;
        return n;
    }
    void quiesce(bool let_time_pass)
    {
        if (!on()) return;
        count_step();
        block(let_time_pass ? QUIESCE_TIME : QUIESCE, "", nullptr);
    }
    void allow_spurious(bool v) { may_spurious = v; }
    void watch_join() { join_watcher = current; join_at = 0; }
    std::uint64_t join_stamp() { return join_at; }
    bool waiting_at_join(int t) { return threads[t].at_join; }
    bool others_blocked()
    {
        for (int i = 0; i < nthreads; ++i) if (i != current && threads[i].state == RUNNABLE) return false;
        return true;
    }
    void Gate::wait()
    {
        if (!active()) return;
        yield_point();
        while (!m_open) block(BLOCKED, "waiting for the test", this);
    }
    void Gate::open()
    {
        m_open = true;
        if (!active()) return;
        for (int i = 0; i < nthreads; ++i) if (threads[i].state == BLOCKED && threads[i].addr == this) threads[i].state = RUNNABLE;
        if (on()) yield_point();
    }
    void fail(const std::string& s, const std::string& m) { give_up(s, m); }

    void run(pbt::Case& c, const Config& config, const std::function<void()>& body)
    {
        warm_up();
        if (!stacks)
        {
            stacks = static_cast<char*>(mmap(nullptr, STACK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            syncs = new (std::malloc(sizeof *syncs)) Map<const void*, Sync>();
            quarantine = new (std::malloc(sizeof *quarantine)) Vec<void*>();
            Dl_info info;
            dladdr(reinterpret_cast<const void*>(&warm_up), &info);
            exe_base = static_cast<const char*>(info.dli_fbase);
        }
        cfg = config;
        the_case = &c;
        steps = 0;
        stamps = 0;
        vnow = START;
        ++epoch;
        syncs->clear();
        nthreads = 1;
        current = 0;
        init_thread(threads[0], 0);
        threads[0].vid = 1;
        static const double stays[] = { 0.5, 0.7, 0.85, 0.93, 0.97, 0.2 };
        stay_probability = stays[c.draw(6)];
        may_freeze = c.draw(2) != 0;
        may_spurious = config.spurious && c.draw(3) == 1;
        may_jump = config.jumps && c.draw(3) == 1;
        fault = nullptr;
        rename_fault = nullptr;
        join_watcher = -1;
        join_at = 0;
        pbt::fail_hook = [](const std::string& s, const std::string& m) { give_up(s, m); };
        tl = &threads[0];
        quiet = 0;
        is_active = true;
        try { body(); }
        catch (const std::exception& e) { give_up("exception", std::string("unexpected exception: ") + e.what()); }
        // let the remaining threads end
        for (;;)
        {
            int left = 0;
            for (int i = 1; i < nthreads; ++i) if (threads[i].state != EXITED) left = i;
            if (!left) break;
            may_spurious = false;
            block(BLOCKED, "waiting for the other threads to end", &threads[left]);
        }
        is_active = false;
        tl = nullptr;
        pbt::fail_hook = nullptr;
        for (int i = 1; i < nthreads; ++i) if (threads[i].real_thread) REAL(pthread_join)(threads[i].handle, nullptr);
        for (void* p : *quarantine) std::free(p);
        quarantine->clear();
        quarantined_bytes = 0;
        fault = nullptr;
        rename_fault = nullptr;
        max_alive = 0;
    }
}

// ------------------------------------------------------------------ interposed functions
#define PC __builtin_return_address(0)
extern "C"
{
    pthread_t pthread_self(void) noexcept
    {
        if (is_active && tl) return tl->vid;
        return REAL(pthread_self)();
    }

    int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) noexcept
    {
        if (!on()) return REAL(pthread_create)(out, attr, fn, arg);
        yield_point();
        if (max_alive && vs::threads_alive() >= max_alive) return EAGAIN;
        int index = nthreads;
        Clk before = 0; // clock of the thread that had the slot
        if (nthreads >= MAXT)
        {
            // the slot of a thread that has been joined; its successor's clock goes on where its own ended
            for (index = 1; index < MAXT && !(threads[index].state == EXITED && (threads[index].joined || threads[index].detached)); ++index) {}
            if (index == MAXT) give_up("harness", "too many threads at the same time");
            before = threads[index].vc.c[index];
            if (threads[index].real_thread) REAL(pthread_join)(threads[index].handle, nullptr);
            syncs->erase(&threads[index]);
        }
        Thread& t = threads[index];
        init_thread(t, index);
        t.vc.c[index] += before;
        t.vid = 0;
        t.vid = free_vid();
        if (index == nthreads) ++nthreads;
        t.fn = fn;
        t.arg = arg;
        if (attr)
        {
            int st = 0;
            pthread_attr_getdetachstate(attr, &st);
            t.detached = st == PTHREAD_CREATE_DETACHED;
        }
        const Clk own = t.vc.c[index];
        t.vc = myvc();
        t.vc.c[index] = own;
        tick();
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstack(&a, stacks + STACK * static_cast<std::size_t>(index), STACK);
        const int rc = REAL(pthread_create)(&t.handle, &a, &thread_main, &t);
        pthread_attr_destroy(&a);
        if (rc) give_up("harness", "cannot create a thread");
        t.real_thread = true;
        *out = t.vid;
        yield_point();
        return 0;
    }

    int pthread_join(pthread_t id, void** result)
    {
        if (!on()) return REAL(pthread_join)(id, result);
        if (join_watcher == current)
        {
            join_watcher = -1;
            join_at = ++stamps;
            for (int i = 0; i < nthreads; ++i) threads[i].at_join = threads[i].state != EXITED && threads[i].in_wait;
        }
        yield_point();
        Thread* t = by_vid(id);
        if (!t || t->detached) give_up("join", "a thread that is not joinable is joined");
        while (t->state != EXITED) block(BLOCKED, "joining a thread", t);
        t->joined = true;
        acquire(sync_of(t).vc);
        if (result) *result = t->result;
        return 0;
    }

    int pthread_detach(pthread_t id) noexcept
    {
        if (!on()) return REAL(pthread_detach)(id);
        yield_point();
        Thread* t = by_vid(id);
        if (!t || t->detached) give_up("detach", "a thread that is not joinable is detached");
        t->detached = true;
        return 0;
    }

    int pthread_mutex_lock(pthread_mutex_t* m) noexcept
    {
        if (!on()) return REAL(pthread_mutex_lock)(m);
        yield_point();
        sync_touch(m, PC);
        mutex_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP);
        return 0;
    }
    int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
    {
        if (!on()) return REAL(pthread_mutex_trylock)(m);
        yield_point();
        sync_touch(m, PC);
        Sync& s = sync_of(m);
        if (s.owner >= 0 && !(s.owner == current && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)) return EBUSY;
        mutex_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP);
        return 0;
    }
    static int timedlock(pthread_mutex_t* m, const timespec* ts, const void* pc)
    {
        yield_point();
        sync_touch(m, pc);
        Thread& t = threads[current];
        while (sync_of(m).owner >= 0)
        {
            t.timed = true;
            t.timed_out = false;
            t.deadline = to_ns(*ts);
            if (t.deadline <= vnow) { t.timed = false; return ETIMEDOUT; }
            block(BLOCKED, "locking a mutex", m);
            t.timed = false;
        }
        t.timed_out = false;
        mutex_lock(m, false);
        return 0;
    }
    int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) noexcept
    {
        if (!on()) return REAL(pthread_mutex_timedlock)(m, ts);
        return timedlock(m, ts, PC);
    }
    int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts) noexcept
    {
        if (!on()) return REAL(pthread_mutex_clocklock)(m, c, ts);
        return timedlock(m, ts, PC);
    }
    int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
    {
        if (!on()) return REAL(pthread_mutex_unlock)(m);
        sync_touch(m, PC);
        mutex_unlock(m);
        yield_point();
        return 0;
    }
    int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
    {
        if (!on()) return REAL(pthread_mutex_destroy)(m);
        if (sync_of(m).owner >= 0) give_up("destroy", "a locked mutex is destroyed");
        return 0;
    }

    int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) noexcept
    {
        return REAL(pthread_cond_init)(c, a);
    }
    int pthread_cond_destroy(pthread_cond_t* c) noexcept
    {
        if (!on()) return REAL(pthread_cond_destroy)(c);
        for (int i = 0; i < nthreads; ++i)
            if (threads[i].state == BLOCKED && threads[i].cond && threads[i].addr == c) give_up("destroy", "a condition variable is destroyed while a thread waits for it");
        return 0;
    }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        if (!on()) return REAL(pthread_cond_wait)(c, m);
        sync_touch(c, PC);
        sync_touch(m, PC);
        return cond_wait(c, m, false, 0, 0);
    }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
    {
        if (!on()) return REAL(pthread_cond_timedwait)(c, m, ts);
        sync_touch(c, PC);
        sync_touch(m, PC);
        return cond_wait(c, m, true, CLOCK_REALTIME, to_ns(*ts));
    }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clock, const timespec* ts)
    {
        if (!on()) return REAL(pthread_cond_clockwait)(c, m, clock, ts);
        sync_touch(c, PC);
        sync_touch(m, PC);
        return cond_wait(c, m, true, clock, to_ns(*ts));
    }
    int pthread_cond_signal(pthread_cond_t* c) noexcept
    {
        if (!on()) return REAL(pthread_cond_signal)(c);
        yield_point();
        sync_touch(c, PC);
        cond_notify(c, false);
        return 0;
    }
    int pthread_cond_broadcast(pthread_cond_t* c) noexcept
    {
        if (!on()) return REAL(pthread_cond_broadcast)(c);
        yield_point();
        sync_touch(c, PC);
        cond_notify(c, true);
        return 0;
    }

    // ---- rwlocks
    static int rd(pthread_rwlock_t* l, const timespec* ts, bool wait)
    {
        Thread& t = threads[current];
        while (sync_of(l).owner >= 0)
        {
            if (!wait) return EBUSY;
            if (sync_of(l).owner == current) return EDEADLK;
            if (ts && to_ns(*ts) <= vnow) return ETIMEDOUT;
            t.timed = ts != nullptr;
            if (ts) t.deadline = to_ns(*ts);
            block(BLOCKED, "locking a shared mutex for reading", l);
            t.timed = t.timed_out = false;
        }
        Sync& s = sync_of(l);
        ++s.readers;
        acquire(s.vc);
        return 0;
    }
    static int wr(pthread_rwlock_t* l, const timespec* ts, bool wait)
    {
        Thread& t = threads[current];
        while (sync_of(l).owner >= 0 || sync_of(l).readers > 0)
        {
            if (!wait) return EBUSY;
            if (sync_of(l).owner == current) return EDEADLK;
            if (ts && to_ns(*ts) <= vnow) return ETIMEDOUT;
            t.timed = ts != nullptr;
            if (ts) t.deadline = to_ns(*ts);
            block(BLOCKED, "locking a shared mutex for writing", l);
            t.timed = t.timed_out = false;
        }
        Sync& s = sync_of(l);
        s.owner = current;
        acquire(s.vc);
        acquire(s.read_vc);
        return 0;
    }
    int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept
    {
        if (!on()) return REAL(pthread_rwlock_rdlock)(l);
        yield_point();
        sync_touch(l, PC);
        return rd(l, nullptr, true);
    }
    int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept
    {
        if (!on()) return REAL(pthread_rwlock_wrlock)(l);
        yield_point();
        sync_touch(l, PC);
        return wr(l, nullptr, true);
    }
    int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept
    {
        if (!on()) return REAL(pthread_rwlock_tryrdlock)(l);
        yield_point();
        sync_touch(l, PC);
        return rd(l, nullptr, false);
    }
    int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept
    {
        if (!on()) return REAL(pthread_rwlock_trywrlock)(l);
        yield_point();
        sync_touch(l, PC);
        return wr(l, nullptr, false);
    }
    int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const timespec* ts) noexcept
    {
        if (!on()) return REAL(pthread_rwlock_timedrdlock)(l, ts);
        yield_point();
        return rd(l, ts, true);
    }
    int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const timespec* ts) noexcept
    {
        if (!on()) return REAL(pthread_rwlock_timedwrlock)(l, ts);
        yield_point();
        return wr(l, ts, true);
    }
    int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const timespec* ts) noexcept
    {
        if (!on()) return REAL(pthread_rwlock_clockrdlock)(l, c, ts);
        yield_point();
        return rd(l, ts, true);
    }
    int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const timespec* ts) noexcept
    {
        if (!on()) return REAL(pthread_rwlock_clockwrlock)(l, c, ts);
        yield_point();
        return wr(l, ts, true);
    }
    int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept
    {
        if (!on()) return REAL(pthread_rwlock_unlock)(l);
        sync_touch(l, PC);
        Sync& s = sync_of(l);
        if (s.owner == current) { s.owner = -1; release(s.vc); }
        else if (s.readers > 0) { --s.readers; release(s.read_vc); }
        else give_up("unlock", "a shared mutex that is not locked is unlocked");
        for (int i = 0; i < nthreads; ++i)
            if (threads[i].state == BLOCKED && threads[i].addr == l) threads[i].state = RUNNABLE;
        yield_point();
        return 0;
    }

    // ---- once, local statics
    int pthread_once(pthread_once_t* o, void (*fn)(void))
    {
        if (!on()) return REAL(pthread_once)(o, fn);
        yield_point();
        sync_touch(o, PC);
        for (;;)
        {
            if (*o == 2) { acquire(sync_of(o).vc); return 0; }
            if (*o == 0) break;
            block(BLOCKED, "waiting for std::call_once", o);
        }
        *o = 1;
        const auto wake = [&] { for (int i = 0; i < nthreads; ++i) if (threads[i].state == BLOCKED && threads[i].addr == o) threads[i].state = RUNNABLE; };
        try { fn(); }
        catch (...) { *o = 0; wake(); throw; }
        *o = 2;
        release(sync_of(o).vc);
        wake();
        return 0;
    }

    int __cxa_guard_acquire(std::int64_t* g)
    {
        char* b = reinterpret_cast<char*>(g);
        if (b[0]) { if (on()) acquire(sync_of(g).vc); return 0; }
        if (on())
        {
            yield_point();
            while (!b[0] && b[1]) block(BLOCKED, "waiting for a local static", g);
            if (b[0]) { acquire(sync_of(g).vc); return 0; }
        }
        b[1] = 1;
        return 1;
    }
    void __cxa_guard_release(std::int64_t* g)
    {
        char* b = reinterpret_cast<char*>(g);
        b[1] = 0;
        __atomic_store_n(&b[0], 1, __ATOMIC_RELEASE);
        if (is_active && tl)
        {
            release(sync_of(g).vc);
            for (int i = 0; i < nthreads; ++i) if (threads[i].state == BLOCKED && threads[i].addr == g) threads[i].state = RUNNABLE;
        }
    }
    void __cxa_guard_abort(std::int64_t* g)
    {
        char* b = reinterpret_cast<char*>(g);
        b[1] = 0;
        if (is_active && tl)
            for (int i = 0; i < nthreads; ++i) if (threads[i].state == BLOCKED && threads[i].addr == g) threads[i].state = RUNNABLE;
    }

    // ---- futexes (std::promise, std::atomic::wait)
    long syscall(long n, ...) noexcept
    {
        va_list ap;
        va_start(ap, n);
        long a[6];
        for (long& v : a) v = va_arg(ap, long);
        va_end(ap);
        if (n == SYS_futex && on())
        {
            const int op = static_cast<int>(a[1]) & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
            int* const p = reinterpret_cast<int*>(a[0]);
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
            {
                yield_point();
                sync_touch(p, PC);
                if (*p != static_cast<int>(a[2])) { errno = EAGAIN; return -1; }
                Thread& t = threads[current];
                const timespec* ts = reinterpret_cast<const timespec*>(a[3]);
                t.timed = ts != nullptr;
                t.timed_out = false;
                if (ts) t.deadline = op == FUTEX_WAIT ? vnow + to_ns(*ts) : to_ns(*ts);
                block(BLOCKED, "waiting for a future or an atomic", p);
                const bool out = t.timed_out;
                t.timed = t.timed_out = false;
                if (out) { errno = ETIMEDOUT; return -1; }
                return 0;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
            {
                yield_point();
                long woken = 0;
                for (int i = 0; i < nthreads && woken < a[2]; ++i)
                    if (threads[i].state == BLOCKED && threads[i].addr == p && !threads[i].cond) { threads[i].state = RUNNABLE; ++woken; }
                return woken;
            }
        }
        const long r = raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
        if (r < 0 && r > -4096) { errno = static_cast<int>(-r); return -1; }
        return r;
    }

    // ---- time
    int clock_gettime(clockid_t id, timespec* ts) noexcept
    {
        if (!(is_active && tl) || (id != CLOCK_REALTIME && id != CLOCK_MONOTONIC))
        {
            const long r = raw6(SYS_clock_gettime, id, reinterpret_cast<long>(ts), 0, 0, 0, 0);
            if (r < 0) { errno = static_cast<int>(-r); return -1; }
            return 0;
        }
        if (on()) yield_point();
        ts->tv_sec = vnow / 1000000000ll;
        ts->tv_nsec = vnow % 1000000000ll;
        return 0;
    }
    int sched_yield(void) noexcept
    {
        if (!on()) return REAL(sched_yield)();
        yield_point(true);
        return 0;
    }
    int nanosleep(const timespec* ts, timespec* rem)
    {
        if (!on()) return REAL(nanosleep)(ts, rem);
        return sleep_to(vnow + to_ns(*ts), "sleeping");
    }
    int clock_nanosleep(clockid_t id, int flags, const timespec* ts, timespec* rem)
    {
        if (!on()) return REAL(clock_nanosleep)(id, flags, ts, rem);
        return sleep_to((flags & TIMER_ABSTIME ? 0 : vnow) + to_ns(*ts), "sleeping");
    }
    int usleep(useconds_t us)
    {
        if (!on()) return REAL(usleep)(us);
        return sleep_to(vnow + static_cast<long long>(us) * 1000, "sleeping");
    }

    // ---- files: scheduling points
    FILE* fopen(const char* path, const char* mode)
    {
        if (on())
        {
            yield_point();
            if (fault)
            {
                vs::Quiet q;
                if (fault(path)) { errno = EACCES; return nullptr; }
            }
        }
        return REAL(fopen)(path, mode);
    }
    ssize_t write(int fd, const void* p, size_t n)
    {
        if (on()) yield_point();
        return REAL(write)(fd, p, n);
    }
    ssize_t writev(int fd, const iovec* v, int n)
    {
        if (on()) yield_point();
        return REAL(writev)(fd, v, n);
    }
    int rename(const char* a, const char* b) noexcept
    {
        if (on())
        {
            yield_point();
            if (rename_fault)
            {
                vs::Quiet q;
                if (rename_fault(a)) { errno = EACCES; return -1; }
            }
        }
        return REAL(rename)(a, b);
    }

    // ---- memory
    __attribute__((noinline)) void* memcpy(void* __restrict d, const void* __restrict s, size_t n) noexcept
    {
        if (on() && n) { access_range(s, n, 0, PC); access_range(d, n, WRITE, PC); }
        void* r = d;
        __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
        return r;
    }
    __attribute__((noinline)) void* memmove(void* d, const void* s, size_t n) noexcept
    {
        if (on() && n) { access_range(s, n, 0, PC); access_range(d, n, WRITE, PC); }
        void* r = d;
        if (static_cast<char*>(d) <= static_cast<const char*>(s) || static_cast<char*>(d) >= static_cast<const char*>(s) + n)
            __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
        else
        {
            char* dd = static_cast<char*>(d) + n - 1;
            const char* ss = static_cast<const char*>(s) + n - 1;
            __asm__ volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
        }
        return r;
    }

    void* __cxa_allocate_exception(std::size_t n) noexcept
    {
        static const auto f = real<void* (*)(std::size_t)>("__cxa_allocate_exception");
        void* p = f(n);
        if (is_active && tl) forget_range(static_cast<char*>(p) - 128, n + 128);
        return p;
    }
}

void* operator new(std::size_t n) { return allocate(n, 0, false); }
void* operator new[](std::size_t n) { return allocate(n, 0, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return allocate(n, 0, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return allocate(n, 0, true); }
void* operator new(std::size_t n, std::align_val_t a) { return allocate(n, static_cast<std::size_t>(a), false); }
void* operator new[](std::size_t n, std::align_val_t a) { return allocate(n, static_cast<std::size_t>(a), false); }
void operator delete(void* p) noexcept { deallocate(p, PC); }
void operator delete[](void* p) noexcept { deallocate(p, PC); }
void operator delete(void* p, std::size_t) noexcept { deallocate(p, PC); }
void operator delete[](void* p, std::size_t) noexcept { deallocate(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { deallocate(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { deallocate(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { deallocate(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { deallocate(p, PC); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { deallocate(p, PC); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { deallocate(p, PC); }

// ------------------------------------------------------------------ container code of the (uninstrumented) standard library
namespace std
{
    namespace __detail
    {
// the words that the library's code reads and writes
#define WORD(FIELD, FLAGS) do { if (on()) access_range(&(FIELD), sizeof(FIELD), FLAGS, PC); } while (0)
        void _List_node_base::_M_hook(_List_node_base* const position) noexcept
        {
            WORD(_M_next, WRITE); WORD(_M_prev, WRITE); WORD(position->_M_prev, WRITE); WORD(position->_M_prev->_M_next, WRITE);
            _M_next = position;
            _M_prev = position->_M_prev;
            position->_M_prev->_M_next = this;
            position->_M_prev = this;
        }
        void _List_node_base::_M_unhook() noexcept
        {
            WORD(_M_next, 0); WORD(_M_prev, 0); WORD(_M_prev->_M_next, WRITE); WORD(_M_next->_M_prev, WRITE);
            _List_node_base* const next = _M_next;
            _List_node_base* const prev = _M_prev;
            prev->_M_next = next;
            next->_M_prev = prev;
        }
        void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
        {
            if (this == last) return;
            WORD(_M_prev, WRITE); WORD(first->_M_prev, WRITE); WORD(last->_M_prev, WRITE);
            WORD(last->_M_prev->_M_next, WRITE); WORD(first->_M_prev->_M_next, WRITE); WORD(_M_prev->_M_next, WRITE);
            last->_M_prev->_M_next = this;
            first->_M_prev->_M_next = last;
            _M_prev->_M_next = first;
            _List_node_base* const tmp = _M_prev;
            _M_prev = last->_M_prev;
            last->_M_prev = first->_M_prev;
            first->_M_prev = tmp;
        }
        void _List_node_base::_M_reverse() noexcept
        {
            _List_node_base* t = this;
            do
            {
                WORD(t->_M_next, WRITE); WORD(t->_M_prev, WRITE);
                std::swap(t->_M_next, t->_M_prev);
                t = t->_M_prev;
            }
            while (t != this);
        }
        void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
        {
            for (_List_node_base* n : { &x, &y })
            {
                WORD(n->_M_next, WRITE); WORD(n->_M_prev, WRITE);
                if (n->_M_next != n) { WORD(n->_M_next->_M_prev, WRITE); WORD(n->_M_prev->_M_next, WRITE); }
            }
            std::swap(x._M_next, y._M_next);
            std::swap(x._M_prev, y._M_prev);
            const auto settle = [](_List_node_base& n, _List_node_base& other)
            {
                if (n._M_next == &other) n._M_next = n._M_prev = &n; // the other was empty
                else n._M_next->_M_prev = n._M_prev->_M_next = &n;
            };
            settle(x, y);
            settle(y, x);
        }
    }
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw()
    {
        static const auto f = real<void (*)(bool, _Rb_tree_node_base*, _Rb_tree_node_base*, _Rb_tree_node_base&)>("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
        if (on()) { access_range(x, sizeof *x, WRITE, PC); access_range(p, sizeof *p, WRITE, PC); access_range(&header, sizeof header, WRITE, PC); }
        f(left, x, p, header);
    }
    _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw()
    {
        static const auto f = real<_Rb_tree_node_base* (*)(_Rb_tree_node_base*, _Rb_tree_node_base&)>("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
        if (on()) { access_range(z, sizeof *z, WRITE, PC); access_range(&header, sizeof header, WRITE, PC); }
        return f(z, header);
    }
    _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
    {
        static const auto f = real<_Rb_tree_node_base* (*)(_Rb_tree_node_base*)>("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
        if (on()) access_range(x, sizeof *x, 0, PC);
        return f(x);
    }
    const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
    _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
    {
        static const auto f = real<_Rb_tree_node_base* (*)(_Rb_tree_node_base*)>("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base");
        if (on()) access_range(x, sizeof *x, 0, PC);
        return f(x);
    }
    const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
}

// ------------------------------------------------------------------ instrumentation callbacks (-fsanitize=thread)
extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void* pc)
    {
        if (!(is_active && tl)) return;
        Thread& t = *tl;
        if (t.depth < 256) t.stack_pc[t.depth] = pc;
        ++t.depth;
    }
    void __tsan_func_exit()
    {
        if (!(is_active && tl)) return;
        if (tl->depth > 0) --tl->depth;
    }

#define ACCESS(N) \
    void __tsan_read##N(void* p) { if (on()) access_range(p, N, 0, PC); } \
    void __tsan_write##N(void* p) { if (on()) access_range(p, N, WRITE, PC); } \
    void __tsan_unaligned_read##N(void* p) { if (on()) access_range(p, N, 0, PC); } \
    void __tsan_unaligned_write##N(void* p) { if (on()) access_range(p, N, WRITE, PC); } \
    void __tsan_volatile_read##N(void* p) { if (on()) access_range(p, N, 0, PC); } \
    void __tsan_volatile_write##N(void* p) { if (on()) access_range(p, N, WRITE, PC); }
    ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
    void __tsan_read_range(void* p, std::size_t n) { if (on()) access_range(p, n, 0, PC); }
    void __tsan_write_range(void* p, std::size_t n) { if (on()) access_range(p, n, WRITE, PC); }
    void __tsan_vptr_update(void** p, void* v) { if (on() && *p != v) access_range(p, 8, WRITE, PC); }
    void __tsan_vptr_read(void** p) { if (on()) access_range(p, 8, 0, PC); }

    // memory orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
    static void before(const volatile void* p, std::size_t n, bool writes, int mo, const void* pc)
    {
        if (!on()) return;
        yield_point();
        access_range(const_cast<const void*>(p), n, ATOMIC | (writes ? WRITE : 0), pc);
        Sync& s = sync_of(const_cast<const void*>(p));
        if (writes && mo >= 3) s.vc.join(myvc(), nthreads);
    }
    static void after(const volatile void* p, bool reads, bool writes, int mo)
    {
        if (!on()) return;
        if (reads && (mo == 1 || mo == 2 || mo >= 4)) acquire(sync_of(const_cast<const void*>(p)).vc);
        if (writes && mo >= 3) tick();
    }

#define ATOMICS(BITS, T) \
    T __tsan_atomic##BITS##_load(const volatile T* p, int mo) { before(p, sizeof(T), false, mo, PC); const T v = __atomic_load_n(p, 5); after(p, true, false, mo); return v; } \
    void __tsan_atomic##BITS##_store(volatile T* p, T v, int mo) { before(p, sizeof(T), true, mo, PC); __atomic_store_n(p, v, 5); after(p, false, true, mo); } \
    T __tsan_atomic##BITS##_exchange(volatile T* p, T v, int mo) { before(p, sizeof(T), true, mo, PC); const T r = __atomic_exchange_n(p, v, 5); after(p, true, true, mo); return r; } \
    T __tsan_atomic##BITS##_fetch_add(volatile T* p, T v, int mo) { before(p, sizeof(T), true, mo, PC); const T r = __atomic_fetch_add(p, v, 5); after(p, true, true, mo); return r; } \
    T __tsan_atomic##BITS##_fetch_sub(volatile T* p, T v, int mo) { before(p, sizeof(T), true, mo, PC); const T r = __atomic_fetch_sub(p, v, 5); after(p, true, true, mo); return r; } \
    T __tsan_atomic##BITS##_fetch_and(volatile T* p, T v, int mo) { before(p, sizeof(T), true, mo, PC); const T r = __atomic_fetch_and(p, v, 5); after(p, true, true, mo); return r; } \
    T __tsan_atomic##BITS##_fetch_or(volatile T* p, T v, int mo) { before(p, sizeof(T), true, mo, PC); const T r = __atomic_fetch_or(p, v, 5); after(p, true, true, mo); return r; } \
    T __tsan_atomic##BITS##_fetch_xor(volatile T* p, T v, int mo) { before(p, sizeof(T), true, mo, PC); const T r = __atomic_fetch_xor(p, v, 5); after(p, true, true, mo); return r; } \
    T __tsan_atomic##BITS##_fetch_nand(volatile T* p, T v, int mo) { before(p, sizeof(T), true, mo, PC); const T r = __atomic_fetch_nand(p, v, 5); after(p, true, true, mo); return r; } \
    bool __tsan_atomic##BITS##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { before(p, sizeof(T), true, mo, PC); const bool r = __atomic_compare_exchange_n(p, e, v, false, 5, 5); after(p, true, true, mo); return r; } \
    bool __tsan_atomic##BITS##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { before(p, sizeof(T), true, mo, PC); const bool r = __atomic_compare_exchange_n(p, e, v, false, 5, 5); after(p, true, true, mo); return r; } \
    T __tsan_atomic##BITS##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) { before(p, sizeof(T), true, mo, PC); __atomic_compare_exchange_n(p, &e, v, false, 5, 5); after(p, true, true, mo); return e; }
    ATOMICS(8, std::uint8_t)
    ATOMICS(16, std::uint16_t)
    ATOMICS(32, std::uint32_t)
    ATOMICS(64, std::uint64_t)

    void __tsan_atomic_thread_fence(int mo)
    {
        if (!on()) return;
        static char fence;
        if (mo >= 3) sync_of(&fence).vc.join(myvc(), nthreads);
        acquire(sync_of(&fence).vc);
        tick();
    }
    void __tsan_atomic_signal_fence(int) {}
    void* __tsan_memcpy(void* d, const void* s, std::size_t n) { return memcpy(d, s, n); }
    void* __tsan_memmove(void* d, const void* s, std::size_t n) { return memmove(d, s, n); }
    void* __tsan_memset(void* d, int v, std::size_t n) { if (on()) access_range(d, n, WRITE, PC); return memset(d, v, n); }
}
