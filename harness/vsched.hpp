// Deterministic scheduler for concurrency properties (interface).
//
// While vs::run() is active exactly one thread of the process runs at a time and every synchronisation operation
// (pthread mutexes, condition variables, rwlocks, once, futexes, thread creation/join, atomics, clock reads, sleeps,
// file operations) is a scheduling point whose outcome is drawn from the case's schedule stream.  A case is thus a
// pure function of its data and schedule streams.  Time is virtual.  Code compiled with -fsanitize=thread reports its
// memory accesses to a vector-clock race detector and to a heap monitor (use after free, double free).
#pragma once
#include "pbt.hpp"

namespace vs
{
    struct Config
    {
        bool   spurious{ true };   // spurious wakeups may be drawn
        bool   jumps{ true };      // time may jump to the next deadline although threads could run
        bool   races{ true };      // report data races
        long   steps{ 150000 };    // scheduling points after which the case counts as not terminating
    };

    // Runs body as thread 0 and then waits until all other threads have ended.
    void run(pbt::Case& c, const Config& config, const std::function<void()>& body);
    inline void run(pbt::Case& c, const std::function<void()>& body) { run(c, Config{}, body); }

    bool active();
    void point();                              // a scheduling point
    void quiesce(bool let_time_pass = false);  // returns when every other thread is blocked (for ever, or until its deadline)
    void allow_jumps(bool);
    long long now();                           // virtual nanoseconds (both clocks share the epoch START)
    void sleep_until(long long ns);
    void advance(long long ns);                // moves the clock on without a scheduling point
    std::uint64_t stamp();                     // position in the total order of events
    int  self();                               // index of the thread in creation order, main = 0
    void allow_spurious(bool);
    bool others_blocked();                     // every other thread is blocked (or quiescing, or ended)
    unsigned threads_alive();                  // threads that have not ended (including the caller)
    unsigned threads_created();
    void thread_limit(unsigned alive);         // starting a further thread fails with EAGAIN (0: never)
    // fopen() of such paths and rename() from such paths fail with EACCES
    void file_faults(bool (*fopen_fails)(const char* path), bool (*rename_fails)(const char* path) = nullptr);
    constexpr long long START = 1700000000ll * 1000000000ll;

    // No scheduling and no race checks: for oracle bookkeeping.
    struct Quiet
    {
        Quiet();
        ~Quiet();
        Quiet(const Quiet&) = delete;
    };

    // Remembers, at the caller's next pthread_join, which threads are inside a wait for a condition variable then.
    void watch_join();
    std::uint64_t join_stamp();                // 0: no join yet
    bool waiting_at_join(int thread);

    // Blocks threads until opened, without ordering their memory accesses.
    class Gate
    {
        bool m_open{ false };
    public:
        void wait();
        void open();
        bool is_open() const { return m_open; }
    };

    [[noreturn]] void fail(const std::string& signature, const std::string& message);
}
