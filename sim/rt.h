// Deterministic simulator runtime: interface used by the harness code.
#pragma once
#include <cstdint>
#include <cstddef>

namespace sim
{
    constexpr int MAXT = 96;

    // ---- choices that make up the workload (recorded, replayable, shrinkable) ----
    uint32_t choose(uint32_t n); // uniform in [0,n)
    inline bool chance(uint32_t num, uint32_t den)
    {
        return choose(den) >= den - num; // 0 (the shrunk value) means "no"
    }
    inline uint32_t range(uint32_t lo, uint32_t hi) // inclusive
    {
        return lo + choose(hi - lo + 1);
    }

    // ---- quiet sections: oracle code, no scheduling point, no checks ----
    extern int quiet_depth; // > 0: callbacks do nothing
    struct Quiet
    {
        // not instrumented, so that entering is no scheduling point either
        __attribute__((no_sanitize("thread"))) Quiet()
        {
            ++quiet_depth;
        }
        __attribute__((no_sanitize("thread"))) ~Quiet()
        {
            --quiet_depth;
        }
    };

    // ---- verdicts ----
    [[noreturn]] void fail(char const* cls, char const* fmt, ...) __attribute__((format(printf, 2, 3)));
    // a run that turned out not to be meaningful (not counted as evaluation)
    [[noreturn]] void discard(char const* why);
    void note(char const* fmt, ...) __attribute__((format(printf, 1, 2))); // hashed, printed with --verbose
    void sample(char const* fmt, ...) __attribute__((format(printf, 1, 2))); // description of the case for the evidence
    void probe(int id); // rare condition reached
    // an assertion that fails in the current thread while set is what must happen: the run ends there as passed
    void expect_assert(bool on);
    void nontrivial(); // marks the run as non-trivial by the scenario's rule
    bool verbose();

    // ---- time and scheduling ----
    uint64_t steps();
    int tid(); // id of the running simulated thread (0 = main)
    void point(); // explicit scheduling point
    void pause(uint32_t n); // n scheduling points
    void spin_hint(); // the caller polls: let others run
    bool faults_active();

    // ---- happens-before ----
    struct Epoch
    {
        int tid = -1;
        uint32_t clk = 0;
    };
    Epoch now(); // epoch of the current thread at this point
    bool happens_before(Epoch e); // e happens before the current point of this thread

    // ---- fault plan (scenario selects the kinds that are legal for it) ----
    enum FaultKind
    {
        F_STALL = 0, // a thread does not run for a long while
        F_SPURIOUS, // spurious wake-up of a condition variable
        F_CASFAIL, // spurious failure of a weak compare-exchange
        F_BIND, // cpu/memory binding call fails
        F_OSALLOC, // memory allocation call fails
        F_DELAY, // asynchronous completion delayed / reordered
        F_DIRTY, // fresh memory contains garbage
        F_REUSE, // freed memory is handed out again at once
        F_STOREBUF, // store visible to others only later
        F_LATESTART, // new thread starts late
        F_THREAD, // no new thread for the caller
        F_COUNT
    };
    void set_fault(FaultKind k, uint32_t ppm); // probability per opportunity
    bool inject(FaultKind k); // opportunity: true if the fault fires (recorded)
    void count_fault(FaultKind k);

    // ---- simulated machine ----
    extern unsigned n_pus;
    uint64_t os_live_bytes();
    uint64_t os_live_chunks();
    uint64_t os_peak_bytes();
    uint64_t os_total_allocs();
    void os_mark_epoch(); // bytes obtained so far belong to the past
    uint64_t os_live_bytes_before_epoch();
    uint64_t os_failed_allocs();
    uint64_t failed_threads(); // refused by pthread_create
    extern int osalloc_tid; // thread that may be refused memory (F_OSALLOC); -1: any, -2: none
    bool os_owned(void const* p, size_t n); // inside memory obtained from the system and not returned
    uint64_t os_serial(void const* p); // which piece of memory this lies in (0: none that is in use)
    int live_threads(); // simulated threads created and not yet finished
    uint64_t heap_live_blocks();

    typedef void (*ScenarioFn)();
    struct Scenario
    {
        char const* name;
        ScenarioFn fn;
        char const* rule; // what makes a run non-trivial
        Scenario* next;
        Scenario(char const* name, ScenarioFn fn, char const* rule);
    };
    extern Scenario* scenarios;

    // knobs of the code under test
    extern "C"
    {
        extern unsigned sim_condvar_timeout;
        extern size_t sim_alloc_chunksize;
    }
} // namespace sim
