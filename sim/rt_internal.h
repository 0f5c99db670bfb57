// Internals shared by the runtime and the driver.
#pragma once
#include "rt.h"

#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <pthread.h>

namespace sim
{
    // ---------------------------------------------------------------- layout
    constexpr uintptr_t HEAP_BASE = 0x100000000000ull;
    constexpr size_t HEAP_SIZE = 4ull << 30;
    constexpr uintptr_t HEAP_SHADOW = 0x110000000000ull; // 1 byte per 16
    constexpr uintptr_t OS_BASE = 0x120000000000ull;
    constexpr size_t OS_SIZE = 1ull << 30;
    constexpr uintptr_t OS_SHADOW = 0x130000000000ull; // 1 byte per 8
    constexpr uintptr_t STACK_BASE = 0x140000000000ull;
    constexpr size_t STACK_SIZE = 1ull << 20;
    constexpr uintptr_t PARENT_BASE = 0x150000000000ull;
    constexpr size_t PARENT_SIZE = 8ull << 30;

    // ---------------------------------------------------------------- trace entries
    enum EntryKind : uint8_t
    {
        E_SWITCH = 1, // switch to thread v at this step
        E_PICK, // when the running thread cannot go on: thread v instead of the default
        E_STALL, // thread v&255 stalls for v>>8 (x16) steps
        E_SPURIOUS, // wake thread v from its condition variable
        E_FAULT, // inject(kind=v) fires
        E_SIGNAL, // pthread_cond_signal wakes thread v instead of the default
    };
    struct Entry
    {
        uint64_t step;
        uint32_t v;
        uint8_t kind;
        uint8_t pad[3];
    };

    // ---------------------------------------------------------------- one run
    enum Verdict : int
    {
        V_NONE = 0,
        V_OK = 1,
        V_FAIL = 2,
        V_DISCARD = 3,
        V_CRASHED_SIM = 4 // simulator error
    };

    constexpr size_t MAX_ENTRIES = 1u << 19;
    constexpr size_t MAX_CHOICES = 1u << 14;
    constexpr int COV_BITS = 1 << 18;

    struct RunResult // in shared memory
    {
        int verdict;
        char cls[96];
        char msg[1024];
        char sample[2048];
        uint64_t steps, switches, sim_ns, hash, sched_hash;
        uint64_t faults[F_COUNT];
        uint64_t probes; // bit set
        int nontrivial;
        uint32_t n_choices;
        uint32_t n_entries;
        uint32_t entries_dropped;
        uint32_t choices[MAX_CHOICES];
        Entry entries[MAX_ENTRIES];
        uint64_t cov[COV_BITS / 64]; // (pc before switch, pc after switch) pairs; accumulates over runs
    };

    struct RunSpec
    {
        uint64_t seed = 0;
        bool replay_choices = false;
        bool replay_sched = false;
        uint32_t const* choices = nullptr;
        uint32_t n_choices = 0;
        Entry const* entries = nullptr;
        uint32_t n_entries = 0;
        bool verbose = false;
        uint64_t max_steps = 3000000;
    };

    struct Rng
    {
        uint64_t s[2];
        static uint64_t splitmix(uint64_t& x)
        {
            uint64_t z = (x += 0x9e3779b97f4a7c15ull);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            return z ^ (z >> 31);
        }
        void seed(uint64_t x)
        {
            s[0] = splitmix(x);
            s[1] = splitmix(x);
        }
        uint64_t next()
        {
            uint64_t a = s[0], b = s[1];
            s[0] = b;
            a ^= a << 23;
            s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
            return s[1] + b;
        }
        uint32_t below(uint32_t n)
        {
            return n ? (uint32_t) (((next() >> 32) * (uint64_t) n) >> 32) : 0;
        }
    };

    extern int vc_len; // threads that exist, rounded up

    struct VC
    {
        uint32_t c[MAXT];
        void join(VC const& o)
        {
            int n = vc_len;
            for(int i = 0; i < n; ++i)
                if(o.c[i] > c[i])
                    c[i] = o.c[i];
        }
        void clear()
        {
            memset(c, 0, sizeof c);
        }
    };

    enum State : uint8_t
    {
        UNUSED = 0,
        RUNNABLE,
        B_MUTEX,
        B_COND,
        B_JOIN,
        B_SLEEP,
        FINISHED
    };

    struct SBEntry
    {
        void* addr;
        uint64_t val;
        uint8_t size;
    };

    struct Thread
    {
        int id;
        State st;
        int go; // futex
        bool late;
        void* wait_addr;
        bool timed, timed_out;
        uint64_t deadline; // simulated ns
        uint64_t stalled_until; // step
        uint32_t ro; // steps since last write
        uint64_t slice; // step at which it was switched in
        uint64_t prio; // PCT
        pthread_t real;
        void* (*fn)(void*);
        void* arg;
        void* ret;
        void* last_pc;
        VC vc, fence_rel, acq_pending;
        SBEntry sb[8];
        int n_sb;
    };

    struct Global
    {
        bool active;
        Thread t[MAXT];
        Thread* cur;
        int n_threads;
        uint64_t step, next_decision, max_steps, horizon, switches;
        uint64_t clock_skew_ns;
        uint64_t hash, sched_hash;
        Rng wl, sc; // workload, scheduler
        RunSpec spec;
        RunResult* res;
        uint32_t ch_pos;
        uint32_t e_pos; // replay position
        // strategy
        int strat; // 0 random walk, 1 PCT, 2 round robin-ish
        uint32_t inv_p; // mean steps between switches
        uint32_t plain_skip; // 1 of n plain accesses counts as a preemption point
        uint64_t pct_points[8];
        int n_pct, pct_next;
        uint64_t pct_low;
        uint32_t quantum;
        uint32_t fault_ppm[F_COUNT];
        bool reuse;
        uint32_t spin_limit;
    };
    extern Global G;

    void rt_init(); // once per process
    void run_child(RunSpec const& spec, RunResult* res, ScenarioFn fn); // in the forked child; does not return
    void mem_init(); // once per process
    void mem_begin_run();
    void hw_init();
    void flush_current();
    extern bool mem_dirty;
    extern bool mem_in_run;
    void shadow_check(void const* a, size_t n, bool write, void* pc);
    void step_slow(void* pc, bool plain);
    void dump_threads(char* buf, size_t n);

    inline void mix(uint64_t x)
    {
        G.hash = (G.hash ^ x) * 0x100000001b3ull;
        G.hash ^= G.hash >> 29;
    }
} // namespace sim
