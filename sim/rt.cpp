// Deterministic simulator: scheduler, __tsan_* instrumentation callbacks, pthread and clock seams.
// Exactly one simulated thread runs at any time; every other one is parked on a futex.
#include "rt_internal.h"

#include <dlfcn.h>
#include <errno.h>
#include <initializer_list>
#include <exception>
#include <cxxabi.h>
#include <linux/futex.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>

extern "C" char __libc_single_threaded;

namespace sim
{
    Global G;
    int quiet_depth = 1; // 1 while no run is active
    Scenario* scenarios = nullptr;
    extern "C"
    {
        unsigned sim_condvar_timeout = 4;
        size_t sim_alloc_chunksize = 64 * 1024;
    }

    Scenario::Scenario(char const* name, ScenarioFn fn, char const* rule) : name(name), fn(fn), rule(rule), next(scenarios)
    {
        scenarios = this;
    }

    // ------------------------------------------------------------ real functions
    static int (*real_pthread_create)(pthread_t*, pthread_attr_t const*, void* (*) (void*), void*);
    static int (*real_pthread_join)(pthread_t, void**);
    static pthread_key_t exit_key;

    static void futex_wait(int* a, int v)
    {
        syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
    }
    static void futex_wake(int* a)
    {
        syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    }

    // ------------------------------------------------------------ verdicts
    static void finish(int verdict)
    {
        RunResult* r = G.res;
        r->verdict = verdict;
        r->steps = G.step;
        r->switches = G.switches;
        r->sim_ns = G.step * 100 + G.clock_skew_ns;
        r->hash = G.hash;
        r->sched_hash = G.sched_hash;
        _exit(0);
    }

    static Thread* assert_expected_in = nullptr;
    void expect_assert(bool on)
    {
        assert_expected_in = on ? G.cur : nullptr;
    }
    void expected_assert_failed()
    {
        if(assert_expected_in && assert_expected_in == G.cur)
        {
            ++quiet_depth;
            nontrivial();
            finish(V_OK);
        }
    }

    void vfail(char const* cls, char const* fmt, va_list ap)
    {
        ++quiet_depth;
        RunResult* r = G.res;
        if(r->verdict == V_NONE)
        {
            snprintf(r->cls, sizeof r->cls, "%s", cls);
            vsnprintf(r->msg, sizeof r->msg, fmt, ap);
            for(char const* p = cls; *p; ++p)
                mix((uint8_t) *p);
            mix(G.step);
            if(G.spec.verbose)
            {
                fprintf(stderr, "[step %lu] thread %d: FAIL %s: %s\n", G.step, G.cur ? G.cur->id : -1, r->cls, r->msg);
                char buf[4096];
                dump_threads(buf, sizeof buf);
                fputs(buf, stderr);
                if(void* p = dlsym(RTLD_DEFAULT, "sim_backtrace"))
                    ((void (*)()) p)();
            }
        }
        finish(V_FAIL);
        __builtin_unreachable();
    }
    void fail(char const* cls, char const* fmt, ...)
    {
        va_list ap;
        va_start(ap, fmt);
        vfail(cls, fmt, ap);
        __builtin_unreachable();
    }
    void discard(char const* why)
    {
        ++quiet_depth;
        snprintf(G.res->msg, sizeof G.res->msg, "%s", why);
        finish(V_DISCARD);
        __builtin_unreachable();
    }
    bool verbose()
    {
        return G.spec.verbose;
    }
    void note(char const* fmt, ...)
    {
        Quiet q;
        char buf[512];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        for(char const* p = buf; *p; ++p)
            mix((uint8_t) *p);
        mix(G.step);
        if(G.spec.verbose)
            fprintf(stderr, "[step %lu] thread %d: %s\n", G.step, G.cur ? G.cur->id : -1, buf);
    }
    void sample(char const* fmt, ...)
    {
        Quiet q;
        char* s = G.res->sample;
        size_t n = strlen(s);
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(s + n, sizeof G.res->sample - n, fmt, ap);
        va_end(ap);
    }
    void probe(int id)
    {
        G.res->probes |= 1ull << (id & 63);
    }
    void nontrivial()
    {
        G.res->nontrivial = 1;
    }

    // ------------------------------------------------------------ choices
    uint32_t choose(uint32_t n)
    {
        if(n <= 1)
            return 0;
        uint32_t v;
        RunResult* r = G.res;
        if(G.spec.replay_choices)
            v = G.ch_pos < G.spec.n_choices ? G.spec.choices[G.ch_pos] % n : 0;
        else
            v = G.wl.below(n);
        if(G.ch_pos < MAX_CHOICES)
        {
            r->choices[G.ch_pos] = v;
            r->n_choices = G.ch_pos + 1;
        }
        else if(!G.spec.replay_choices)
            discard("too many choices");
        G.ch_pos++;
        return v;
    }

    // ------------------------------------------------------------ schedule recording / replay
    static void record(uint8_t kind, uint32_t v)
    {
        RunResult* r = G.res;
        if(r->n_entries < MAX_ENTRIES)
        {
            Entry& e = r->entries[r->n_entries++];
            e.step = G.step;
            e.kind = kind;
            e.v = v;
        }
        else
            r->entries_dropped++;
    }
    // in replay: is there an entry of this kind at this step?
    static bool replay_lookup(uint8_t kind, uint32_t& v)
    {
        while(G.e_pos < G.spec.n_entries && G.spec.entries[G.e_pos].step < G.step)
            G.e_pos++;
        for(uint32_t i = G.e_pos; i < G.spec.n_entries && G.spec.entries[i].step == G.step; ++i)
            if(G.spec.entries[i].kind == kind)
            {
                v = G.spec.entries[i].v;
                return true;
            }
        return false;
    }
    static void replay_next()
    {
        uint32_t i = G.e_pos;
        while(i < G.spec.n_entries && G.spec.entries[i].step <= G.step)
            ++i;
        uint64_t q = G.cur->slice + G.quantum;
        if(q <= G.step)
            q = G.step + 1;
        if(i < G.spec.n_entries && G.spec.entries[i].step < q)
            q = G.spec.entries[i].step;
        if(q > G.max_steps + 1)
            q = G.max_steps + 1 > G.step ? G.max_steps + 1 : G.step + 1;
        G.next_decision = q;
    }

    bool faults_active()
    {
        return G.step < G.horizon;
    }

    static void schedule_next()
    {
        if(G.spec.replay_sched)
        {
            replay_next();
            return;
        }
        uint64_t d;
        if(G.strat == 1 && G.step < G.horizon)
        {
            d = G.pct_next < G.n_pct ? G.pct_points[G.pct_next] : ~0ull;
            uint64_t q = G.cur->slice + G.quantum;
            if(q <= G.step)
                q = G.step + G.quantum;
            if(q < d)
                d = q;
        }
        else
        {
            uint32_t p = G.step < G.horizon ? G.inv_p : 64;
            d = G.step + 1 + G.sc.below(2 * p - 1);
            uint64_t q = G.cur->slice + G.quantum;
            if(q <= G.step)
                q = G.step + 1;
            if(q < d)
                d = q;
        }
        if(d <= G.step)
            d = G.step + 1;
        if(d > G.max_steps + 1) // a run that does not end is ended at the same step in any case
            d = G.max_steps + 1 > G.step ? G.max_steps + 1 : G.step + 1;
        G.next_decision = d;
    }

    void set_fault(FaultKind k, uint32_t ppm)
    {
        G.fault_ppm[k] = ppm;
    }
    void count_fault(FaultKind k)
    {
        G.res->faults[k]++;
    }
    bool inject(FaultKind k)
    {
        if(!G.active || G.fault_ppm[k] == 0)
            return false;
        bool fire = false;
        G.step++; // gives the decision its own step number
        if(G.spec.replay_sched)
        {
            uint32_t v;
            // several kinds may be recorded at distinct steps only, so one lookup is enough
            fire = replay_lookup(E_FAULT, v) && v == (uint32_t) k;
        }
        else if(G.step < G.horizon)
            fire = G.sc.below(1000000) < G.fault_ppm[k];
        if(fire)
        {
            record(E_FAULT, k);
            G.res->faults[k]++;
            mix(0xfa170000 + k);
        }
        return fire;
    }

    // ------------------------------------------------------------ thread switching
    static char const* state_name(State s)
    {
        static char const* n[] = {"unused", "runnable", "blocked on lock", "sleeping on condition", "joining", "sleeping", "finished"};
        return n[s];
    }
    void dump_threads(char* buf, size_t n)
    {
        size_t o = 0;
        buf[0] = 0;
        for(int i = 0; i < G.n_threads && o + 160 < n; ++i)
        {
            Thread& t = G.t[i];
            o += snprintf(buf + o, n - o, "  thread %d: %s addr=%p last_pc=%p%s\n", i, state_name(t.st), t.wait_addr, t.last_pc, &t == G.cur ? " (running)" : "");
        }
    }

    static inline uint64_t now_ns()
    {
        return G.step * 100 + G.clock_skew_ns;
    }

    static inline bool due(Thread& t)
    {
        return (t.st == B_SLEEP || (t.st == B_COND && t.timed)) && t.deadline <= now_ns();
    }
    static inline void wake_if_due(Thread& t)
    {
        if(due(t))
        {
            t.timed_out = true;
            t.st = RUNNABLE;
        }
    }
    static inline bool eligible(Thread& t)
    {
        return (t.st == RUNNABLE || due(t)) && t.stalled_until <= G.step;
    }

    static void flush_sb(Thread* t);

    static void park(Thread* me)
    {
        while(__atomic_load_n(&me->go, __ATOMIC_ACQUIRE) == 0)
            futex_wait(&me->go, 0);
        __atomic_store_n(&me->go, 0, __ATOMIC_RELAXED);
    }

    static void cov(void* a, void* b)
    {
        uint64_t h = ((uintptr_t) a * 0x9e3779b97f4a7c15ull) ^ ((uintptr_t) b * 0xc2b2ae3d27d4eb4full);
        h ^= h >> 31;
        h *= 0x94d049bb133111ebull;
        h >>= 40;
        h &= COV_BITS - 1;
        G.res->cov[h / 64] |= 1ull << (h % 64);
    }

    static void switch_to(Thread* n, bool exiting = false)
    {
        Thread* me = G.cur;
        wake_if_due(*n);
        if(n == me)
            return;
        G.switches++;
        G.sched_hash = (G.sched_hash ^ (G.step * MAXT + n->id)) * 0x100000001b3ull;
        mix(G.step * MAXT + n->id);
        if(G.spec.verbose)
            fprintf(stderr, "[step %lu] switch %d -> %d  (at %p, resumes after %p)\n", G.step, me->id, n->id, me->last_pc, n->last_pc);
        cov(me->last_pc, n->last_pc);
        G.cur = n;
        n->slice = G.step;
        n->ro = 0;
        schedule_next();
        __atomic_store_n(&n->go, 1, __ATOMIC_RELEASE);
        futex_wake(&n->go);
        if(!exiting)
            park(me);
    }

    // candidates for running next; falls back to stalled ones, then to time jumps
    static int candidates(Thread** out)
    {
        while(true)
        {
            int n = 0;
            for(int i = 0; i < G.n_threads; ++i)
                if(eligible(G.t[i]))
                    out[n++] = &G.t[i];
            if(n)
                return n;
            bool any = false;
            for(int i = 0; i < G.n_threads; ++i)
                if(G.t[i].st == RUNNABLE)
                {
                    G.t[i].stalled_until = 0;
                    any = true;
                }
            if(any)
                continue;
            uint64_t best = ~0ull;
            for(int i = 0; i < G.n_threads; ++i)
            {
                Thread& t = G.t[i];
                if((t.st == B_SLEEP || (t.st == B_COND && t.timed)) && t.deadline < best)
                    best = t.deadline;
            }
            if(best == ~0ull)
                return 0;
            if(best > now_ns())
                G.clock_skew_ns += best - now_ns();
        }
    }

    // current thread cannot or should not continue: choose another one
    static void reschedule(bool must, bool exiting = false)
    {
        G.step++;
        if(G.step > G.max_steps)
        {
            char buf[900];
            dump_threads(buf, sizeof buf);
            fail("livelock", "no end after %lu steps under a fair schedule\n%s", G.step, buf);
        }
        Thread* c[MAXT];
        int n = candidates(c);
        if(n == 0)
        {
            char buf[900];
            dump_threads(buf, sizeof buf);
            fail("deadlock", "every thread is blocked\n%s", buf);
        }
        // default: next eligible thread in round-robin order after the current one
        Thread* def = nullptr;
        for(int k = 0; k < n; ++k)
            if(c[k]->id > G.cur->id)
            {
                def = c[k];
                break;
            }
        if(!def)
            def = c[0];
        Thread* pick = def;
        if(G.spec.replay_sched)
        {
            uint32_t v;
            if(replay_lookup(E_PICK, v))
                for(int k = 0; k < n; ++k)
                    if(c[k]->id == (int) v)
                        pick = c[k];
        }
        else if(G.strat == 1 && G.step < G.horizon)
        {
            if(!must)
                G.cur->prio = G.pct_low--;
            for(int k = 0; k < n; ++k)
                if(c[k]->prio > pick->prio)
                    pick = c[k];
        }
        else
        {
            int m = n;
            pick = c[G.sc.below(m)];
            if(!must && pick == G.cur && n > 1)
                pick = def;
        }
        if(pick != def)
            record(E_PICK, pick->id);
        if(pick != G.cur)
            switch_to(pick, exiting);
        else
        {
            wake_if_due(*pick);
            G.cur->slice = G.step;
            G.cur->ro = 0;
            schedule_next();
        }
    }

    static void block(State st, void* addr)
    {
        G.cur->st = st;
        G.cur->wait_addr = addr;
        reschedule(true);
        G.cur->wait_addr = nullptr;
    }

    static void wake_all_on(State st, void* addr)
    {
        for(int i = 0; i < G.n_threads; ++i)
            if(G.t[i].st == st && G.t[i].wait_addr == addr)
                G.t[i].st = RUNNABLE;
    }

    // reached a preemption decision
    void step_slow(void* pc, bool plain)
    {
        Thread* me = G.cur;
        me->last_pc = pc;
        if(G.step > G.max_steps)
            reschedule(false);
        if(me->slice + G.quantum <= G.step)
        {
            flush_sb(me);
            reschedule(false);
            return;
        }
        if(G.spec.replay_sched)
        {
            uint32_t v;
            if(replay_lookup(E_SPURIOUS, v) && v < (uint32_t) G.n_threads && G.t[v].st == B_COND)
            {
                G.t[v].st = RUNNABLE;
                record(E_SPURIOUS, v);
                G.res->faults[F_SPURIOUS]++;
            }
            if(replay_lookup(E_STALL, v) && (v & 255) < (uint32_t) G.n_threads)
            {
                G.t[v & 255].stalled_until = G.step + (v >> 8) * 16;
                record(E_STALL, v);
                G.res->faults[F_STALL]++;
                if((int) (v & 255) == me->id)
                {
                    reschedule(true);
                    return;
                }
            }
            if(replay_lookup(E_SWITCH, v) && v < (uint32_t) G.n_threads && (G.t[v].st == RUNNABLE || due(G.t[v])) && (int) v != me->id)
            {
                G.t[v].stalled_until = 0;
                record(E_SWITCH, v);
                switch_to(&G.t[v]);
                return;
            }
            replay_next();
            return;
        }
        bool fair = G.step >= G.horizon;
        if(!fair)
        {
            if(G.strat == 1)
            {
                if(G.pct_next < G.n_pct && G.pct_points[G.pct_next] <= G.step)
                {
                    G.pct_next++;
                    me->prio = G.pct_low--;
                }
            }
            else if(plain && G.plain_skip && G.sc.below(G.plain_skip) != 0)
            {
                schedule_next();
                return;
            }
            if(G.fault_ppm[F_SPURIOUS] && G.sc.below(1000000) < G.fault_ppm[F_SPURIOUS])
            {
                Thread* c[MAXT];
                int n = 0;
                for(int i = 0; i < G.n_threads; ++i)
                    if(G.t[i].st == B_COND)
                        c[n++] = &G.t[i];
                if(n)
                {
                    Thread* t = c[G.sc.below(n)];
                    t->st = RUNNABLE;
                    record(E_SPURIOUS, t->id);
                    G.res->faults[F_SPURIOUS]++;
                }
            }
            if(G.fault_ppm[F_STALL] && G.sc.below(1000000) < G.fault_ppm[F_STALL])
            {
                int v = G.sc.below(2) ? me->id : (int) G.sc.below(G.n_threads);
                if(G.t[v].st != FINISHED && G.t[v].st != UNUSED)
                {
                    uint32_t len = 1u << (2 + G.sc.below(9)); // x16 steps
                    G.t[v].stalled_until = G.step + len * 16;
                    record(E_STALL, v | len << 8);
                    G.res->faults[F_STALL]++;
                    if(v == me->id)
                    {
                        reschedule(true);
                        return;
                    }
                }
            }
        }
        Thread* c[MAXT];
        int n = 0;
        for(int i = 0; i < G.n_threads; ++i)
            if(&G.t[i] != me && eligible(G.t[i]))
                c[n++] = &G.t[i];
        if(n == 0)
        {
            schedule_next();
            return;
        }
        Thread* pick = nullptr;
        if(!fair && G.strat == 1)
        {
            for(int k = 0; k < n; ++k)
                if(c[k]->prio > me->prio && (!pick || c[k]->prio > pick->prio))
                    pick = c[k];
        }
        else
            pick = c[G.sc.below(n)];
        if(!pick)
        {
            schedule_next();
            return;
        }
        record(E_SWITCH, pick->id);
        switch_to(pick);
    }

    static inline void step(void* pc, bool write, bool plain)
    {
        Thread* me = G.cur;
        me->last_pc = pc;
        if(write)
            me->ro = 0;
        else if(++me->ro > G.spin_limit)
        {
            me->ro = 0;
            flush_sb(me);
            reschedule(false);
            return;
        }
        if(++G.step >= G.next_decision)
            step_slow(pc, plain);
    }

    uint64_t steps()
    {
        return G.step;
    }
    int tid()
    {
        return G.cur ? G.cur->id : 0;
    }
    void flush_current()
    {
        if(G.active && G.cur && G.cur->n_sb)
            flush_sb(G.cur);
    }
    void point()
    {
        if(quiet_depth)
            return;
        step(__builtin_return_address(0), true, false);
    }
    void pause(uint32_t n)
    {
        while(n--)
            point();
    }
    void spin_hint()
    {
        if(quiet_depth)
            return;
        G.cur->last_pc = __builtin_return_address(0);
        flush_sb(G.cur);
        reschedule(false);
    }
    static uint64_t n_failed_threads;
    uint64_t failed_threads()
    {
        return n_failed_threads;
    }
    int live_threads()
    {
        int n = 0;
        for(int i = 1; i < G.n_threads; ++i)
            if(G.t[i].st != FINISHED && G.t[i].st != UNUSED)
                n++;
        return n;
    }

    // ------------------------------------------------------------ happens-before
    // Locations lie densely in `locs` and are found by a hash index that grows, so that a short run touches few pages.
    int vc_len = 8;
    constexpr uint32_t LOCN = 1u << 17;
    struct Loc
    {
        uintptr_t addr;
        VC vc;
    };
    static Loc* locs; // mapped lazily; the index follows behind
    static uint32_t n_locs;
    static uint32_t* loc_index;
    static uint32_t loc_mask;
    static inline uint32_t loc_hash(uintptr_t k)
    {
        return (uint32_t) ((k * 0x9e3779b97f4a7c15ull) >> 40) & loc_mask;
    }
    static Loc* loc(void const* a, bool create)
    {
        uintptr_t k = (uintptr_t) a;
        for(uint32_t h = loc_hash(k);; h = (h + 1) & loc_mask)
        {
            uint32_t i = loc_index[h];
            if(i == 0)
            {
                if(!create || n_locs + 1 >= LOCN)
                    return nullptr;
                loc_index[h] = ++n_locs;
                Loc* l = &locs[n_locs];
                l->addr = k;
                if(n_locs > loc_mask / 2)
                {
                    loc_index += loc_mask + 1;
                    loc_mask = loc_mask * 2 + 1;
                    for(uint32_t j = 1; j <= n_locs; ++j)
                    {
                        uint32_t g = loc_hash(locs[j].addr);
                        while(loc_index[g])
                            g = (g + 1) & loc_mask;
                        loc_index[g] = j;
                    }
                }
                return l;
            }
            if(locs[i].addr == k)
                return &locs[i];
        }
    }
    Epoch now()
    {
        return Epoch{G.cur->id, G.cur->vc.c[G.cur->id]};
    }
    bool happens_before(Epoch e)
    {
        return e.tid < 0 || G.cur->vc.c[e.tid] >= e.clk;
    }
    static void acquire(void const* a)
    {
        if(Loc* l = loc(a, false))
            G.cur->vc.join(l->vc);
    }
    static void release(void const* a)
    {
        if(Loc* l = loc(a, true))
            l->vc.join(G.cur->vc);
        G.cur->vc.c[G.cur->id]++;
    }
    static inline bool is_acq(int mo)
    {
        return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
    }
    static inline bool is_rel(int mo)
    {
        return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
    }
    static void hb_load(void const* a, int mo)
    {
        Loc* l = loc(a, false);
        if(!l)
            return;
        if(is_acq(mo))
            G.cur->vc.join(l->vc);
        else
            G.cur->acq_pending.join(l->vc);
    }
    static void hb_store(void const* a, int mo)
    {
        Loc* l = loc(a, true);
        if(!l)
            return;
        if(is_rel(mo))
        {
            l->vc = G.cur->vc;
            G.cur->vc.c[G.cur->id]++;
        }
        else
            l->vc = G.cur->fence_rel;
    }
    static void hb_rmw(void const* a, int mo)
    {
        Loc* l = loc(a, true);
        if(!l)
            return;
        if(is_acq(mo))
            G.cur->vc.join(l->vc);
        else
            G.cur->acq_pending.join(l->vc);
        if(is_rel(mo))
        {
            l->vc.join(G.cur->vc);
            G.cur->vc.c[G.cur->id]++;
        }
        else
            l->vc.join(G.cur->fence_rel);
    }
    static VC sc_fence;
    static void hb_fence(int mo)
    {
        Thread* t = G.cur;
        if(is_acq(mo))
            t->vc.join(t->acq_pending);
        if(mo == __ATOMIC_SEQ_CST)
        {
            t->vc.join(sc_fence);
            sc_fence.join(t->vc);
        }
        if(is_rel(mo))
        {
            t->fence_rel = t->vc;
            t->vc.c[t->id]++;
        }
    }

    // ------------------------------------------------------------ store buffer (delayed visibility of plain atomic stores)
    static void flush_sb(Thread* t)
    {
        for(int i = 0; i < t->n_sb; ++i)
            memcpy(t->sb[i].addr, &t->sb[i].val, t->sb[i].size);
        t->n_sb = 0;
    }
    static inline bool overlaps(SBEntry& e, uintptr_t a, size_t n)
    {
        uintptr_t b = (uintptr_t) e.addr;
        return a < b + e.size && b < a + n;
    }

    static inline bool in_stack(void const* p)
    {
        return (uintptr_t) p >= STACK_BASE && (uintptr_t) p < STACK_BASE + MAXT * STACK_SIZE;
    }

    // ------------------------------------------------------------ plain accesses
    static inline void plain(void* a, size_t n, bool write, void* pc)
    {
        if(quiet_depth || in_stack(a))
            return;
        step(pc, write, true);
        if(G.cur->n_sb)
            for(int i = 0; i < G.cur->n_sb; ++i)
                if(overlaps(G.cur->sb[i], (uintptr_t) a, n))
                {
                    flush_sb(G.cur);
                    break;
                }
        shadow_check(a, n, write, pc);
    }

    template<typename T>
    static T atomic_load(T const* a, int mo, void* pc)
    {
        if(!quiet_depth)
        {
            step(pc, false, false);
            Thread* t = G.cur;
            shadow_check(a, sizeof(T), false, pc);
            if(t->n_sb)
            {
                if(mo == __ATOMIC_SEQ_CST)
                {
                    // x86: a seq_cst load may still pass earlier non-seq_cst stores, except to the same address
                    for(int i = t->n_sb - 1; i >= 0; --i)
                        if(overlaps(t->sb[i], (uintptr_t) a, sizeof(T)))
                        {
                            flush_sb(t);
                            break;
                        }
                }
                else
                    for(int i = t->n_sb - 1; i >= 0; --i)
                        if(overlaps(t->sb[i], (uintptr_t) a, sizeof(T)))
                        {
                            flush_sb(t);
                            break;
                        }
            }
            hb_load(a, mo);
        }
        T r;
        memcpy(&r, a, sizeof(T));
        return r;
    }
    template<typename T>
    static void atomic_store(T* a, T v, int mo, void* pc)
    {
        if(!quiet_depth)
        {
            step(pc, true, false);
            Thread* t = G.cur;
            shadow_check(a, sizeof(T), true, pc);
            hb_store(a, mo);
            if(mo != __ATOMIC_SEQ_CST && sizeof(T) <= 8 && t->n_sb < 8 && (t->n_sb || inject(F_STOREBUF)))
            {
                // note: a switch happens at the next step at the earliest, so the store really is pending then
                SBEntry& e = t->sb[t->n_sb++];
                e.addr = a;
                e.size = sizeof(T);
                e.val = 0;
                memcpy(&e.val, &v, sizeof(T) <= 8 ? sizeof(T) : 8);
                return;
            }
            flush_sb(t);
        }
        memcpy(a, &v, sizeof(T));
    }
    template<typename T>
    static void pre_rmw(T* a, int mo, void* pc)
    {
        if(!quiet_depth)
        {
            step(pc, false, false);
            flush_sb(G.cur);
            shadow_check(a, sizeof(T), true, pc);
            hb_rmw(a, mo);
        }
    }
    static inline void changed(bool c)
    {
        if(c && !quiet_depth)
            G.cur->ro = 0;
    }
    template<typename T>
    static bool cas(T* a, T* expected, T desired, int mo, int fmo, void* pc)
    {
        if(!quiet_depth)
        {
            step(pc, false, false);
            flush_sb(G.cur);
            shadow_check(a, sizeof(T), true, pc);
        }
        if(memcmp(a, expected, sizeof(T)) == 0)
        {
            if(!quiet_depth)
            {
                hb_rmw(a, mo);
                G.cur->ro = 0;
            }
            memcpy(a, &desired, sizeof(T));
            return true;
        }
        if(!quiet_depth)
            hb_load(a, fmo);
        memcpy(expected, a, sizeof(T));
        return false;
    }
} // namespace sim

// ================================================================ __tsan interface
using namespace sim;
// sim/config/weak_cas.hpp: does this weak compare-exchange fail spuriously?
extern "C" int sim_weak_cas_fails()
{
    return !quiet_depth && inject(F_CASFAIL);
}
#define RA __builtin_return_address(0)
typedef unsigned __int128 u128;
extern "C"
{
    void __tsan_init()
    {
    }
    void __tsan_func_entry(void*)
    {
    }
    void __tsan_func_exit()
    {
    }
    void __tsan_ignore_thread_begin()
    {
    }
    void __tsan_ignore_thread_end()
    {
    }
#define RW(N)                                                                                                          \
    void __tsan_read##N(void* a)                                                                                      \
    {                                                                                                                 \
        plain(a, N, false, RA);                                                                                       \
    }                                                                                                                 \
    void __tsan_write##N(void* a)                                                                                     \
    {                                                                                                                 \
        plain(a, N, true, RA);                                                                                        \
    }                                                                                                                 \
    void __tsan_unaligned_read##N(void* a)                                                                            \
    {                                                                                                                 \
        plain(a, N, false, RA);                                                                                       \
    }                                                                                                                 \
    void __tsan_unaligned_write##N(void* a)                                                                           \
    {                                                                                                                 \
        plain(a, N, true, RA);                                                                                        \
    }                                                                                                                 \
    void __tsan_read_write##N(void* a)                                                                                \
    {                                                                                                                 \
        plain(a, N, true, RA);                                                                                        \
    }                                                                                                                 \
    void __tsan_unaligned_read_write##N(void* a)                                                                      \
    {                                                                                                                 \
        plain(a, N, true, RA);                                                                                        \
    }
    RW(1)
    RW(2)
    RW(4)
    RW(8)
    RW(16)
    void __tsan_read_range(void* a, unsigned long n)
    {
        plain(a, n, false, RA);
    }
    void __tsan_write_range(void* a, unsigned long n)
    {
        plain(a, n, true, RA);
    }
    void __tsan_vptr_update(void** a, void*)
    {
        plain(a, 8, true, RA);
    }
    void __tsan_vptr_read(void** a)
    {
        plain(a, 8, false, RA);
    }
    void* __tsan_memcpy(void* d, void const* s, size_t n)
    {
        if(n)
        {
            plain((void*) s, n, false, RA);
            plain(d, n, true, RA);
        }
        return memcpy(d, s, n);
    }
    void* __tsan_memmove(void* d, void const* s, size_t n)
    {
        if(n)
        {
            plain((void*) s, n, false, RA);
            plain(d, n, true, RA);
        }
        return memmove(d, s, n);
    }
    void* __tsan_memset(void* d, int c, size_t n)
    {
        if(n)
            plain(d, n, true, RA);
        return memset(d, c, n);
    }
#define AT(N, T)                                                                                                       \
    T __tsan_atomic##N##_load(T const volatile* a, int mo)                                                            \
    {                                                                                                                 \
        return sim::atomic_load<T>((T const*) a, mo, RA);                                                             \
    }                                                                                                                 \
    void __tsan_atomic##N##_store(T volatile* a, T v, int mo)                                                         \
    {                                                                                                                 \
        sim::atomic_store<T>((T*) a, v, mo, RA);                                                                      \
    }                                                                                                                 \
    T __tsan_atomic##N##_exchange(T volatile* a, T v, int mo)                                                         \
    {                                                                                                                 \
        pre_rmw((T*) a, mo, RA);                                                                                      \
        T o = *(T*) a;                                                                                                \
        *(T*) a = v;                                                                                                  \
        changed(o != v);                                                                                              \
        return o;                                                                                                     \
    }                                                                                                                 \
    T __tsan_atomic##N##_fetch_add(T volatile* a, T v, int mo)                                                        \
    {                                                                                                                 \
        pre_rmw((T*) a, mo, RA);                                                                                      \
        T o = *(T*) a;                                                                                                \
        *(T*) a = (T) (o + v); changed(o != *(T*) a); \
        return o;                                                                                                     \
    }                                                                                                                 \
    T __tsan_atomic##N##_fetch_sub(T volatile* a, T v, int mo)                                                        \
    {                                                                                                                 \
        pre_rmw((T*) a, mo, RA);                                                                                      \
        T o = *(T*) a;                                                                                                \
        *(T*) a = (T) (o - v); changed(o != *(T*) a); \
        return o;                                                                                                     \
    }                                                                                                                 \
    T __tsan_atomic##N##_fetch_and(T volatile* a, T v, int mo)                                                        \
    {                                                                                                                 \
        pre_rmw((T*) a, mo, RA);                                                                                      \
        T o = *(T*) a;                                                                                                \
        *(T*) a = (T) (o & v); changed(o != *(T*) a); \
        return o;                                                                                                     \
    }                                                                                                                 \
    T __tsan_atomic##N##_fetch_or(T volatile* a, T v, int mo)                                                         \
    {                                                                                                                 \
        pre_rmw((T*) a, mo, RA);                                                                                      \
        T o = *(T*) a;                                                                                                \
        *(T*) a = (T) (o | v); changed(o != *(T*) a); \
        return o;                                                                                                     \
    }                                                                                                                 \
    T __tsan_atomic##N##_fetch_xor(T volatile* a, T v, int mo)                                                        \
    {                                                                                                                 \
        pre_rmw((T*) a, mo, RA);                                                                                      \
        T o = *(T*) a;                                                                                                \
        *(T*) a = (T) (o ^ v); changed(o != *(T*) a); \
        return o;                                                                                                     \
    }                                                                                                                 \
    T __tsan_atomic##N##_fetch_nand(T volatile* a, T v, int mo)                                                       \
    {                                                                                                                 \
        pre_rmw((T*) a, mo, RA);                                                                                      \
        T o = *(T*) a;                                                                                                \
        *(T*) a = (T) ~(o & v); changed(o != *(T*) a); \
        return o;                                                                                                     \
    }                                                                                                                 \
    int __tsan_atomic##N##_compare_exchange_strong(T volatile* a, T* c, T v, int mo, int fmo)                         \
    {                                                                                                                 \
        return cas<T>((T*) a, c, v, mo, fmo, RA);                                                              \
    }                                                                                                                 \
    int __tsan_atomic##N##_compare_exchange_weak(T volatile* a, T* c, T v, int mo, int fmo)                           \
    {                                                                                                                 \
        return cas<T>((T*) a, c, v, mo, fmo, RA);                                                               \
    }                                                                                                                 \
    T __tsan_atomic##N##_compare_exchange_val(T volatile* a, T c, T v, int mo, int fmo)                               \
    {                                                                                                                 \
        cas<T>((T*) a, &c, v, mo, fmo, RA);                                                                    \
        return c;                                                                                                     \
    }
    AT(8, uint8_t)
    AT(16, uint16_t)
    AT(32, uint32_t)
    AT(64, uint64_t)
    AT(128, u128)
    void __tsan_atomic_thread_fence(int mo)
    {
        if(!quiet_depth)
        {
            step(RA, true, false);
            if(mo == __ATOMIC_SEQ_CST)
                flush_sb(G.cur);
            hb_fence(mo);
        }
    }
    void __tsan_atomic_signal_fence(int)
    {
    }
}

// ================================================================ pthread seams
struct SimMutex // overlays pthread_mutex_t
{
    uint32_t owner; // thread id + 1
    uint32_t count;
    int pad[2];
    int kind;
};
static inline bool on()
{
    return G.active;
}
static inline uint32_t my()
{
    return (G.cur ? G.cur->id : 0) + 1;
}

extern "C"
{
    int pthread_mutex_init(pthread_mutex_t* m, pthread_mutexattr_t const* at)
    {
        memset(m, 0, sizeof *m);
        if(at)
        {
            int k = 0;
            pthread_mutexattr_gettype(at, &k);
            ((SimMutex*) m)->kind = k;
        }
        return 0;
    }
    int pthread_mutex_destroy(pthread_mutex_t*)
    {
        return 0;
    }
    static bool try_lock_now(SimMutex* m)
    {
        if(m->owner == 0)
        {
            m->owner = my();
            m->count = 1;
            return true;
        }
        if(m->owner == my() && (m->kind & 3) == 1)
        {
            m->count++;
            return true;
        }
        return false;
    }
    int pthread_mutex_lock(pthread_mutex_t* mm)
    {
        SimMutex* m = (SimMutex*) mm;
        if(!on() || quiet_depth)
        {
            if(!try_lock_now(m) && on())
                sim::fail("sim-error", "lock held in quiet section");
            return 0;
        }
        step(RA, true, false);
        flush_sb(G.cur);
        shadow_check(m, 4, true, RA);
        while(!try_lock_now(m))
            block(B_MUTEX, m);
        acquire(m);
        return 0;
    }
    int pthread_mutex_trylock(pthread_mutex_t* mm)
    {
        SimMutex* m = (SimMutex*) mm;
        if(on() && !quiet_depth)
        {
            step(RA, true, false);
            flush_sb(G.cur);
            shadow_check(m, 4, true, RA);
        }
        if(!try_lock_now(m))
            return EBUSY;
        if(on() && !quiet_depth)
            acquire(m);
        return 0;
    }
    int pthread_mutex_timedlock(pthread_mutex_t* m, struct timespec const*)
    {
        return pthread_mutex_lock(m);
    }
    int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, struct timespec const*)
    {
        return pthread_mutex_lock(m);
    }
    static void unlock_now(SimMutex* m)
    {
        if(--m->count == 0)
        {
            m->owner = 0;
            if(on())
                wake_all_on(B_MUTEX, m);
        }
    }
    int pthread_mutex_unlock(pthread_mutex_t* mm)
    {
        SimMutex* m = (SimMutex*) mm;
        if(!on() || quiet_depth)
        {
            unlock_now(m);
            return 0;
        }
        step(RA, true, false);
        flush_sb(G.cur);
        shadow_check(m, 4, true, RA);
        release(m);
        unlock_now(m);
        return 0;
    }

    int pthread_cond_init(pthread_cond_t* c, pthread_condattr_t const*)
    {
        memset(c, 0, sizeof *c);
        return 0;
    }
    int pthread_cond_destroy(pthread_cond_t*)
    {
        return 0;
    }
    static int cond_wait(pthread_cond_t* c, pthread_mutex_t* mm, bool timed, uint64_t deadline, void* pc)
    {
        if(!on() || quiet_depth)
            abort();
        SimMutex* m = (SimMutex*) mm;
        step(pc, true, false);
        flush_sb(G.cur);
        release(m);
        unlock_now(m);
        Thread* me = G.cur;
        me->timed = timed;
        me->timed_out = false;
        me->deadline = deadline;
        block(B_COND, c);
        me->timed = false;
        bool to = me->timed_out;
        while(!try_lock_now(m))
            block(B_MUTEX, m);
        acquire(m);
        return to ? ETIMEDOUT : 0;
    }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        return cond_wait(c, m, false, 0, RA);
    }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, struct timespec const* ts)
    {
        return cond_wait(c, m, true, (uint64_t) ts->tv_sec * 1000000000ull + ts->tv_nsec, RA);
    }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, struct timespec const* ts)
    {
        return cond_wait(c, m, true, (uint64_t) ts->tv_sec * 1000000000ull + ts->tv_nsec, RA);
    }
    int pthread_cond_signal(pthread_cond_t* c)
    {
        if(!on() || quiet_depth)
            return 0;
        step(RA, true, false);
        flush_sb(G.cur);
        Thread* w[MAXT];
        int n = 0;
        for(int i = 0; i < G.n_threads; ++i)
            if(G.t[i].st == B_COND && G.t[i].wait_addr == c)
                w[n++] = &G.t[i];
        if(n)
        {
            Thread* p = w[0];
            uint32_t v;
            if(G.spec.replay_sched)
            {
                if(replay_lookup(E_SIGNAL, v))
                    for(int i = 0; i < n; ++i)
                        if(w[i]->id == (int) v)
                            p = w[i];
            }
            else
                p = w[G.sc.below(n)];
            if(p != w[0])
                record(E_SIGNAL, p->id);
            p->st = RUNNABLE;
        }
        return 0;
    }
    int pthread_cond_broadcast(pthread_cond_t* c)
    {
        if(!on() || quiet_depth)
            return 0;
        step(RA, true, false);
        flush_sb(G.cur);
        wake_all_on(B_COND, c);
        return 0;
    }

    struct SimRW
    {
        uint32_t writer; // thread id + 1
        uint32_t readers;
    };
    int pthread_rwlock_init(pthread_rwlock_t* l, pthread_rwlockattr_t const*)
    {
        memset(l, 0, sizeof *l);
        return 0;
    }
    int pthread_rwlock_destroy(pthread_rwlock_t*)
    {
        return 0;
    }
    int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
    {
        SimRW* m = (SimRW*) l;
        if(on() && !quiet_depth)
            step(RA, true, false);
        if(m->writer)
            return EBUSY;
        m->readers++;
        if(on() && !quiet_depth)
            acquire(m);
        return 0;
    }
    int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
    {
        SimRW* m = (SimRW*) l;
        if(on() && !quiet_depth)
            step(RA, true, false);
        if(m->writer || m->readers)
            return EBUSY;
        m->writer = my();
        if(on() && !quiet_depth)
            acquire(m);
        return 0;
    }
    int pthread_rwlock_rdlock(pthread_rwlock_t* l)
    {
        SimRW* m = (SimRW*) l;
        if(on() && !quiet_depth)
        {
            step(RA, true, false);
            flush_sb(G.cur);
            while(m->writer)
                block(B_MUTEX, m);
            acquire(m);
        }
        m->readers++;
        return 0;
    }
    int pthread_rwlock_wrlock(pthread_rwlock_t* l)
    {
        SimRW* m = (SimRW*) l;
        if(on() && !quiet_depth)
        {
            step(RA, true, false);
            flush_sb(G.cur);
            while(m->writer || m->readers)
                block(B_MUTEX, m);
            acquire(m);
        }
        m->writer = my();
        return 0;
    }
    int pthread_rwlock_unlock(pthread_rwlock_t* l)
    {
        SimRW* m = (SimRW*) l;
        if(on() && !quiet_depth)
        {
            step(RA, true, false);
            flush_sb(G.cur);
            release(m);
        }
        if(m->writer)
            m->writer = 0;
        else
            m->readers--;
        if(on())
            wake_all_on(B_MUTEX, m);
        return 0;
    }
    int pthread_spin_lock(pthread_spinlock_t* s)
    {
        if(!on() || quiet_depth)
        {
            *(volatile int*) s = 1;
            return 0;
        }
        step(RA, true, false);
        while(*(volatile int*) s)
            spin_hint();
        *(volatile int*) s = 1;
        acquire((void*) s);
        return 0;
    }
    int pthread_spin_unlock(pthread_spinlock_t* s)
    {
        if(on() && !quiet_depth)
        {
            step(RA, true, false);
            release((void*) s);
        }
        *(volatile int*) s = 0;
        return 0;
    }

    // function-local statics
    int sim_guard_acquire(uint64_t* g) asm("__cxa_guard_acquire");
    int sim_guard_acquire(uint64_t* g)
    {
        uint8_t* b = (uint8_t*) g;
        if(!on() || quiet_depth)
        {
            if(b[0])
                return 0;
            b[1] = 1;
            return 1;
        }
        step(RA, true, false);
        flush_sb(G.cur);
        while(true)
        {
            if(b[0])
            {
                acquire(g);
                return 0;
            }
            if(!b[1])
            {
                b[1] = 1;
                return 1;
            }
            block(B_MUTEX, g);
        }
    }
    void sim_guard_release(uint64_t* g) asm("__cxa_guard_release");
    void sim_guard_release(uint64_t* g)
    {
        uint8_t* b = (uint8_t*) g;
        if(on() && !quiet_depth)
        {
            flush_sb(G.cur);
            release(g);
        }
        b[0] = 1;
        b[1] = 0;
        if(on())
            wake_all_on(B_MUTEX, g);
    }
    void sim_guard_abort(uint64_t* g) asm("__cxa_guard_abort");
    void sim_guard_abort(uint64_t* g)
    {
        ((uint8_t*) g)[1] = 0;
        if(on())
            wake_all_on(B_MUTEX, g);
    }

    // ------------------------------------------------------------ threads
    static void on_exit_key(void* p)
    {
        // runs after the C++ thread_local destructors of the thread
        Thread* me = (Thread*) p;
        if(!G.active)
            return;
        flush_sb(me);
        release(me);
        me->st = FINISHED;
        wake_all_on(B_JOIN, me);
        reschedule(true, true);
        // the real thread now ends without touching simulator state
    }
    static void setup_altstack(int id)
    {
        static char alt[MAXT][32768];
        stack_t ss;
        memset(&ss, 0, sizeof ss);
        ss.ss_sp = alt[id];
        ss.ss_size = sizeof alt[id];
        sigaltstack(&ss, nullptr);
    }
    static void* trampoline(void* p)
    {
        Thread* me = (Thread*) p;
        park(me);
        ++quiet_depth;
        setup_altstack(me->id);
        pthread_setspecific(exit_key, me);
        --quiet_depth;
        acquire(me);
        me->ret = me->fn(me->arg);
        return me->ret;
    }
    static Thread* new_thread(void* (*fn)(void*), void* arg)
    {
        if(G.n_threads >= MAXT)
            discard("too many threads");
        Thread* t = &G.t[G.n_threads];
        memset(t, 0, sizeof *t);
        t->id = G.n_threads++;
        vc_len = (G.n_threads + 7) & ~7;
        t->fn = fn;
        t->arg = arg;
        t->st = RUNNABLE;
        t->vc.c[t->id] = 1;
        t->prio = (1ull << 40) + G.sc.below(1u << 30);
        return t;
    }
    static int start_real(Thread* t)
    {
        void* stack = (void*) (STACK_BASE + t->id * STACK_SIZE);
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstack(&a, stack, STACK_SIZE);
        int r = real_pthread_create(&t->real, &a, trampoline, t);
        pthread_attr_destroy(&a);
        return r;
    }
    int pthread_create(pthread_t* out, pthread_attr_t const* attr, void* (*fn)(void*), void* arg)
    {
        if(!real_pthread_create)
            real_pthread_create = (decltype(real_pthread_create)) dlsym(RTLD_NEXT, "pthread_create");
        if(!on())
            return real_pthread_create(out, attr, fn, arg);
        step(RA, true, false);
        flush_sb(G.cur);
        if(inject(F_THREAD))
        {
            n_failed_threads++;
            return EAGAIN;
        }
        Thread* t = new_thread(fn, arg);
        t->vc.join(G.cur->vc);
        release(t);
        int r = start_real(t);
        if(r)
            sim::fail("sim-error", "pthread_create failed: %d", r);
        __libc_single_threaded = 0;
        *out = t->real;
        if(inject(F_LATESTART))
            t->stalled_until = G.step + 1024;
        return 0;
    }
    int pthread_join(pthread_t th, void** ret)
    {
        if(!on())
            return real_pthread_join ? real_pthread_join(th, ret)
                                     : ((int (*)(pthread_t, void**)) dlsym(RTLD_NEXT, "pthread_join"))(th, ret);
        step(RA, true, false);
        flush_sb(G.cur);
        Thread* t = nullptr;
        for(int i = 0; i < G.n_threads; ++i)
            if(G.t[i].real && pthread_equal(G.t[i].real, th))
                t = &G.t[i];
        if(!t)
            return ESRCH;
        while(t->st != FINISHED)
            block(B_JOIN, t);
        acquire(t);
        real_pthread_join(th, nullptr);
        t->real = 0;
        if(ret)
            *ret = t->ret;
        return 0;
    }
    int pthread_detach(pthread_t)
    {
        return 0;
    }
    int sched_yield()
    {
        if(on() && !quiet_depth)
        {
            G.cur->last_pc = RA;
            flush_sb(G.cur);
            reschedule(false);
        }
        return 0;
    }

    // ------------------------------------------------------------ clocks
    static void sim_sleep(uint64_t ns)
    {
        flush_sb(G.cur);
        G.cur->deadline = now_ns() + ns;
        block(B_SLEEP, nullptr);
    }
    int nanosleep(struct timespec const* ts, struct timespec*)
    {
        if(on())
        {
            sim_sleep((uint64_t) ts->tv_sec * 1000000000ull + ts->tv_nsec);
            return 0;
        }
        return syscall(SYS_nanosleep, ts, nullptr);
    }
    int clock_nanosleep(clockid_t, int flags, struct timespec const* ts, struct timespec*)
    {
        if(on())
        {
            uint64_t ns = (uint64_t) ts->tv_sec * 1000000000ull + ts->tv_nsec;
            if(flags & TIMER_ABSTIME)
                ns = ns > now_ns() ? ns - now_ns() : 0;
            sim_sleep(ns);
            return 0;
        }
        return syscall(SYS_nanosleep, ts, nullptr);
    }
    int usleep(useconds_t us)
    {
        struct timespec ts = {(time_t) (us / 1000000), (long) (us % 1000000) * 1000};
        return nanosleep(&ts, nullptr);
    }
    unsigned sleep(unsigned s)
    {
        struct timespec ts = {(time_t) s, 0};
        nanosleep(&ts, nullptr);
        return 0;
    }
    int clock_gettime(clockid_t c, struct timespec* ts)
    {
        if(on())
        {
            uint64_t n = now_ns();
            ts->tv_sec = n / 1000000000ull;
            ts->tv_nsec = n % 1000000000ull;
            return 0;
        }
        return syscall(SYS_clock_gettime, c, ts);
    }
    int gettimeofday(struct timeval* tv, void*)
    {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    time_t time(time_t* t)
    {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        if(t)
            *t = ts.tv_sec;
        return ts.tv_sec;
    }

    // ------------------------------------------------------------ failures of the code under test
    void __assert_fail(char const* e, char const* file, unsigned line, char const* fn)
    {
        char const* b = strrchr(file, '/');
        if(!on())
        {
            fprintf(stderr, "assert %s %s:%u\n", e, file, line);
            _exit(99);
        }
        sim::expected_assert_failed();
        sim::fail("assert", "assertion failed: %s (%s:%u, %s)", e, b ? b + 1 : file, line, fn);
    }
    void abort()
    {
        if(on())
            sim::fail("abort", "abort() called");
        fprintf(stderr, "abort() in simulator\n");
        _exit(98);
    }
}

namespace sim
{
    static void on_terminate()
    {
        char const* what = "";
        char buf[256] = "";
        if(auto p = std::current_exception())
        {
            try
            {
                std::rethrow_exception(p);
            }
            catch(std::exception const& e)
            {
                snprintf(buf, sizeof buf, "%s", e.what());
                what = buf;
            }
            catch(...)
            {
                what = "non-standard exception";
            }
        }
        if(!G.active)
        {
            fprintf(stderr, "terminate in simulator: %s\n", what);
            _exit(97);
        }
        fail("terminate", "std::terminate: %s", what);
    }
    static void on_signal(int sig, siginfo_t* si, void*)
    {
        if(!G.active)
        {
            fprintf(stderr, "signal %d in simulator addr %p\n", sig, si->si_addr);
            _exit(96);
        }
        char const* n = sig == SIGSEGV   ? "invalid memory access"
                        : sig == SIGBUS  ? "bus error"
                        : sig == SIGFPE  ? "arithmetic fault"
                        : sig == SIGXCPU ? "endless computation without synchronisation"
                                         : "fatal signal";
        fail(sig == SIGXCPU ? "hang" : "crash", "%s (signal %d, address %p) after %p in thread %d", n, sig, si->si_addr, G.cur->last_pc, G.cur->id);
    }

    void rt_init()
    {
        real_pthread_create = (decltype(real_pthread_create)) dlsym(RTLD_NEXT, "pthread_create");
        real_pthread_join = (decltype(real_pthread_join)) dlsym(RTLD_NEXT, "pthread_join");
        pthread_key_create(&exit_key, on_exit_key);
        locs = (Loc*) mmap((void*) 0x160000000000ull, sizeof(Loc) * LOCN + LOCN * 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        loc_index = (uint32_t*) (locs + LOCN);
        loc_mask = 1023;
        if(locs == MAP_FAILED)
            _exit(95);
        void* p = mmap((void*) STACK_BASE, STACK_SIZE * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if(p == MAP_FAILED)
            _exit(95);
        std::set_terminate(on_terminate);
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_sigaction = on_signal;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
        for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGXCPU})
            sigaction(s, &sa, nullptr);
    }

    static ScenarioFn main_fn;
    static void* main_body(void*)
    {
        --quiet_depth;
        main_fn();
        ++quiet_depth;
        finish(V_OK);
        return nullptr;
    }

    void run_child(RunSpec const& spec, RunResult* res, ScenarioFn fn)
    {
        struct rlimit rl = {20, 30};
        setrlimit(RLIMIT_CPU, &rl);
        G.spec = spec;
        G.res = res;
        main_fn = fn;
        uint64_t s = spec.seed;
        G.wl.seed(s * 2 + 1);
        G.sc.seed((s * 2 + 2) ^ 0x5bd1e995cafef00dull);
        G.max_steps = spec.max_steps;
        G.horizon = spec.max_steps / 3 < 1000000 ? spec.max_steps / 3 : 1000000; // faults stop here
        mem_in_run = true;
        // scheduling strategy of this run: part of the recorded choices, so that replay knows it
        uint32_t st = choose(10);
        G.strat = st >= 7 ? 1 : 0;
        G.inv_p = 1u << choose(11);
        static uint32_t const skips[] = {1, 4, 16, 64, 1000};
        G.plain_skip = skips[choose(5)];
        G.n_pct = choose(6);
        uint32_t len = 200u << choose(10);
        for(int i = 0; i < G.n_pct; ++i)
            G.pct_points[i] = 1 + choose(len);
        for(int i = 0; i < G.n_pct; ++i)
            for(int j = i + 1; j < G.n_pct; ++j)
                if(G.pct_points[j] < G.pct_points[i])
                {
                    uint64_t x = G.pct_points[i];
                    G.pct_points[i] = G.pct_points[j];
                    G.pct_points[j] = x;
                }
        G.pct_low = 1u << 30;
        G.quantum = 8000;
        G.spin_limit = 48;
        G.reuse = choose(4) == 3;
        mem_dirty = choose(2);
        if(mem_dirty)
            res->faults[F_DIRTY]++;
        if(G.reuse)
            res->faults[F_REUSE]++;
        static uint32_t const stall[] = {0, 0, 2000, 20000, 100000};
        G.fault_ppm[F_STALL] = stall[choose(5)];
        static uint32_t const spur[] = {0, 0, 1000, 30000};
        G.fault_ppm[F_SPURIOUS] = spur[choose(4)];
        static uint32_t const cf[] = {0, 0, 20000, 300000};
        G.fault_ppm[F_CASFAIL] = cf[choose(4)];
        static uint32_t const sb[] = {0, 0, 50000, 500000};
        G.fault_ppm[F_STOREBUF] = sb[choose(4)];
        static uint32_t const ls[] = {0, 0, 500000};
        G.fault_ppm[F_LATESTART] = ls[choose(3)];
        mem_begin_run();
        new_thread(main_body, nullptr);
        G.cur = &G.t[0];
        G.cur->slice = 0;
        schedule_next();
        G.active = true; // quiet until main_body
        G.t[0].go = 1;
        if(start_real(&G.t[0]))
            _exit(94);
        __libc_single_threaded = 0;
        while(true)
            ::pause();
    }
} // namespace sim
