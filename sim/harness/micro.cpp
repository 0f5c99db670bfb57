// The concurrent building blocks of redGrapes, each driven directly by several simulated threads.
#include "model.hpp"

// each part can be built on its own; by default all are
#if !defined(MICRO_C01) && !defined(MICRO_C12) && !defined(MICRO_C13) && !defined(MICRO_C14) && !defined(MICRO_C15) && !defined(MICRO_C16)
#    define MICRO_C01
#    define MICRO_C12
#    define MICRO_C13
#    define MICRO_C14
#    define MICRO_C15
#    define MICRO_C16
#endif

#ifdef MICRO_C12
#    include <redGrapes/memory/chunked_bump_alloc.hpp>
#endif
#ifdef MICRO_C12
#    include <redGrapes/memory/hwloc_alloc.hpp>
#endif
#include <redGrapes/redGrapes.hpp>
#ifdef MICRO_C14
#    include <redGrapes/sync/cv.hpp>
#endif
#include <redGrapes/sync/spinlock.hpp>
#ifdef MICRO_C16
#    include <redGrapes/task/queue.hpp>
#endif
#ifdef MICRO_C15
#    include <redGrapes/util/bitfield.hpp>
#endif
#include <redGrapes/util/chunked_list.hpp>

#include <atomic>
#include <cmath>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <thread>

namespace rg = redGrapes;
using sim::chance;
using sim::choose;
using sim::range;

namespace
{
    void sched_faults(bool os)
    {
        using namespace sim;
        if(chance(8, 16))
            set_fault(F_STALL, 1u << range(8, 14));
        if(chance(6, 16))
            set_fault(F_SPURIOUS, 1u << range(10, 17));
        if(chance(6, 16))
            set_fault(F_CASFAIL, 1u << range(10, 18));
        if(chance(4, 16))
            set_fault(F_LATESTART, 300000);
        if(chance(8, 16))
            set_fault(F_DIRTY, 1000000);
        if(chance(8, 16))
            set_fault(F_REUSE, 1000000);
        sim::osalloc_tid = -2;
        if(os && chance(6, 16))
        {
            set_fault(F_OSALLOC, 1u << range(15, 19));
            sim::osalloc_tid = -1;
        }
        sim::n_pus = 2;
    }

    // joins the threads also if starting them is interrupted by nothing at all: a plain helper
    struct Threads
    {
        std::vector<std::thread> t;
        template<typename F>
        void start(F f)
        {
            t.emplace_back(f);
        }
        void join()
        {
            for(auto& x : t)
                x.join();
            t.clear();
        }
    };

#ifdef MICRO_C12
    // ================================================================ C12: arena allocator
    using Arena = rg::memory::ChunkedBumpAlloc<rg::memory::HwlocAlloc>;
    using rg::memory::Block;

    struct Live
    {
        Block b;
        size_t n;
        unsigned char pat;
    };
    struct ArenaWorld
    {
        Arena* arena;
        size_t chunk;
        std::mutex pool_mutex;
        std::deque<Live> pool; // blocks any thread may release
        std::map<uintptr_t, size_t> live; // oracle
        size_t peak_live = 0, allocs = 0, refused = 0, big = 0;
    };
    ArenaWorld* aw;

    void arena_fill(Live const& l)
    {
        auto* p = (unsigned char*) l.b.ptr;
        for(size_t i = 0; i < l.n; i = i < 8 ? i + 1 : i * 2)
            p[i] = l.pat + i;
        p[l.n - 1] = l.pat;
    }
    void arena_verify(Live const& l)
    {
        auto* p = (unsigned char*) l.b.ptr;
        if(p[l.n - 1] != l.pat)
            sim::fail("value", "the last byte of a live block of %zu bytes was overwritten", l.n);
        for(size_t i = 0; i < l.n - 1; i = i < 8 ? i + 1 : i * 2)
            if(p[i] != (unsigned char) (l.pat + i))
                sim::fail("value", "byte %zu of a live block of %zu bytes was overwritten", i, l.n);
    }
    bool arena_alloc(size_t n, Live& out)
    {
        uint64_t failed;
        {
            sim::Quiet q;
            failed = sim::os_failed_allocs();
        }
        Block b = aw->arena->allocate(n);
        sim::Quiet q;
        bool refused_by_os = sim::os_failed_allocs() != failed;
        if(!b.ptr)
        {
            if(n <= aw->chunk / 4 && !refused_by_os)
                sim::fail("alloc-refused", "a request of %zu bytes from an arena with chunks of %zu bytes failed although the system refused no memory", n, aw->chunk);
            aw->refused++;
            return false;
        }
        if(n > aw->chunk)
            sim::fail("alloc-invalid", "a request of %zu bytes from an arena with chunks of %zu bytes succeeded", n, aw->chunk);
        if(b.len < n)
            sim::fail("alloc-short", "a request of %zu bytes returned a block of %zu bytes", n, (size_t) b.len);
        if(!sim::os_owned((void*) b.ptr, b.len))
            sim::fail("alloc-foreign", "a block of %zu bytes lies outside of memory obtained from the system", (size_t) b.len);
        auto it = aw->live.lower_bound(b.ptr + b.len);
        if(it != aw->live.begin())
        {
            --it;
            if(it->first + it->second > b.ptr)
                sim::fail("alloc-overlap", "a block of %zu bytes overlaps a live block of %zu bytes", (size_t) b.len, it->second);
        }
        aw->live[b.ptr] = b.len;
        aw->allocs++;
        aw->peak_live = std::max(aw->peak_live, aw->live.size());
        out = Live{b, n, (unsigned char) (aw->allocs * 37 + 11)};
        return true;
    }
    void arena_free(Live const& l)
    {
        arena_verify(l);
        {
            sim::Quiet q;
            aw->live.erase(l.b.ptr);
        }
        aw->arena->deallocate(l.b);
    }

    struct ArenaOp
    {
        uint8_t kind; // 0 alloc, 1 free newest own, 2 free oldest own, 3 put into pool, 4 free from pool
        size_t size;
    };
    void arena_thread(std::vector<ArenaOp> const& ops)
    {
        std::deque<Live> own;
        for(auto const& op : ops)
        {
            Live l;
            switch(op.kind)
            {
            case 0:
                if(arena_alloc(op.size, l))
                {
                    arena_fill(l);
                    sim::Quiet q;
                    own.push_back(l);
                }
                break;
            case 1:
            case 2:
            case 3:
                {
                    {
                        sim::Quiet q;
                        if(own.empty())
                            break;
                        l = op.kind == 1 ? own.back() : own.front();
                        if(op.kind == 1)
                            own.pop_back();
                        else
                            own.pop_front();
                    }
                    if(op.kind == 3)
                    {
                        std::lock_guard<std::mutex> g(aw->pool_mutex);
                        sim::Quiet q;
                        aw->pool.push_back(l);
                    }
                    else
                        arena_free(l);
                    break;
                }
            default:
                {
                    {
                        std::lock_guard<std::mutex> g(aw->pool_mutex);
                        sim::Quiet q;
                        if(aw->pool.empty())
                            break;
                        l = aw->pool.front();
                        aw->pool.pop_front();
                    }
                    arena_free(l);
                }
            }
        }
        for(auto const& l : own)
        {
            std::lock_guard<std::mutex> g(aw->pool_mutex);
            sim::Quiet q;
            aw->pool.push_back(l);
        }
    }

    void scen_c12()
    {
        using namespace sim;
        sched_faults(true);
        uint64_t base_chunks = os_live_chunks(), base_bytes = os_live_bytes();
        rg::HwlocContext hw;
        hwloc_obj_t obj = hwloc_get_obj_by_type(hw.topology, HWLOC_OBJ_PU, 0);
        static size_t const sizes[] = {0x800, 0x1000, 0x4000, 0x10000};
        ArenaWorld w;
        aw = &w;
        w.chunk = sizes[choose(4)];
        int n_thr = range(1, 4);
        std::vector<std::vector<ArenaOp>> plan(n_thr);
        {
            Quiet q;
            int p_free = range(3, 8), p_pool = range(1, 4), big = range(0, 6);
            for(auto& ops : plan)
            {
                int n = range(1, 14);
                for(int i = 0; i < n; ++i)
                {
                    ArenaOp op;
                    op.size = 1;
                    if(chance(p_free, 16))
                        op.kind = 1 + choose(2);
                    else if(chance(p_pool, 16))
                        op.kind = 3 + choose(2);
                    else
                    {
                        op.kind = 0;
                        switch(choose(8))
                        {
                        case 0:
                        case 1:
                            op.size = range(1, 64);
                            break;
                        case 2:
                        case 3:
                        case 4:
                            op.size = range(1, w.chunk / 4);
                            break;
                        case 5:
                        case 6:
                            op.size = range(w.chunk / 16, w.chunk / 4);
                            break;
                        default:
                            {
                                static size_t const odd[] = {0, 1, ~size_t(0), size_t(1) << 63, (size_t(1) << 63) + 1, size_t(1) << 40};
                                if(chance(big, 16))
                                {
                                    op.size = odd[choose(6)];
                                    if(op.size < 2)
                                        op.size = w.chunk + op.size * range(1, 64);
                                }
                                else
                                    op.size = range(w.chunk / 4, w.chunk + 16);
                            }
                        }
                    }
                    ops.push_back(op);
                }
            }
        }
        uint64_t chunks_peak_allowed = 0;
        {
            Arena arena(rg::memory::HwlocAlloc(hw, obj), w.chunk);
            w.arena = &arena;
            {
                Threads t;
                for(int i = 1; i < n_thr; ++i)
                    t.start([&plan, i] { arena_thread(plan[i]); });
                arena_thread(plan[0]);
                t.join();
            }
            // everything that is left is released here
            while(!w.pool.empty())
            {
                Live l = w.pool.front();
                w.pool.pop_front();
                arena_free(l);
            }
            // a long-running program with bounded live data needs bounded memory
            bool churn = chance(6, 16);
            int window = churn ? range(1, 5) : 0, rounds = churn ? range(10, 60) : 0;
            size_t csize = churn ? range(w.chunk / 64, w.chunk / 5) : 0;
            set_fault(F_OSALLOC, 0);
            std::deque<Live> own;
            for(int i = 0; i < rounds; ++i)
            {
                Live l;
                if(!arena_alloc(csize, l))
                    fail("alloc-refused", "a request of %zu bytes failed", csize);
                arena_fill(l);
                own.push_back(l);
                if((int) own.size() > window)
                {
                    Live x = (i & 3) ? own.front() : own.back();
                    if(i & 3)
                        own.pop_front();
                    else
                        own.pop_back();
                    arena_free(x);
                }
                if(i > 8 && os_live_chunks() - base_chunks > own.size() + n_thr + 4)
                    fail("unbounded", "%llu pieces of memory are held for %zu live blocks after %d allocations", (unsigned long long) (os_live_chunks() - base_chunks), own.size(), i);
            }
            for(auto const& l : own)
                arena_free(l);
            own.clear();
            // one more block makes sure that the newest piece is looked at
            Live l;
            for(int i = 0; i < 2; ++i)
                if(arena_alloc(w.chunk / 5, l))
                {
                    arena_fill(l);
                    arena_free(l);
                }
            if(os_live_chunks() - base_chunks > 2u + n_thr)
                fail("unbounded", "%llu pieces of memory are still held although no block is live (%zu threads were active)", (unsigned long long) (os_live_chunks() - base_chunks), (size_t) n_thr);
        }
        if(os_live_chunks() != base_chunks || os_live_bytes() != base_bytes)
            fail("leak", "%llu pieces of memory (%llu bytes) are not returned to the system when the arena is destroyed", (unsigned long long) (os_live_chunks() - base_chunks), (unsigned long long) (os_live_bytes() - base_bytes));
        sample("%d threads, chunks of %zu bytes, %zu blocks handed out, at most %zu at once, %zu requests refused", n_thr, w.chunk, w.allocs, w.peak_live, w.refused);
        if(w.allocs >= 2)
            nontrivial();
    }
    sim::Scenario s12("C12", scen_c12, "at least two blocks are handed out");

#endif // MICRO_C12
#ifdef MICRO_C13
    // ================================================================ C13: concurrent list
    struct Elem
    {
        int id;
        uint32_t canary;
        explicit Elem(int id) : id(id), canary(0x51e55ed + id)
        {
            M::tr_new(this, M::TR_ARG, id);
        }
        Elem(Elem const& o) : id(o.id), canary(o.canary)
        {
            M::tr_use(&o);
            M::tr_new(this, M::TR_ARG, id);
        }
        ~Elem()
        {
            M::tr_del(this);
            canary = 0xdead;
        }
        bool operator==(Elem const& o) const
        {
            M::tr_use(this);
            return id == o.id;
        }
    };
    struct ElemHist
    {
        uint64_t push_b = 0, push_e = 0, rem_b = 0, rem_e = 0; // sequence numbers, 0: never
        bool failed = false;
        uint64_t piece = 0; // piece of memory it lies in
        sim::Epoch pushed, removed;
    };
    struct ListWorld
    {
        std::vector<ElemHist> h;
        uint64_t seq = 0;
        std::atomic<int> pushed[64]; // tells removers (with synchronisation) that an element exists
        int visits = 0, iters = 0, removes = 0;
    };
    ListWorld* lw;
    uint64_t tick()
    {
        return ++lw->seq;
    }
    void check_elem(Elem const& e)
    {
        M::tr_use(&e);
        int id = e.id;
        if(id < 0 || id >= (int) lw->h.size() || e.canary != 0x51e55ed + (uint32_t) id)
            sim::fail("value", "an element of the list is not intact while an iterator refers to it");
    }
    template<typename L>
    void list_iterate(L& l, int dwell, bool konst)
    {
        uint64_t b;
        std::vector<std::pair<int, uint64_t>> seen;
        {
            sim::Quiet q;
            b = tick();
        }
        sim::Epoch be = sim::now();
        auto visit = [&](Elem const& e)
        {
            check_elem(e);
            {
                sim::Quiet q;
                seen.push_back({e.id, tick()});
                lw->visits++;
            }
            sim::pause(dwell);
            check_elem(e);
        };
        if(konst)
            for(auto it = l.crbegin(); it != l.crend(); ++it)
                visit(*it);
        else
            for(auto it = l.rbegin(); it != l.rend(); ++it)
                visit(*it);
        sim::Quiet q;
        uint64_t e = tick();
        lw->iters++;
        std::vector<int> count(lw->h.size(), 0);
        for(size_t i = 0; i < seen.size(); ++i)
        {
            int x = seen[i].first;
            auto const& hx = lw->h[x];
            if(count[x]++)
                sim::fail("twice", "element %d is visited twice by one iteration", x);
            if(!hx.push_b)
                sim::fail("invented", "element %d is visited but was not pushed yet", x);
            if(hx.rem_e && hx.rem_e < b)
                sim::fail("resurrected", "element %d is visited but its removal had completed before the iteration began", x);
            for(size_t j = i + 1; j < seen.size(); ++j)
            {
                auto const& hy = lw->h[seen[j].first];
                if(hx.push_e && hy.push_b && hx.push_e < hy.push_b)
                    sim::fail("order-list", "element %d is visited before the newer element %d", x, seen[j].first);
            }
        }
        for(size_t x = 0; x < lw->h.size(); ++x)
        {
            auto const& hx = lw->h[x];
            if(hx.push_e && hx.push_e < b && !hx.rem_b && !count[x])
                sim::fail("lost", "element %zu is not visited although its push had completed before the iteration began and it was not removed", x);
        }
    }
    template<typename L>
    void list_push(L& l, int id)
    {
        Elem e(id);
        {
            sim::Quiet q;
            lw->h[id].push_b = tick();
        }
        uint64_t failed = sim::os_failed_allocs();
        try
        {
            auto it = l.push(e);
            // nobody was told yet that this element exists, so nobody removes it
            if(!it.is_valid() || it->id != id)
                sim::fail("lost", "push of element %d does not return an iterator that refers to it", id);
            check_elem(*it);
            sim::Quiet q;
            lw->h[id].piece = sim::os_serial(&*it);
        }
        catch(std::bad_alloc const&)
        {
            sim::Quiet q;
            if(sim::os_failed_allocs() == failed)
                sim::fail("push-failed", "pushing element %d failed although the system refused no memory", id);
            lw->h[id].push_b = 0;
            lw->h[id].failed = true;
            return;
        }
        {
            sim::Quiet q;
            lw->h[id].push_e = tick();
        }
        lw->pushed[id].store(1, std::memory_order_release);
    }
    template<typename L>
    void list_remove(L& l, int id, bool erase)
    {
        if(!lw->pushed[id].load(std::memory_order_acquire))
            return;
        {
            sim::Quiet q;
            lw->h[id].rem_b = tick();
            lw->removes++;
        }
        if(erase)
            l.erase(Elem(id));
        else
        {
            bool found = false;
            for(auto it = l.rbegin(); it != l.rend(); ++it)
            {
                check_elem(*it);
                if(it->id == id)
                {
                    l.remove(it);
                    found = true;
                    break;
                }
            }
            if(!found)
                sim::fail("lost", "element %d is not found although its push had completed and nobody else removes it", id);
        }
        sim::Quiet q;
        lw->h[id].rem_e = tick();
    }
    // an iterator which is copied and assigned to refers to the element for as long as it says so
    template<typename L>
    void list_hold(L& l, int dwell)
    {
        auto hold = l.rbegin();
        if(hold.is_valid())
            check_elem(*hold);
        for(auto it = l.rbegin(); it != l.rend(); ++it)
        {
            check_elem(*it);
            int id = it->id;
            if(sim::chance(8, 16))
            {
                hold = it;
                bool got = hold.is_valid();
                if(!got)
                {
                    sim::Quiet q;
                    if(!lw->h[id].rem_b)
                        sim::fail("lost", "an iterator that is assigned to does not refer to element %d, although it was not removed", id);
                }
                else if(hold->id != id)
                    sim::fail("value", "an iterator that is assigned to refers to element %d instead of %d", hold->id, id);
            }
            else
            {
                auto copy = it;
                int cid = -1;
                if(copy.is_valid())
                {
                    sim::pause(dwell);
                    check_elem(*copy);
                    cid = copy->id;
                }
                if(cid != id)
                {
                    sim::Quiet q;
                    if(!lw->h[id].rem_b)
                        sim::fail("lost", "a copied iterator does not refer to element %d, although it was not removed", id);
                }
            }
            sim::pause(dwell);
            check_elem(*it);
            if(hold.is_valid())
                check_elem(*hold);
            sim::Quiet q;
            lw->visits++;
        }
        if(hold.is_valid())
        {
            sim::pause(dwell);
            check_elem(*hold);
        }
    }
    struct ListOp
    {
        uint8_t kind; // 0 push, 1 remove, 2 erase, 3 iterate, 4 iterate const, 5 hold
        int arg;
    };
    template<typename L>
    void list_thread(L& l, std::vector<ListOp> const& ops)
    {
        for(auto const& op : ops)
            switch(op.kind)
            {
            case 0:
                list_push(l, op.arg);
                break;
            case 1:
            case 2:
                list_remove(l, op.arg, op.kind == 2);
                break;
            case 5:
                list_hold(l, op.arg);
                break;
            default:
                list_iterate(l, op.arg, op.kind == 4);
            }
    }
    template<size_t K>
    void run_list()
    {
        using namespace sim;
        using L = rg::ChunkedList<Elem, K, rg::memory::HwlocAlloc>;
        uint64_t base_chunks = os_live_chunks();
        rg::HwlocContext hw;
        hwloc_obj_t obj = hwloc_get_obj_by_type(hw.topology, HWLOC_OBJ_PU, 0);
        ListWorld w;
        lw = &w;
        for(auto& p : w.pushed)
            p = 0;
        int n_thr = range(1, 4);
        int n_elem = 0;
        std::vector<ListOp> before;
        std::vector<std::vector<ListOp>> plan(n_thr);
        {
            Quiet q;
            int n_before = range(0, chance(4, 16) ? 12 : 4);
            for(int i = 0; i < n_before; ++i)
                before.push_back({0, n_elem++});
            int p_it = range(2, 8);
            for(auto& ops : plan)
            {
                int n = range(1, 8);
                for(int i = 0; i < n && n_elem < 60; ++i)
                    if(chance(p_it, 16))
                        ops.push_back({uint8_t(3 + choose(3)), (int) choose(4)});
                    else
                        ops.push_back({0, n_elem++});
            }
            // every element is removed at most once, by anybody
            int p_rem = range(0, 14);
            for(int x = 0; x < n_elem; ++x)
                if(chance(p_rem, 16))
                {
                    auto& ops = plan[choose(n_thr)];
                    ops.insert(ops.begin() + choose(ops.size() + 1), ListOp{uint8_t(1 + choose(2)), x});
                }
        }
        w.h.resize(n_elem);
        {
            L l(rg::memory::HwlocAlloc(hw, obj));
            list_thread(l, before);
            {
                Threads t;
                for(int i = 1; i < n_thr; ++i)
                    t.start([&l, &plan, i] { list_thread(l, plan[i]); });
                list_thread(l, plan[0]);
                t.join();
            }
            list_iterate(l, 0, false);
            // what was removed is destroyed by now, what was not is alive
            size_t expect = 0;
            for(auto const& x : w.h)
                expect += x.push_e && !x.rem_e;
            size_t alive = M::tr_count();
            if(alive != expect)
                fail("lifetime", "%zu elements are in the list but %zu are alive", expect, alive);
            // pieces whose elements are all removed are given back, except for the newest one
            {
                std::map<uint64_t, std::pair<size_t, size_t>> pieces;
                for(auto const& x : w.h)
                    if(x.push_e)
                    {
                        pieces[x.piece].first++;
                        pieces[x.piece].second += x.rem_e != 0;
                    }
                size_t used = 0;
                for(auto const& p : pieces)
                {
                    if(p.second.first > K)
                        fail("unbounded", "%zu elements lie in one piece of memory for %zu", p.second.first, K);
                    used += p.second.second < K;
                }
                // pieces are obtained one after the other
                if(!pieces.empty() && pieces.rbegin()->second.second == K)
                    used++;
                if(os_live_chunks() - base_chunks > used)
                    fail("unbounded", "%llu pieces of memory are held for %zu elements, although only %zu of the pieces are the newest one or not completely removed", (unsigned long long) (os_live_chunks() - base_chunks), alive, used);
            }
            if(chance(6, 16))
            {
                set_fault(F_OSALLOC, 0);
                L copy(rg::memory::HwlocAlloc(hw, obj), l);
                std::vector<int> a, b;
                for(auto it = l.rbegin(); it != l.rend(); ++it)
                    a.push_back(it->id);
                for(auto it = copy.rbegin(); it != copy.rend(); ++it)
                    b.push_back(it->id);
                if(a != b)
                    fail("order-list", "a copy of the list does not have the same elements in the same order");
            }
        }
        M::tr_check_empty("after the list was destroyed");
        if(os_live_chunks() != base_chunks)
            fail("leak", "%llu chunks of a destroyed list are not returned", (unsigned long long) (os_live_chunks() - base_chunks));
        sample("%d threads, chunks of %zu, %d elements, %d removed, %d iterations with %d visits", n_thr, K, n_elem, w.removes, w.iters, w.visits);
        if(w.visits > 0 && n_elem >= 2)
            nontrivial();
    }
    // ---- the list of chunks underneath: append, iterate and erase by any number of threads
    struct Node
    {
        int id;
        uint32_t canary;
        explicit Node(rg::memory::Block);
        ~Node()
        {
            M::tr_del(this);
            canary = 0xdead;
        }
    };
    struct NodeHist
    {
        uint64_t add_b = 0, add_e = 0, del_b = 0, del_e = 0;
    };
    struct NodeWorld
    {
        std::vector<NodeHist> h;
        std::vector<std::vector<std::pair<int, uint64_t>>> visits;
        uint64_t seq = 0;
        int iters = 0, erased = 0;
    };
    NodeWorld* nw;
    // by construction within the call of this thread
    thread_local int cur_node;
    Node::Node(rg::memory::Block)
    {
        sim::Quiet q;
        id = nw->h.size();
        canary = 0x51e55ed + id;
        nw->h.push_back({++nw->seq});
        M::tr_new(this, M::TR_ARG, id);
        cur_node = id;
    }
    void check_node(Node const& n)
    {
        M::tr_use(&n);
        if(n.canary != 0x51e55ed + (uint32_t) n.id)
            sim::fail("value", "a chunk is not intact while an iterator refers to it");
    }
    using NodeList = rg::memory::AtomicList<Node, rg::memory::HwlocAlloc>;
    void node_iterate(NodeList& l, int dwell)
    {
        uint64_t b;
        std::vector<int> seen;
        {
            sim::Quiet q;
            b = ++nw->seq;
        }
        auto visit = [&](Node const& n)
        {
            check_node(n);
            {
                sim::Quiet q;
                seen.push_back(n.id);
            }
            sim::pause(dwell);
            check_node(n);
        };
        if(dwell & 1)
            for(auto it = l.crbegin(); it != l.crend(); ++it)
                visit(*it);
        else
            for(auto it = l.rbegin(); it != l.rend(); ++it)
            {
                visit(*it);
                if(dwell == 2)
                    it.optimize();
            }
        sim::Quiet q;
        nw->iters++;
        std::vector<int> count(nw->h.size(), 0);
        for(size_t i = 0; i < seen.size(); ++i)
        {
            if(count[seen[i]]++)
                sim::fail("twice", "chunk %d is visited twice by one iteration", seen[i]);
            for(size_t j = i + 1; j < seen.size(); ++j)
            {
                auto const &x = nw->h[seen[i]], &y = nw->h[seen[j]];
                if(x.add_e && y.add_b && x.add_e < y.add_b)
                    sim::fail("order-list", "chunk %d is visited before the newer chunk %d", seen[i], seen[j]);
            }
        }
        for(size_t x = 0; x < nw->h.size(); ++x)
        {
            auto const& h = nw->h[x];
            if(h.add_e && h.add_e < b && !h.del_b && !count[x])
                sim::fail("lost", "chunk %zu is not visited although it was added before the iteration began and was not erased", x);
        }
    }
    void run_chunks()
    {
        using namespace sim;
        uint64_t base_chunks = os_live_chunks();
        rg::HwlocContext hw;
        hwloc_obj_t obj = hwloc_get_obj_by_type(hw.topology, HWLOC_OBJ_PU, 0);
        NodeWorld w;
        nw = &w;
        int n_thr = range(2, 4);
        std::vector<std::vector<uint8_t>> plan(n_thr);
        {
            Quiet q;
            int p_erase = range(0, 8);
            for(auto& ops : plan)
                for(int i = range(1, 6); i > 0; --i)
                    ops.push_back(chance(p_erase, 16) ? 2 : chance(4, 16) ? 1 : 0); // append, iterate, erase one of mine
        }
        int total = 0;
        {
            NodeList l(rg::memory::HwlocAlloc(hw, obj), 64 + NodeList::get_controlblock_size());
            auto work = [&](int me)
            {
                std::vector<int> mine;
                for(auto op : plan[me])
                    if(op == 0)
                    {
                        uint64_t failed = os_failed_allocs();
                        try
                        {
                            l.allocate_item();
                            Quiet q;
                            w.h[cur_node].add_e = ++w.seq;
                            mine.push_back(cur_node);
                            total++;
                        }
                        catch(std::bad_alloc const&)
                        {
                            Quiet q;
                            if(os_failed_allocs() == failed)
                                fail("push-failed", "adding a chunk failed although the system refused no memory");
                        }
                    }
                    else if(op == 1)
                        node_iterate(l, choose(4));
                    else
                    {
                        // the newest one must not be erased: it is known not to be, if it is not the first which is seen
                        bool first = true, done = false;
                        for(auto it = l.rbegin(); it != l.rend() && !done; ++it)
                        {
                            check_node(*it);
                            int id = it->id;
                            bool is_mine = false;
                            {
                                Quiet q;
                                for(size_t k = 0; k < mine.size(); ++k)
                                    if(mine[k] == id && !first)
                                    {
                                        is_mine = true;
                                        mine.erase(mine.begin() + k);
                                        w.h[id].del_b = ++w.seq;
                                        break;
                                    }
                            }
                            if(is_mine)
                            {
                                l.erase(it);
                                Quiet q;
                                w.h[id].del_e = ++w.seq;
                                w.erased++;
                                done = true;
                            }
                            first = false;
                        }
                    }
            };
            {
                Threads t;
                for(int i = 1; i < n_thr; ++i)
                    t.start([&, i] { work(i); });
                work(0);
                t.join();
            }
            node_iterate(l, 0);
            size_t expect = 0;
            for(auto const& h : w.h)
                expect += h.add_e && !h.del_e;
            size_t alive = M::tr_count();
            if(alive != expect)
                fail("lifetime", "%zu chunks are in the list but %zu are alive", expect, alive);
            if(os_live_chunks() - base_chunks != expect)
                fail("unbounded", "%zu chunks are in the list but %llu pieces of memory are held", expect, (unsigned long long) (os_live_chunks() - base_chunks));
        }
        M::tr_check_empty("after the list was destroyed");
        if(os_live_chunks() != base_chunks)
            fail("leak", "%llu chunks of a destroyed list are not returned", (unsigned long long) (os_live_chunks() - base_chunks));
        sample("list of chunks: %d threads, %d added, %d erased, %d iterations", n_thr, total, w.erased, w.iters);
        if(total >= 2 && w.iters > 0)
            nontrivial();
    }
    void scen_c13()
    {
        sched_faults(true);
        switch(choose(6))
        {
        case 5:
            run_chunks();
            break;
        case 4:
            run_list<1>();
            break;
        case 0:
            run_list<2>();
            break;
        case 1:
            run_list<3>();
            break;
        case 2:
            run_list<4>();
            break;
        default:
            run_list<16>();
        }
    }
    sim::Scenario s13("C13", scen_c13, "at least two elements and one visit");

#endif // MICRO_C13
#ifdef MICRO_C14
    // ================================================================ C14: condition flag
    struct FlagWorld
    {
        struct N
        {
            uint64_t b, e;
        };
        std::vector<N> n;
        uint64_t seq = 0;
        int returns = 0;
        std::atomic<int> work{0};
    };
    void scen_c14()
    {
        using namespace sim;
        sched_faults(false);
        static unsigned const to[] = {0, 0, 1, 2, 5, 20, 1000000000};
        FlagWorld w;
        rg::CondVar cv(to[choose(7)]);
        int n_thr = range(1, 4), total = 0;
        std::vector<std::vector<int>> plan(n_thr);
        {
            Quiet q;
            for(auto& p : plan)
            {
                int n = range(1, 5);
                for(int i = 0; i < n; ++i)
                    p.push_back(chance(8, 16) ? range(1, 60) : 0);
                total += n;
            }
        }
        std::vector<int> wp;
        for(int i = 0; i < 8; ++i)
            wp.push_back(chance(6, 16) ? range(1, 40) : 0);
        Threads t;
        for(int i = 0; i < n_thr; ++i)
            t.start(
                [&, i]
                {
                    for(int p : plan[i])
                    {
                        sim::pause(p);
                        w.work.fetch_add(1);
                        size_t k;
                        {
                            Quiet q;
                            k = w.n.size();
                            w.n.push_back({++w.seq, ~0ull});
                        }
                        cv.notify();
                        Quiet q;
                        w.n[k].e = ++w.seq;
                    }
                });
        uint64_t last = 0;
        int got = 0;
        while(got < total)
        {
            cv.wait();
            {
                Quiet q;
                bool any = false;
                for(auto const& n : w.n)
                    any |= n.e > last;
                if(!any)
                    fail("spurious", "wait() returned for the %dth time without a notification since it last returned", w.returns + 1);
                last = ++w.seq;
                w.returns++;
            }
            got += w.work.exchange(0);
            sim::pause(wp[w.returns % 8]);
        }
        t.join();
        sample("%d notifiers, %d notifications, %d returns from wait(), busy-wait limit %u", n_thr, total, w.returns, cv.timeout);
        if(total >= 2)
            nontrivial();
    }
    sim::Scenario s14("C14", scen_c14, "at least two notifications");

#endif // MICRO_C14
#ifdef MICRO_C15
    // ================================================================ C15: spin lock, bitfield
    void scen_c15()
    {
        using namespace sim;
        sched_faults(false);
        int n_thr = range(2, 4);
        std::vector<std::vector<int>> plan(n_thr);
        int total = 0;
        {
            Quiet q;
            for(auto& p : plan)
            {
                int n = range(1, 6);
                for(int i = 0; i < n; ++i)
                    p.push_back(choose(12));
                total += n;
            }
        }
        rg::SpinLock lock;
        int inside = 0, entered = 0;
        uint64_t data = 0;
        Epoch last_unlock;
        auto run = [&](std::vector<int> const& p)
        {
            for(int n : p)
            {
                lock.lock();
                {
                    Quiet q;
                    if(inside++)
                        fail("overlap", "two threads are inside a section guarded by the same SpinLock");
                    if(last_unlock.tid >= 0 && !happens_before(last_unlock))
                        fail("hb-order", "what was done in the previous critical section does not happen before the next one");
                }
                uint64_t d = data;
                sim::pause(n);
                data = d + 1;
                {
                    Quiet q;
                    --inside;
                    ++entered;
                }
                last_unlock = now();
                lock.unlock();
            }
        };
        Threads t;
        for(int i = 1; i < n_thr; ++i)
            t.start([&, i] { run(plan[i]); });
        run(plan[0]);
        t.join();
        if(entered != total || data != (uint64_t) total)
            fail("overlap", "%d of %d sections were entered, the guarded counter is %llu", entered, total, (unsigned long long) data);
        sample("spin lock: %d threads, %d sections", n_thr, total);
        nontrivial();
    }
    sim::Scenario s15("C15", scen_c15, "always");

    struct BitOp
    {
        uint8_t kind; // 0 set, 1 clear, 2 get, 3 claim by search, 4 plain search, 5 search for a state nobody changes
        uint16_t idx;
        bool excl;
    };
    struct BitEv // one completed update of a bit
    {
        uint64_t b, e;
        bool nv, old;
    };
    void scen_c15b()
    {
        using namespace sim;
        sched_faults(false);
        static unsigned const sizes[] = {1, 2, 5, 63, 64, 65, 128, 130, 200};
        unsigned const n = chance(8, 16) ? sizes[choose(9)] : 64 * range(1, 6) + range(0, 6) - 3;
        bool claim_mode = chance(8, 16);
        int n_thr = range(2, 4), total = 0;
        std::vector<unsigned> hot; // indices that are used
        std::vector<std::vector<BitOp>> plan(n_thr);
        std::vector<char> init(n, 0);
        {
            Quiet q;
            int k = range(1, 4);
            for(int i = 0; i < k; ++i)
                hot.push_back(chance(4, 16) ? n - 1 : choose(n));
            std::sort(hot.begin(), hot.end());
            hot.erase(std::unique(hot.begin(), hot.end()), hot.end());
            // from none over few, half and most up to all
            int dens = choose(7);
            for(auto& x : init)
                x = dens == 0 ? 0 : dens == 1 ? 1 : dens == 2 ? chance(1, 32) : dens == 3 ? !chance(1, 32) : choose(2);
            for(auto& p : plan)
            {
                int m = range(1, 8);
                for(int i = 0; i < m; ++i)
                {
                    BitOp op;
                    op.kind = choose(5);
                    if(claim_mode)
                        op.kind = op.kind < 3 ? 3 : 0;
                    else if(op.kind >= 3)
                        ++op.kind;
                    op.idx = (op.kind == 4 || op.kind == 5 || op.kind == 3) ? choose(n) : hot[choose(hot.size())];
                    op.excl = choose(2);
                    p.push_back(op);
                }
                total += m;
            }
        }
        rg::AtomicBitfield f(n);
        uint64_t seq = 0;
        std::vector<std::vector<BitEv>> hist(n);
        std::vector<char> changing(n, 0); // may change during the concurrent part
        for(unsigned i = 0; i < n; ++i)
            if(init[i])
                f.set(i, true);
        for(unsigned i : hot)
            changing[i] = 1;
        if(claim_mode) // claims may hit any bit that is set
            for(unsigned i = 0; i < n; ++i)
                changing[i] |= init[i];
        int claims = 0, claimed_ok = 0;
        auto update = [&](unsigned idx, bool v) -> bool
        {
            uint64_t b;
            {
                Quiet q;
                b = ++seq;
            }
            bool old = f.set(idx, v);
            Quiet q;
            hist[idx].push_back({b, ++seq, v, old});
            return old;
        };
        auto search = [&](bool val, unsigned start, bool excl, auto&& f_cb)
        {
            // a bit that has the state all the time must be found, unless the callback refuses it
            return f.probe_by_value<unsigned>(f_cb, val, start, excl);
        };
        auto run = [&](std::vector<BitOp> const& ops)
        {
            for(auto const& op : ops)
                switch(op.kind)
                {
                case 0:
                case 1:
                    update(op.idx, op.kind == 0);
                    break;
                case 2:
                    {
                        bool v = f.get(op.idx);
                        // a read is checked only where the bit cannot change
                        Quiet q;
                        if(!changing[op.idx] && v != (bool) init[op.idx])
                            fail("value", "bit %u reads %d but was never changed from %d", (unsigned) op.idx, v, (int) init[op.idx]);
                        break;
                    }
                case 3:
                    {
                        // like WorkerPool::find_worker_and_claim: search an available one and claim it
                        auto r = search(
                            true,
                            op.idx,
                            op.excl,
                            [&](unsigned i) -> std::optional<unsigned>
                            {
                                if(i >= n)
                                    fail("invented", "search visits index %u of a set of size %u", i, n);
                                {
                                    Quiet q;
                                    claims++;
                                }
                                if(update(i, false))
                                {
                                    Quiet q;
                                    claimed_ok++;
                                    return i;
                                }
                                return std::nullopt;
                            });
                        (void) r;
                        break;
                    }
                default:
                    {
                        bool want = op.excl ^ (op.idx & 1);
                        unsigned refuse = op.kind == 5 ? choose(4) : 0;
                        if(refuse == 3)
                            refuse = 100000; // look at all of them
                        std::vector<unsigned> seen;
                        auto r = search(
                            want,
                            op.idx,
                            op.excl,
                            [&](unsigned i) -> std::optional<unsigned>
                            {
                                Quiet q;
                                if(i >= n)
                                    fail("invented", "search visits index %u of a set of size %u", i, n);
                                if(!changing[i] && (bool) init[i] != want)
                                    fail("value", "search for state %d visits index %u whose state is always %d", want, i, (int) init[i]);
                                if(refuse)
                                {
                                    --refuse;
                                    seen.push_back(i);
                                    return std::nullopt;
                                }
                                return i;
                            });
                        Quiet q;
                        if(r && *r >= n)
                            fail("invented", "search returns index %u of a set of size %u", *r, n);
                        if(!r)
                            for(unsigned i = 0; i < n; ++i)
                            {
                                bool skip = changing[i] || (bool) init[i] != want || (op.excl && i == op.idx);
                                for(unsigned s : seen)
                                    skip |= s == i;
                                if(!skip)
                                    fail("lost", "search for state %d from %u finds nothing in a set of %u although index %u is in that state all the time", want, (unsigned) op.idx, n, i);
                            }
                    }
                }
        };
        Threads t;
        for(int i = 1; i < n_thr; ++i)
            t.start([&, i] { run(plan[i]); });
        run(plan[0]);
        t.join();
        // the updates of one bit must be explained by one order of them
        for(unsigned i = 0; i < n; ++i)
        {
            auto& h = hist[i];
            if(h.empty())
                continue;
            bool fin = f.get(i);
            Quiet q;
            if(h.size() > 20)
                continue;
            // depth first over (set of done operations, value): memoised
            std::set<std::pair<uint32_t, bool>> dead;
            std::function<bool(uint32_t, bool)> go = [&](uint32_t done, bool v) -> bool
            {
                if(done == (1u << h.size()) - 1)
                    return v == fin;
                if(dead.count({done, v}))
                    return false;
                uint64_t min_e = ~0ull;
                for(size_t k = 0; k < h.size(); ++k)
                    if(!(done >> k & 1))
                        min_e = std::min(min_e, h[k].e);
                for(size_t k = 0; k < h.size(); ++k)
                    if(!(done >> k & 1) && h[k].b < min_e && h[k].old == v && go(done | 1u << k, h[k].nv))
                        return true;
                dead.insert({done, v});
                return false;
            };
            if(!go(0, init[i]))
                fail("not-linearizable", "the previous values returned by %zu updates of bit %u (of %u) cannot be explained by any order of them", h.size(), i, n);
        }
        sample("set of %u workers: %d threads, %d operations, %d of %d claims succeeded%s", n, n_thr, total, claimed_ok, claims, claim_mode ? ", claiming" : "");
        if(total >= 2)
            nontrivial();
    }
    sim::Scenario s15b("C15B", scen_c15b, "at least two operations");

#endif // MICRO_C15
#ifdef MICRO_C16
    // ================================================================ C16: task queue
    struct QOp
    {
        bool push;
        uint8_t pause;
    };
    struct QWorld
    {
        struct Push
        {
            uint64_t b = 0, e = 0;
            int prod = 0, no = 0;
            sim::Epoch done;
            uint64_t pop_b = 0, pop_e = 0; // 0: not taken
        };
        struct Pop
        {
            uint64_t b, e;
            int got; // -1 nothing, -2 running
        };
        std::vector<Push> push;
        std::vector<Pop> pop;
        uint64_t seq = 0;
        int empties = 0;
    };
    void scen_c16()
    {
        using namespace sim;
        sched_faults(false);
        int n_thr = range(1, 4), n_push = 0;
        std::vector<std::vector<QOp>> plan(n_thr);
        {
            Quiet q;
            int p_push = range(4, 12);
            bool burst = chance(4, 16);
            for(auto& p : plan)
            {
                int m = range(1, burst ? 80 : 12);
                for(int i = 0; i < m && n_push < 150; ++i)
                {
                    p.push_back({chance(p_push, 16), uint8_t(chance(4, 16) ? choose(20) : 0)});
                    n_push += p.back().push;
                }
            }
        }
        QWorld w;
        w.push.reserve(n_push);
        std::vector<char> dummy(n_push + 1);
        {
            static unsigned const caps[] = {1, 32, 128, 1024};
            rg::task::Queue queue(caps[choose(4)]);
            auto do_pop = [&](bool must)
            {
                size_t k;
                Epoch dummy_epoch;
                (void) dummy_epoch;
                int avail = 0;
                {
                    Quiet q;
                    k = w.pop.size();
                    w.pop.push_back({++w.seq, ~0ull, -2});
                    for(auto const& p : w.push)
                        avail += p.e && happens_before(p.done);
                }
                rg::Task* t = queue.pop();
                Quiet q;
                uint64_t e = ++w.seq, b = w.pop[k].b;
                if(t)
                {
                    ptrdiff_t i = (char*) t - dummy.data();
                    if(i < 0 || i >= (ptrdiff_t) w.push.size())
                        fail("invented", "pop() returned something that was never pushed");
                    auto& p = w.push[i];
                    if(p.pop_b)
                        fail("twice", "task %d was taken out twice", (int) i);
                    p.pop_b = b;
                    p.pop_e = e;
                    w.pop[k].got = i;
                }
                else
                {
                    w.pop[k].got = -1;
                    w.empties++;
                    // other pops that may have taken, or may be about to take, something
                    for(size_t j = 0; j < w.pop.size(); ++j)
                        if(j != k && w.pop[j].b < e && (w.pop[j].got != -1 || w.pop[j].e > b))
                            --avail;
                    if(avail > 0)
                        fail("lost", "pop() came back empty although %d completed pushes were not taken by any other pop", avail);
                }
                w.pop[k].e = e;
                return t != nullptr;
            };
            auto run = [&](int id)
            {
                int no = 0;
                for(auto const& op : plan[id])
                {
                    sim::pause(op.pause);
                    if(op.push)
                    {
                        size_t i;
                        {
                            Quiet q;
                            i = w.push.size();
                            w.push.push_back({});
                            w.push[i].b = ++w.seq;
                            w.push[i].prod = id;
                            w.push[i].no = no++;
                        }
                        queue.push((rg::Task*) (dummy.data() + i));
                        w.push[i].done = now();
                        Quiet q;
                        w.push[i].e = ++w.seq;
                    }
                    else
                        do_pop(false);
                }
            };
            Threads t;
            for(int i = 1; i < n_thr; ++i)
                t.start([&, i] { run(i); });
            run(0);
            t.join();
            while(do_pop(true))
                ;
        }
        for(size_t i = 0; i < w.push.size(); ++i)
        {
            if(!w.push[i].pop_b)
                fail("lost", "task %zu was pushed but never taken out", i);
            for(size_t j = 0; j < w.push.size(); ++j)
                if(w.push[i].prod == w.push[j].prod && w.push[i].no < w.push[j].no && w.push[j].pop_e < w.push[i].pop_b)
                    fail("order-list", "of two tasks pushed by the same thread the second one was taken out first");
        }
        sample("%d threads, %zu pushes, %zu pops of which %d empty", n_thr, w.push.size(), w.pop.size(), w.empties);
        if(w.push.size() >= 2)
            nontrivial();
    }
    sim::Scenario s16("C16", scen_c16, "at least two pushes");
    // ---------------------------------------------------------------- C16L: long queues
    void scen_c16l()
    {
        using namespace sim;
        sched_faults(false);
        int n_prod = range(1, 3), n_cons = choose(3), n;
        {
            Quiet q;
            // 30 ... 20000, evenly spread over the orders of magnitude
            double l = 3.4 + choose(6500) / 1000.;
            n = int(std::exp(l));
        }
        std::vector<int> share(n_prod);
        for(int i = 0; i < n_prod; ++i)
            share[i] = i + 1 == n_prod ? n : 0;
        if(n_prod > 1)
            for(int i = 0, left = n; i < n_prod; ++i)
            {
                share[i] = i + 1 == n_prod ? left : choose(left + 1);
                left -= share[i];
            }
        int pop_before = choose(3) ? 0 : choose(n); // each consumer takes that many while the producers are busy
        static unsigned const caps[] = {1, 32, 128, 1024};
        rg::task::Queue queue(caps[choose(4)]);
        std::vector<std::vector<char>> dummy(n_prod), taken(n_prod);
        for(int p = 0; p < n_prod; ++p)
        {
            dummy[p].resize(share[p] + 1);
            taken[p].resize(share[p] + 1);
        }
        long n_taken = 0;
        auto take = [&](rg::Task* t, std::vector<int>& last)
        {
            Quiet q;
            for(int p = 0; p < n_prod; ++p)
                if((char*) t >= dummy[p].data() && (char*) t < dummy[p].data() + share[p])
                {
                    int i = (char*) t - dummy[p].data();
                    if(taken[p][i])
                        fail("twice", "task %d of producer %d was taken out twice", i, p);
                    taken[p][i] = 1;
                    if(i <= last[p])
                        fail("order-list", "task %d of producer %d was taken out after its task %d", i, p, last[p]);
                    last[p] = i;
                    ++n_taken;
                    return;
                }
            fail("invented", "pop() returned something that was never pushed");
        };
        Threads t;
        for(int p = 0; p < n_prod; ++p)
            t.start(
                [&, p]
                {
                    for(int i = 0; i < share[p]; ++i)
                        queue.push((rg::Task*) (dummy[p].data() + i));
                });
        for(int c = 0; c < n_cons; ++c)
            t.start(
                [&]
                {
                    std::vector<int> last(n_prod, -1);
                    for(int i = 0; i < pop_before; ++i)
                        if(rg::Task* x = queue.pop())
                            take(x, last);
                });
        t.join();
        std::vector<int> last(n_prod, -1);
        while(rg::Task* x = queue.pop())
            take(x, last);
        if(n_taken != n)
            fail("lost", "%ld of %d tasks pushed by %d threads were never taken out (%d of them were taken while others were pushed)", n - n_taken, n, n_prod, pop_before);
        sample("%d producers, %d consumers, %d tasks", n_prod, n_cons, n);
        nontrivial();
    }
    sim::Scenario s16l("C16L", scen_c16l, "always");
#endif // MICRO_C16
#ifdef MICRO_C01
    // ================================================================ C01E: the event graph itself
    struct EvNode
    {
        rg::scheduler::EventPtr ev;
        std::vector<int> preds;
        std::vector<char> linked; // add_follower() returned
        bool notified = false; // its own notification has begun
        bool done = false; // ... and returned
    };
    rg::scheduler::EventPtr new_event()
    {
        return rg::scheduler::EventPtr{
            rg::scheduler::T_EVT_EXT,
            nullptr,
            std::allocate_shared<rg::scheduler::Event>(rg::memory::StdAllocator<rg::scheduler::Event>())};
    }
    void check_event(std::vector<EvNode>& n, int j)
    {
        bool reached = n[j].ev->is_reached();
        sim::Quiet q;
        if(!reached)
            return;
        if(!n[j].notified)
            sim::fail("order-event", "event %d is reached without its own notification", j);
        for(size_t k = 0; k < n[j].preds.size(); ++k)
            if(!n[n[j].preds[k]].notified)
                sim::fail("order-event", "event %d is reached but event %d, which it follows, was not notified yet", j, n[j].preds[k]);
    }
    void scen_c01e()
    {
        using namespace sim;
        sched_faults(false);
        static unsigned const to[] = {0, 1, 10};
        sim_condvar_timeout = to[choose(3)];
        sim_alloc_chunksize = 0x40000;
        rg::SingletonContext::get();
        int nw = range(1, 2);
        rg::init(nw);
        {
            // with tiny pieces the recursive release of that many of them would need a larger stack than there is
            bool wide = REDGRAPES_EVENT_FOLLOWER_LIST_CHUNKSIZE >= 16 && chance(1, 16);
            int n = range(2, 10), n_thr = range(1, 3), edges = 0, reps = 1;
            if(wide)
                n = range(3, 4), reps = 65520 / (n - 1) + range(0, 20);
            std::vector<EvNode> nodes(n);
            std::vector<int> owner(n);
            std::vector<char> early(n, 0);
            std::unique_ptr<std::atomic<int>[]> ready(new std::atomic<int>[n]); // all its edges exist
            {
                Quiet q;
                for(int j = 0; j < n; ++j)
                {
                    ready[j] = 0;
                    owner[j] = choose(n_thr);
                    for(int i = 0; i < j; ++i)
                        if(wide ? j == n - 1 : chance(7, 16))
                        {
                            nodes[j].preds.push_back(i);
                            ++edges;
                        }
                }
            }
            for(int j = 0; j < n; ++j)
                nodes[j].ev = new_event();
            if(wide)
            {
                // the same edge many times, like many readers of a resource before one writer
                for(int i = 0; i < n - 1; ++i)
                {
                    Quiet q;
                    for(int r = 0; r < reps; ++r)
                        nodes[i].ev->add_follower(nodes[n - 1].ev);
                }
                check_event(nodes, n - 1);
            }
            auto run = [&](int me)
            {
                // every thread links and notifies its events, while others do the same with theirs
                for(int j = 0; j < n; ++j)
                    if(owner[j] == me)
                    {
                        if(!wide)
                            for(int i : nodes[j].preds)
                                nodes[i].ev->add_follower(nodes[j].ev);
                        check_event(nodes, j);
                        {
                            Quiet q;
                            nodes[j].notified = true;
                        }
                        if(wide && j < n - 1)
                        {
                            Quiet q;
                            nodes[j].ev.notify();
                        }
                        else
                            nodes[j].ev.notify();
                        for(int k = 0; k < n; ++k)
                            if(((k + j) & 1) || wide)
                                check_event(nodes, k);
                    }
            };
            Threads t;
            for(int i = 1; i < n_thr; ++i)
                t.start([&, i] { run(i); });
            run(0);
            t.join();
            for(int j = 0; j < n; ++j)
                if(!nodes[j].ev->is_reached())
                    fail("lost", "event %d is not reached although it and all events it follows were notified", j);
            sample("%d events, %d edges%s, %d threads", n, edges, wide ? " (repeated more than 65000 times)" : "", n_thr);
            if(edges)
                nontrivial();
            if(wide)
            {
                Quiet q;
                nodes.clear();
            }
        }
        rg::finalize();
    }
    sim::Scenario s01e("C01E", scen_c01e, "at least one edge");

#endif // MICRO_C01
#ifdef MICRO_C12
    // ================================================================ C12W: very many blocks in one piece
    void scen_c12w()
    {
        using namespace sim;
        sched_faults(false);
        rg::HwlocContext hw;
        hwloc_obj_t obj = hwloc_get_obj_by_type(hw.topology, HWLOC_OBJ_PU, 0);
        ArenaWorld w;
        aw = &w;
        w.chunk = 0x40000;
        size_t n = 65530 + choose(12), held = 0;
        uint64_t base = os_live_chunks();
        {
            Arena arena(rg::memory::HwlocAlloc(hw, obj), w.chunk);
            std::vector<Block> b;
            {
                Quiet q;
                size_t k = 1 + choose(2);
                for(size_t i = 0; i < n; ++i)
                    b.push_back(arena.allocate(k));
                // use up what is left, then release nearly all of them again
                while(os_live_chunks() == base + 1 && b.size() < 300000)
                    b.push_back(arena.allocate(k));
                held = b.size();
            }
            // still live blocks must stay inside memory obtained from the system
            for(size_t i = 0; i < 3; ++i)
            {
                Quiet q;
                arena.deallocate(b[i]);
            }
            for(size_t i = 3; i < b.size(); i = i * 2)
                if(!os_owned((void*) b[i].ptr, b[i].len))
                    fail("alloc-foreign", "a live block lies in memory already returned to the system (%zu blocks were live)", held);
            for(size_t back = 0; back < 400000 && b.size() > 4 + back; back = back * 2 + 1)
                if(!os_owned((void*) b[b.size() - 1 - back].ptr, 1))
                    fail("alloc-foreign", "a live block lies in memory already returned to the system (%zu blocks were live)", held);
            // release down to every count at which a narrow counter would be zero
            size_t next = 3;
            {
                Quiet q;
                while(held - next > 65540)
                    arena.deallocate(b[next++]);
                while(held - next > 65530)
                {
                    arena.deallocate(b[next++]);
                    if(!os_owned((void*) b[next].ptr, 1))
                        fail("alloc-foreign", "%zu blocks are live but their memory is already returned to the system", held - next);
                }
                while(next < held)
                    arena.deallocate(b[next++]);
            }
        }
        if(os_live_chunks() != base)
            fail("leak", "memory is not returned to the system when the arena is destroyed");
        sample("%zu blocks live in one piece", held);
        nontrivial();
    }
    sim::Scenario s12w("C12W", scen_c12w, "always");
#endif // MICRO_C12
} // namespace
