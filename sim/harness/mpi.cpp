// Tasks that wait for message requests through the request pool; the message layer is simulated.
#include "model.hpp"

#include <mpi.h>
#include <redGrapes/redGrapes.hpp>

#include <redGrapes/dispatch/mpi/request_pool.hpp>
#include <redGrapes/memory/hwloc_alloc.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <redGrapes/scheduler/default_scheduler.hpp>
#include <redGrapes/scheduler/tag_match.hpp>

#include <deque>
#include <memory>
#include <thread>
#include <vector>

namespace rg = redGrapes;
using sim::chance;
using sim::choose;
using sim::range;
using IORes = rg::Resource<rg::access::IOAccess>;

namespace
{
    enum
    {
        MAXREQ = 64
    };
    // ------------------------------------------------------------------ simulated message layer
    struct Req
    {
        bool posted = false, delivered = false, busy = false;
        int delay = 0; // times it is asked for before it can complete
        int dep_req = -1; // completes only after that request was posted
        int dep_task = -1; // completes only after that task ran
        int waits = 0, returned = 0;
        sim::Epoch at;
        int tag = 0, source = 0, count = 0;
    };
    Req req[MAXREQ];
    int n_req;
    bool ran[64];
    sim::Epoch ran_at[64];
    int burst, testsome_calls, batches, out_of_order;
    constexpr int HBASE = 0x4d000000; // handles are no small integers

    int handle(int r)
    {
        return HBASE + r * 16;
    }
    int lookup(MPI_Request h, char const* fn)
    {
        if((h - HBASE) % 16 || h < HBASE || h >= HBASE + 16 * n_req || !req[(h - HBASE) / 16].posted)
            sim::fail("request", "%s is given a handle (%d) that is no posted request", fn, h);
        int r = (h - HBASE) / 16;
        if(req[r].delivered)
            sim::fail("request", "%s is given the handle of request %d again after its completion was reported", fn, r);
        return r;
    }
    bool can_complete(Req& q)
    {
        if(q.dep_req >= 0 && !req[q.dep_req].posted)
            return false;
        if(q.dep_task >= 0 && !ran[q.dep_task])
            return false;
        if(testsome_calls % burst)
            return false;
        if(q.delay > 0)
        {
            --q.delay;
            return false;
        }
        return true;
    }
    void deliver(int r, MPI_Request* h, MPI_Status* st)
    {
        Req& q = req[r];
        q.delivered = true;
        q.at = sim::now();
        if(st)
        {
            st->MPI_SOURCE = q.source;
            st->MPI_TAG = q.tag;
            st->MPI_ERROR = MPI_SUCCESS;
            st->count = q.count;
        }
        *h = MPI_REQUEST_NULL;
        sim::note("request %d complete", r);
    }
    int post(int r)
    {
        sim::point();
        sim::Quiet q;
        req[r].posted = true;
        sim::note("request %d posted", r);
        return handle(r);
    }
    // a request may be tested by one thread at a time
    struct Use
    {
        std::vector<int> rs;
        Use(int n, MPI_Request* h, char const* fn)
        {
            {
                sim::Quiet q;
                for(int i = 0; i < n; ++i)
                    if(h[i] != MPI_REQUEST_NULL)
                    {
                        int r = lookup(h[i], fn);
                        if(req[r].busy)
                            sim::fail("request", "request %d is passed to %s twice at the same time", r, fn);
                        req[r].busy = true;
                        rs.push_back(r);
                    }
            }
            sim::point();
        }
        ~Use()
        {
            sim::Quiet q;
            for(int r : rs)
                req[r].busy = false;
        }
    };
} // namespace

extern "C" int MPI_Testsome(int n, MPI_Request* reqs, int* outcount, int* indices, MPI_Status* statuses)
{
    Use use(n, reqs, "MPI_Testsome");
    {
        sim::Quiet q;
        ++testsome_calls;
        int c[MAXREQ * 2], k = 0, active = 0;
        for(int i = 0; i < n; ++i)
            if(reqs[i] != MPI_REQUEST_NULL)
            {
                ++active;
                if(can_complete(req[lookup(reqs[i], "MPI_Testsome")]))
                    c[k++] = i;
            }
        if(!active)
        {
            *outcount = MPI_UNDEFINED;
            return MPI_SUCCESS;
        }
        // what is reported, and in which order, is up to the message layer
        if(k > 1 && sim::inject(sim::F_DELAY))
        {
            int keep = 1 + choose(k);
            for(int i = 0; i < keep && i < k; ++i)
                std::swap(c[i], c[i + choose(k - i)]);
            k = keep < k ? keep : k;
            out_of_order++;
        }
        if(k > 1)
            batches++;
        for(int i = 0; i < k; ++i)
        {
            int r = lookup(reqs[c[i]], "MPI_Testsome");
            deliver(r, &reqs[c[i]], statuses ? &statuses[i] : nullptr);
            indices[i] = c[i];
        }
        *outcount = k;
    }
    sim::point();
    return MPI_SUCCESS;
}
extern "C" int MPI_Testany(int n, MPI_Request* reqs, int* index, int* flag, MPI_Status* status)
{
    Use use(n, reqs, "MPI_Testany");
    sim::Quiet q;
    ++testsome_calls;
    int active = 0;
    *flag = 0;
    *index = MPI_UNDEFINED;
    for(int i = 0; i < n; ++i)
        if(reqs[i] != MPI_REQUEST_NULL)
        {
            ++active;
            int r = lookup(reqs[i], "MPI_Testany");
            if(can_complete(req[r]))
            {
                deliver(r, &reqs[i], status);
                *index = i;
                *flag = 1;
                return MPI_SUCCESS;
            }
        }
    if(!active)
        *flag = 1;
    return MPI_SUCCESS;
}
extern "C" int MPI_Test(MPI_Request* r, int* flag, MPI_Status* status)
{
    int idx;
    return MPI_Testany(1, r, &idx, flag, status);
}
extern "C" int MPI_Testall(int n, MPI_Request* reqs, int* flag, MPI_Status* statuses)
{
    Use use(n, reqs, "MPI_Testall");
    sim::Quiet q;
    ++testsome_calls;
    *flag = 0;
    for(int i = 0; i < n; ++i)
        if(reqs[i] != MPI_REQUEST_NULL && !can_complete(req[lookup(reqs[i], "MPI_Testall")]))
            return MPI_SUCCESS;
    for(int i = 0; i < n; ++i)
        if(reqs[i] != MPI_REQUEST_NULL)
            deliver(lookup(reqs[i], "MPI_Testall"), &reqs[i], statuses ? &statuses[i] : nullptr);
    *flag = 1;
    return MPI_SUCCESS;
}

namespace
{
    rg::dispatch::mpi::RequestPool* pool;

    // what one task does: posts and waits
    struct Op
    {
        bool wait;
        int r;
    };
    struct MTask
    {
        int res = -1; // resource written
        bool mpi = false; // does messages; else it just computes
        std::vector<Op> ops;
        int pause = 0, parent = -1;
        bool kept = false;
    };
    MTask mt[64];
    int n_mt;
    uint64_t cell[4], expect_cell[4];
    int finished_n;

    void wait_for(int t, int r, MPI_Request h)
    {
        rg::Task* self = rg::SingletonContext::get().current_task;
        {
            sim::Quiet q;
            req[r].waits++;
        }
        MPI_Status st = pool->get_status(h);
        sim::Quiet q;
        Req& x = req[r];
        sim::note("task %d resumes after request %d", t, r);
        if(rg::SingletonContext::get().current_task != self)
            sim::fail("context", "task %d has another identity after waiting for request %d", t, r);
        if(++x.returned > x.waits)
            sim::fail("resume", "waiting for request %d returned twice", r);
        if(!x.delivered)
            sim::fail("resume-early", "task %d goes on before its request %d has completed", t, r);
        if(st.MPI_TAG != x.tag || st.MPI_SOURCE != x.source || st.count != x.count || st.MPI_ERROR != MPI_SUCCESS)
            sim::fail(
                "status",
                "task %d waited for request %d and got a status with source %d tag %d count %d instead of source %d tag %d count %d",
                t,
                r,
                st.MPI_SOURCE,
                st.MPI_TAG,
                st.count,
                x.source,
                x.tag,
                x.count);
        if(!sim::happens_before(x.at))
            sim::fail("hb-event", "the completion of request %d does not happen before task %d continues", r, t);
    }
    uint64_t body(int t);
    auto emplace(int t)
    {
        return rg::emplace_task([t] { return body(t); });
    }
    std::vector<IORes>* ress;
    bool tagged;
    void create(int t, std::deque<rg::Future<uint64_t>>* keep)
    {
        auto b = emplace(t);
        if(mt[t].res >= 0)
            b.resources({(*ress)[mt[t].res].make_access(rg::access::IOAccess::write)});
        if(mt[t].mpi)
        {
            b.enable_stack_switching();
            if(tagged)
                b.scheduling_tags({SCHED_MPI});
        }
        if(keep && mt[t].kept)
            keep->push_back(b.submit());
        else
            b.submit();
    }
    uint64_t body(int t)
    {
        {
            sim::Quiet q;
            if(ran[t])
                sim::fail("twice", "task %d runs twice", t);
            sim::note("task %d starts", t);
        }
        MTask& m = mt[t];
        MPI_Request h[MAXREQ];
        uint64_t local = t * 77 + 5;
        for(int c = t + 1; c < n_mt; ++c)
            if(mt[c].parent == t)
                create(c, nullptr);
        uint64_t volatile before = m.res >= 0 ? cell[m.res] : 0;
        for(auto const& o : m.ops)
            if(o.wait)
                wait_for(t, o.r, h[o.r]);
            else
                h[o.r] = post(o.r);
        sim::pause(m.pause);
        if(m.res >= 0)
        {
            sim::Quiet q;
            if(cell[m.res] != before)
                sim::fail("overlap", "the resource of task %d was changed by another task while it ran", t);
            cell[m.res] = cell[m.res] * 31 + t + 1;
        }
        if(local != uint64_t(t) * 77 + 5)
            sim::fail("value", "a local variable of task %d changed while it waited", t);
        sim::Quiet q;
        ran[t] = true;
        ran_at[t] = sim::now();
        ++finished_n;
        sim::note("task %d ends", t);
        return local;
    }

    void scen_c18()
    {
        using namespace sim;
        rg::SingletonContext::get();
        if(chance(8, 16))
            set_fault(F_STALL, 1u << range(6, 12));
        if(chance(5, 16))
            set_fault(F_SPURIOUS, 1u << range(9, 15));
        if(chance(5, 16))
            set_fault(F_CASFAIL, 1u << range(9, 17));
        if(chance(4, 16))
            set_fault(F_LATESTART, 300000);
        if(chance(8, 16))
            set_fault(F_DIRTY, 1000000);
        if(chance(8, 16))
            set_fault(F_REUSE, 1000000);
        if(chance(12, 16))
            set_fault(F_DELAY, 1u << range(15, 19));
        sim::osalloc_tid = -2;
        static unsigned const to[] = {0, 1, 10, 50};
        sim_condvar_timeout = to[choose(4)];
        sim::n_pus = range(1, 3);
        int workers = range(1, 3);
        // who polls: bit 0 the main thread when idle, bit 1 an application thread, bit 2 another one
        int pollers;
        int n_res = range(1, 3);
        {
            Quiet q;
            tagged = chance(8, 16);
            static int const pm[] = {1, 2, 3, 6, 7};
            pollers = tagged ? (pm[choose(5)] | 1) : pm[choose(5)];
            for(auto& r : req)
                r = Req{};
            for(int i = 0; i < 64; ++i)
            {
                mt[i] = MTask{};
                ran[i] = false;
            }
            for(int i = 0; i < 4; ++i)
                cell[i] = expect_cell[i] = i;
            testsome_calls = batches = out_of_order = finished_n = 0;
            n_req = 0;
            static int const bm[] = {1, 1, 2, 5, 20};
            burst = bm[choose(5)]; // completions arrive together
            n_mt = range(1, 12);
            int slow = 1 << range(0, 5);
            for(int t = 0; t < n_mt; ++t)
            {
                MTask& m = mt[t];
                m.mpi = chance(11, 16);
                m.pause = chance(4, 16) ? choose(20) : 0;
                m.kept = chance(6, 16);
                if(t && chance(4, 16) && mt[t - 1].parent < 0)
                    m.parent = t - 1;
                if(m.parent < 0 && chance(8, 16))
                    m.res = choose(n_res);
                if(m.mpi)
                {
                    int n = range(1, 4);
                    std::vector<int> open;
                    for(int i = 0; i < n && n_req < MAXREQ; ++i)
                    {
                        int r = n_req++;
                        Req& x = req[r];
                        x.tag = 1000 + r * 3;
                        x.source = 7 + (r * 5) % 11;
                        x.count = 50 * r + 4;
                        x.delay = chance(12, 16) ? choose(slow) : 0;
                        // a receive whose message is sent by an earlier or an unrelated task; never by one that waits for this task
                        if(chance(4, 16) && r)
                            x.dep_req = choose(r);
                        m.ops.push_back({false, r});
                        open.push_back(r);
                        if(chance(10, 16))
                            while(!open.empty() && chance(12, 16))
                            {
                                int k = choose(open.size());
                                m.ops.push_back({true, open[k]});
                                open.erase(open.begin() + k);
                            }
                    }
                    while(!open.empty())
                    {
                        int k = choose(open.size());
                        m.ops.push_back({true, open[k]});
                        open.erase(open.begin() + k);
                    }
                }
            }
            // requests that complete only once some later, independent computation ran: waiting must not keep it from running
            for(int t = 0; t < n_mt; ++t)
                if(!mt[t].mpi && mt[t].res < 0 && mt[t].parent < 0)
                    for(int r = 0; r < n_req; ++r)
                        if(chance(3, 16))
                            req[r].dep_task = t;
            for(int t = 0; t < n_mt; ++t)
                if(mt[t].res >= 0)
                    expect_cell[mt[t].res] = expect_cell[mt[t].res] * 31 + t + 1;
        }
        std::function<void()> old_idle = rg::Context::idle;
        std::shared_ptr<rg::dispatch::thread::Worker> mw;
        std::unique_ptr<rg::memory::ChunkedBumpAlloc<rg::memory::HwlocAlloc>> ma;
        auto rp = std::make_shared<rg::dispatch::mpi::RequestPool>();
        pool = rp.get();
        if(tagged)
        {
            // as in examples/mpi.cpp
            auto tm = std::make_shared<rg::scheduler::TagMatch<64>>();
            hwloc_obj_t obj = hwloc_get_obj_by_type(rg::SingletonContext::get().hwloc_ctx.topology, HWLOC_OBJ_PU, 0);
            ma.reset(new rg::memory::ChunkedBumpAlloc<rg::memory::HwlocAlloc>(rg::memory::HwlocAlloc(rg::SingletonContext::get().hwloc_ctx, obj)));
            mw = std::make_shared<rg::dispatch::thread::Worker>(*ma, rg::SingletonContext::get().hwloc_ctx, obj, workers);
            tm->add_scheduler(std::bitset<64>(), std::make_shared<rg::scheduler::DefaultScheduler>());
            tm->add_scheduler(std::bitset<64>().set(SCHED_MPI), mw);
            rg::SingletonContext::get().idle = [mw]
            {
                pool->poll();
                rg::Task* task;
                bool any = false;
                if((task = mw->ready_queue.pop()))
                {
                    any = true;
                    rg::SingletonContext::get().execute_task(*task);
                }
                while(mw->init_dependencies(task, true))
                {
                    any = true;
                    if(task)
                    {
                        rg::SingletonContext::get().execute_task(*task);
                        break;
                    }
                }
                if(!any)
                    sim::spin_hint();
            };
            rg::init(workers, tm);
        }
        else
        {
            if(pollers & 1)
                rg::SingletonContext::get().idle = []
                {
                    pool->poll();
                    sim::spin_hint();
                };
            else
                rg::SingletonContext::get().idle = [] { sim::spin_hint(); };
            rg::init(workers);
        }
        std::atomic<bool> stop{false};
        std::thread pt[2];
        for(int i = 0; i < 2; ++i)
            if(pollers & (2 << i))
                pt[i] = std::thread(
                    [&stop]
                    {
                        while(!stop.load())
                        {
                            pool->poll();
                            sim::spin_hint();
                        }
                    });
        {
            std::vector<IORes> rs;
            for(int i = 0; i < n_res; ++i)
                rs.emplace_back();
            ress = &rs;
            std::deque<rg::Future<uint64_t>> keep;
            for(int t = 0; t < n_mt; ++t)
                if(mt[t].parent < 0)
                {
                    create(t, &keep);
                    if(!keep.empty() && chance(3, 16))
                    {
                        // main reads a result while requests are outstanding; only if nothing created later is needed for it
                        bool needs = false;
                        for(int r = 0; r < n_req; ++r)
                            needs |= req[r].dep_task > t;
                        if(!needs)
                        {
                            keep.front().get();
                            keep.pop_front();
                        }
                    }
                }
            rg::barrier();
            {
                Quiet q;
                if(finished_n != n_mt)
                    fail("barrier-early", "barrier() returned although only %d of %d tasks have run", finished_n, n_mt);
                for(int t = 0; t < n_mt; ++t)
                    if(!happens_before(ran_at[t]))
                        fail("hb-barrier", "the end of task %d does not happen before barrier() returns", t);
            }
            for(auto& f : keep)
                f.get();
        }
        rg::finalize();
        stop = true;
        for(auto& t : pt)
            if(t.joinable())
                t.join();
        {
            Quiet q;
            for(int r = 0; r < n_req; ++r)
                if(req[r].returned != 1 || !req[r].delivered)
                    fail("lost", "waiting for request %d returned %d times", r, req[r].returned);
            for(int i = 0; i < n_res; ++i)
                if(cell[i] != expect_cell[i])
                    fail("value", "resource %d was not changed in order of creation", i);
            if(!rp->requests.empty() || !rp->events.empty() || !rp->statuses.empty())
                fail("leak", "%zu requests stay in the pool after all have been waited for", rp->requests.size());
            if(live_threads() != 0)
                fail("threads", "%d threads are still running after finalize()", live_threads());
        }
        rg::Context::idle = old_idle;
        mw.reset();
        pool = nullptr;
        rp.reset();
        ma.reset();
        sample("%d tasks, %d requests, %s, pollers %d, %d workers; %d polls, %d batches, %d reordered or partial reports", n_mt, n_req, tagged ? "main thread runs the message tasks" : "workers run the message tasks", pollers, workers, testsome_calls, batches, out_of_order);
        if(n_req >= 2)
            nontrivial();
    }
    sim::Scenario s18("C18", scen_c18, "at least two requests");
} // namespace
