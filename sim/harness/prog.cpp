#define MINCHUNK 0x1400
// Runs generated redGrapes programs (see model.hpp) on the real library under the simulator.
#include "model.hpp"

#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/fieldresource.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <redGrapes/scheduler/default_scheduler.hpp>
#include <redGrapes/scheduler/tag_match.hpp>

#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <optional>
#include <thread>

namespace sim
{
    extern int osalloc_tid;
}

#if SPDLOG_ACTIVE_LEVEL == SPDLOG_LEVEL_TRACE
extern "C" int sim_log_everything = 1;
#endif

// a container of the application
struct Grid3
{
    std::array<uint64_t, 16> v{};
};
template<>
struct redGrapes::trait::Field<Grid3>
{
    using Item = uint64_t;
    static constexpr size_t dim = 3;
    static Item& get(Grid3& g, std::array<size_t, 3> i)
    {
        return g.v[i[0] + 2 * i[1] + 4 * i[2]];
    }
};

namespace rg = redGrapes;
using namespace M;

namespace
{
    // ------------------------------------------------------------------ tracked objects
    struct Tracer
    {
        int kind, id;
        Tracer(int kind, int id) : kind(kind), id(id)
        {
            tr_new(this, kind, id);
        }
        Tracer(Tracer const& o) : kind(o.kind), id(o.id)
        {
            tr_use(&o);
            tr_new(this, kind, id);
        }
        Tracer(Tracer&& o) : kind(o.kind), id(o.id)
        {
            tr_use(&o);
            tr_new(this, kind, id);
        }
        ~Tracer()
        {
            tr_del(this);
        }
        void use() const
        {
            tr_use(this);
        }
    };
    struct TVal // task result
    {
        uint64_t v = 0;
        TVal()
        {
            tr_new(this, TR_RESULT, 0);
        }
        explicit TVal(uint64_t v) : v(v)
        {
            tr_new(this, TR_RESULT, 0);
        }
        TVal(TVal const& o) : v(o.v)
        {
            tr_use(&o);
            tr_new(this, TR_RESULT, 0);
        }
        TVal(TVal&& o) : v(o.v)
        {
            tr_use(&o);
            tr_new(this, TR_RESULT, 0);
        }
        TVal& operator=(TVal const& o)
        {
            tr_use(this);
            tr_use(&o);
            v = o.v;
            return *this;
        }
        ~TVal()
        {
            tr_del(this);
        }
    };
    // used from here to the end of the block
    struct Using
    {
        Tracer const& t;
        Using(Tracer const& t) : t(t)
        {
            t.use();
        }
        ~Using()
        {
            t.use();
        }
    };
    struct Cell
    {
        uint64_t v;
        Cell(uint64_t v) : v(v)
        {
            tr_new(this, TR_CELL, 0);
        }
        Cell(Cell const&) = delete;
        ~Cell()
        {
            tr_del(this);
        }
    };

    using F1 = std::vector<uint64_t>;
    using F1a = std::array<uint64_t, 8>;
    using F2 = std::array<std::array<uint64_t, 4>, 4>;
    using F3 = Grid3;
    using IORes = rg::Resource<rg::access::IOAccess>;
    using OrAcc = rg::access::ArrayAccess<rg::access::IOAccess, 2, rg::access::Or_t>;
    using AndAcc = rg::access::ArrayAccess<rg::access::IOAccess, 2, rg::access::And_t>;
    using CmbAcc = rg::access::CombineAccess<rg::access::IOAccess, rg::access::FieldAccess<1>, rg::access::Or_t>;

    // ------------------------------------------------------------------ handles
    struct Res
    {
        std::unique_ptr<IORes> io;
        std::unique_ptr<rg::IOResource<Cell>> iog;
        std::unique_ptr<rg::FieldResource<F1>> f1; // or
        std::unique_ptr<rg::FieldResource<F1a>> f1a;
        std::unique_ptr<rg::FieldResource<F2>> f2;
        std::unique_ptr<rg::FieldResource<F3>> f3;
        std::unique_ptr<rg::Resource<OrAcc>> x_or;
        std::unique_ptr<rg::Resource<AndAcc>> x_and;
        std::unique_ptr<rg::Resource<CmbAcc>> x_cmb;
        uint64_t plain[NCELL];
        uint64_t* cells = nullptr; // where the elements are
    };
    Res res[MAXRES];

    struct Slot
    {
        std::mutex m;
        int state = 0; // 0 none, 1 available, 2 taken
        std::unique_ptr<rg::Future<void>> v;
        std::unique_ptr<rg::Future<uint64_t>> i;
        std::unique_ptr<rg::Future<TVal>> t;
    };
    Slot* slots;

    struct EvSlot
    {
        std::mutex m;
        bool created = false, requested = false, done = false;
        std::optional<rg::scheduler::EventPtr> p;
    };
    EvSlot* evs;

    struct Io
    {
        std::mutex m;
        std::condition_variable cv;
        std::deque<int> q;
        bool stop = false;
    };
    Io* io;

    Profile const* prof;
    bool handles_alive_after_finalize;

    __attribute__((noinline)) int current_id()
    {
        sim::Quiet q;
        rg::Task* t = rg::Context::current_task;
        if(!t)
            return -1;
        return atoi(t->label.c_str() + 1);
    }

    rg::LabelProperty::string label_of(int id)
    {
        char b[16];
        snprintf(b, sizeof b, "t%d", id);
        return rg::LabelProperty::string(b); // short: kept inside the string object
    }

    size_t area_end(uint8_t hi)
    {
        return hi == FULL ? std::numeric_limits<size_t>::max() : hi; // open end
    }

    rg::access::IOAccess io_access(Mode m)
    {
        using A = rg::access::IOAccess;
        return A(m == WR ? A::write : m == RD ? A::read : m == AADD ? A::aadd : A::amul);
    }
    template<bool WRITE, typename C>
    auto guard_of(rg::FieldResource<C> const& f, Acc const& a, int how = 0)
    {
        constexpr size_t D = rg::FieldResource<C>::dim;
        std::array<size_t, D> lo, hi;
        bool full = true;
        for(size_t d = 0; d < D; ++d)
        {
            lo[d] = a.lo[d];
            hi[d] = area_end(a.hi[d]);
            full &= a.lo[d] == 0 && a.hi[d] == FULL;
        }
        if constexpr(WRITE)
            switch(how & 3)
            {
            default:
                return full ? f.write() : f.write().area(lo, hi);
            case 1:
                return full ? f.write().write() : f.write().area(lo, hi).write();
            case 2: // the same area of the same area
                return full ? f.write() : f.write().area(lo, hi).area(lo, hi);
            }
        else
            switch(how & 3)
            {
            default:
                return full ? f.read() : f.read().area(lo, hi);
            case 1:
                return full ? f.write().read() : f.write().area(lo, hi).read();
            case 2:
                return full ? f.read().read() : f.write().read().area(lo, hi);
            case 3:
                return full ? f.read() : f.read().area(lo, hi).area(lo, hi).read();
            }
    }
    rg::ResourceAccess mk_access(Acc const& a)
    {
        Res const& r = res[a.res];
        switch(plan.res[a.res])
        {
        case R_IO:
        case R_LOCAL:
            return r.io->make_access(io_access(a.mode));
        case R_IOG:
            if(a.mode == WR)
                return r.iog->write();
            return r.iog->read();
        case R_OR:
            return r.x_or->make_access(OrAcc({io_access(a.mode), io_access(a.mode2)}));
        case R_AND:
            return r.x_and->make_access(AndAcc({io_access(a.mode), io_access(a.mode2)}));
        case R_CMB:
            return r.x_cmb->make_access(
                CmbAcc(io_access(a.mode), rg::access::FieldAccess<1>(io_access(a.mode2), std::array<rg::access::AreaAccess, 1>{rg::access::AreaAccess({a.lo[0], area_end(a.hi[0])})})));
        case R_F1:
            if(r.f1a)
            {
                if(a.mode == WR)
                    return guard_of<true>(*r.f1a, a);
                return guard_of<false>(*r.f1a, a);
            }
            if(a.mode == WR)
                return guard_of<true>(*r.f1, a);
            return guard_of<false>(*r.f1, a);
        case R_F2:
            if(a.mode == WR)
                return guard_of<true>(*r.f2, a);
            return guard_of<false>(*r.f2, a);
        default:
            if(a.mode == WR)
                return guard_of<true>(*r.f3, a);
            return guard_of<false>(*r.f3, a);
        }
    }

    // a guard reaches the elements of its area and no others
    template<typename G, size_t D>
    void probe_guard(G const& g, std::array<size_t, D> lo, std::array<size_t, D> hi, int r, int depth)
    {
        using Index = std::array<size_t, D>;
        int rounds;
        {
            sim::Quiet q;
            rounds = 1 + sim::choose(3);
        }
        for(int k = 0; k < rounds; ++k)
        {
            Index p, b, e;
            int cell = 0, stride = 1, what;
            bool in = true, exists = true, sub = true, empty = false;
            {
                sim::Quiet q;
                for(size_t d = 0; d < D; ++d)
                {
                    size_t ext = extent(r, d);
                    auto pick = [&]() -> size_t
                    {
                        switch(sim::choose(10))
                        {
                        case 0:
                            return lo[d] - 1;
                        case 1:
                            return hi[d];
                        case 2:
                            return hi[d] + 1;
                        case 3:
                            return sim::choose(ext + 2);
                        case 4:
                            return sim::chance(2, 16) ? std::numeric_limits<size_t>::max() : lo[d];
                        default:
                            return lo[d] + sim::choose(std::min(hi[d], ext) > lo[d] ? std::min(hi[d], ext) - lo[d] + 1 : 1);
                        }
                    };
                    p[d] = pick();
                    b[d] = pick();
                    e[d] = pick();
                    in &= p[d] >= lo[d] && p[d] < hi[d];
                    exists &= p[d] < ext;
                    sub &= b[d] >= lo[d] && e[d] <= hi[d];
                    empty |= b[d] >= e[d];
                    cell += p[d] * stride;
                    stride *= ext;
                }
                what = sim::choose(4);
            }
            bool thrown = false;
            if(what == 0 || what == 1)
            {
                if(g.contains(p) != in)
                    sim::fail("guard", "contains() of a guard says %d for an index that is %s its area", !in, in ? "in" : "outside");
                if(in && !exists)
                    continue; // open ended area: the container is not that large
                uint64_t const* x = nullptr;
                try
                {
                    x = &g[p];
                }
                catch(std::out_of_range const&)
                {
                    thrown = true;
                }
                if(in && thrown)
                    sim::fail("guard-refused", "an element inside of the area of a guard is refused");
                if(!in && !thrown)
                    sim::fail("guard", "a guard reaches an element outside of its area");
                if(in && x != res[r].cells + cell)
                    sim::fail("guard", "a guard gives another element than asked for");
            }
            else if(what == 2)
            {
                try
                {
                    auto h = g.area(b, e);
                    if(!sub && !empty)
                        sim::fail("guard", "a guard gives an area that is larger than its own");
                    if(depth < 2)
                        probe_guard<decltype(h), D>(h, b, e, r, depth + 1);
                }
                catch(std::out_of_range const&)
                {
                    if(sub && !empty)
                        sim::fail("guard-refused", "an area inside of the area of a guard is refused");
                }
            }
            else
            {
                try
                {
                    auto h = g.at(p);
                    bool none = false; // the index behind the last one does not exist
                    for(size_t d = 0; d < D; ++d)
                    {
                        e[d] = p[d] + 1;
                        none |= e[d] == 0;
                    }
                    if(!in && !none)
                        sim::fail("guard", "at() of a guard accepts an index outside of its area");
                    if(depth < 2)
                        probe_guard<decltype(h), D>(h, p, e, r, depth + 1);
                }
                catch(std::out_of_range const&)
                {
                    if(in)
                        sim::fail("guard-refused", "at() of a guard refuses an index inside of its area");
                }
            }
        }
    }

    // ------------------------------------------------------------------ actions
    void touch(int id, Acc const& a, uint64_t& h)
    {
        int r = a.res, n = n_cells(r);
        uint64_t* base = res[r].cells;
        for(int c = 0; c < n; ++c)
        {
            Mode m;
            if(!in_access(a, c, m))
                continue;
            switch(m)
            {
            case WR:
                {
                    uint64_t v = base[c];
                    if((c & 3) == 0)
                        sim::point();
                    base[c] = op_write(v, h, id);
                    break;
                }
            case RD:
                h = op_read(h, base[c]);
                break;
            case AADD:
                __atomic_fetch_add(&base[c], op_add(id), __ATOMIC_RELAXED);
                break;
            case AMUL:
                {
                    uint64_t v = __atomic_load_n(&base[c], __ATOMIC_RELAXED);
                    while(!__atomic_compare_exchange_n(&base[c], &v, v * op_mul(id), false, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
                        ;
                    break;
                }
            }
        }
    }

    void do_notify(int e)
    {
        EvSlot& s = evs[e];
        std::optional<rg::scheduler::EventPtr> p;
        {
            std::lock_guard<std::mutex> l(s.m);
            if(!s.created)
            {
                s.requested = true;
                return;
            }
            if(s.done)
                return;
            s.done = true;
            if(plan.ev[e].keep == 0)
                p.swap(s.p);
            else
                p = s.p;
        }
        notify_mark(e);
        p->notify();
    }

    unsigned thread_refusal; // rate at which init() gets no thread
    struct FaultWindow // memory may be refused to this thread while it creates a task
    {
        bool on;
        FaultWindow(bool on) : on(on)
        {
            open();
        }
        void open()
        {
            if(on)
                sim::osalloc_tid = sim::tid();
        }
        void close()
        {
            if(on && sim::osalloc_tid == sim::tid())
                sim::osalloc_tid = -2;
        }
        ~FaultWindow()
        {
            close();
        }
    };

    // f gets what it needs sooner or later; until then it has to have no effect
    template<typename F>
    void with_refusals(char const* what, F const& f)
    {
        for(;;)
        {
            uint64_t f0 = sim::os_failed_allocs();
            FaultWindow w(prof->os_faults);
            try
            {
                f();
                return;
            }
            catch(std::bad_alloc const&)
            {
                if(sim::os_failed_allocs() == f0)
                    sim::fail("refused", "%s failed though nothing was refused to it", what);
            }
        }
    }

    void do_event(int id, int e)
    {
        EvSlot& s = evs[e];
        std::optional<rg::scheduler::EventPtr> p;
        with_refusals("create_event()", [&] { p = rg::create_event(); });
        if(!p)
            sim::fail("context", "create_event() inside task %d returns nothing", id);
        bool req;
        {
            std::lock_guard<std::mutex> l(s.m);
            event_created(e);
            s.created = true;
            s.p = p;
            req = s.requested;
            if(req)
                s.done = true;
        }
        if(req)
        {
            sim::probe(2);
            notify_mark(e);
            p->notify();
        }
        else if(plan.ev[e].notifier == -2)
        {
            std::lock_guard<std::mutex> l(io->m);
            io->q.push_back(e);
            io->cv.notify_one();
        }
    }

    bool get_event(int e, std::optional<rg::scheduler::EventPtr>& p)
    {
        EvSlot& s = evs[e];
        std::lock_guard<std::mutex> l(s.m);
        if(!s.created || !s.p)
            return false;
        p = s.p;
        return true;
    }

    struct Canary
    {
        uint64_t v[4];
        Canary(int id)
        {
            for(int i = 0; i < 4; ++i)
                v[i] = 0x9e3779b97f4a7c15ull * (id + 2) + i;
        }
        void check(int id)
        {
            for(int i = 0; i < 4; ++i)
                if(v[i] != 0x9e3779b97f4a7c15ull * (id + 2) + i)
                    sim::fail("resume", "the local variables of task %d changed while it was waiting", id);
        }
    };

    __attribute__((noinline)) void do_yield(int id, int e)
    {
        std::optional<rg::scheduler::EventPtr> p;
        if(!get_event(e, p))
            return;
        Canary c(id);
        wait_begin(id);
        rg::yield(*p);
        wait_end_event(id, e);
        c.check(id);
    }

    __attribute__((noinline)) void do_get(int id, int u)
    {
        Slot& s = slots[u];
        std::unique_ptr<rg::Future<void>> v;
        std::unique_ptr<rg::Future<uint64_t>> i;
        std::unique_ptr<rg::Future<TVal>> t;
        {
            std::lock_guard<std::mutex> l(s.m);
            if(s.state != 1)
                return;
            s.state = 2;
            v = std::move(s.v);
            i = std::move(s.i);
            t = std::move(s.t);
        }
        Canary c(id);
        wait_begin(id);
        if(v)
        {
            v->get();
            wait_end_future(id, u);
        }
        else if(i)
        {
            uint64_t x = i->get();
            wait_end_future(id, u);
            got_value(u, x);
        }
        else
        {
            TVal x = t->get();
            wait_end_future(id, u);
            got_value(u, x.v);
        }
        c.check(id);
        // a future that has been read can still be moved, and dropped at any time
        switch(plan.t[u].arg & 7)
        {
        case 0:
        case 1:
            if(v)
                auto w = std::move(*v);
            if(i)
                auto w = std::move(*i);
            if(t)
                auto w = std::move(*t);
            break;
        case 2:
        case 3:
            {
                std::lock_guard<std::mutex> l(s.m);
                if(v)
                    s.v.reset(new rg::Future<void>(std::move(*v)));
                if(i)
                    s.i.reset(new rg::Future<uint64_t>(std::move(*i)));
                if(t)
                    s.t.reset(new rg::Future<TVal>(std::move(*t)));
                break;
            }
        case 4:
            {
                std::lock_guard<std::mutex> l(s.m);
                s.v = std::move(v);
                s.i = std::move(i);
                s.t = std::move(t);
                break;
            }
        default:
            break;
        }
    }

    void do_ready(int u)
    {
        Slot& s = slots[u];
        std::lock_guard<std::mutex> l(s.m);
        if(s.state != 1)
            return;
        bool r = s.v ? s.v->is_ready() : s.i ? s.i->is_ready() : s.t->is_ready();
        check_ready(u, r);
    }

    void do_drop(int u)
    {
        Slot& s = slots[u];
        std::unique_ptr<rg::Future<void>> v;
        std::unique_ptr<rg::Future<uint64_t>> i;
        std::unique_ptr<rg::Future<TVal>> t;
        std::lock_guard<std::mutex> l(s.m);
        if(s.state != 1)
            return;
        s.state = 2;
        v = std::move(s.v);
        i = std::move(s.i);
        t = std::move(s.t);
    }

    // n: number of changes that go into one patch; only the first may be one that has to be refused
    void do_demote(int id, Action const* acts, int n, std::vector<Acc>& eff)
    {
        using Patch = rg::TaskProperties::Patch;
        using PB = Patch::Builder;
        int arg = plan.t[id].arg;
        Action const& f = acts[0];
        bool bad = f.b == D_BAD_NEW || f.b == D_BAD_UPGRADE, thrown = false;
        Patch p;
        auto append = [&](Patch const& q)
        {
            if(arg & 1)
                p += q;
            else
                for(auto const& x : q.diff)
                    p.diff.push_back(x);
        };
        for(int i = 0; i < n; ++i)
        {
            Action const& a = acts[i];
            if(bad)
            {
                // what is given up by the same patch does not make it right
                if(!eff.empty() && (f.b == D_BAD_NEW ? arg & 2 : !(a.acc.lo[0] & 1)))
                    append(PB().remove_resources({mk_access(eff[f.b == D_BAD_NEW ? arg % eff.size() : a.a])}));
                append(PB().add_resources({mk_access(a.acc)}));
                break;
            }
            demote_begin(id, a.b, a.a, a.acc);
            if(a.b == D_DROP)
                append(PB().remove_resources({mk_access(eff[a.a])}));
            else if(arg & 4)
                append(PB().remove_resources({mk_access(eff[a.a])}).add_resources({mk_access(a.acc)}));
            else
            {
                append(PB().remove_resources({mk_access(eff[a.a])}));
                append(PB().add_resources({mk_access(a.acc)}));
            }
            sim::Quiet q;
            std::vector<Acc> ne;
            for(auto const& o : eff)
                if(!same(o, eff[a.a]))
                    ne.push_back(o);
            if(a.b != D_DROP)
                ne.push_back(a.acc);
            eff = ne;
        }
        try
        {
            with_refusals("update_properties()", [&] { rg::update_properties(p); });
        }
        catch(std::runtime_error const&)
        {
            thrown = true;
        }
        if(bad && !thrown)
            sim::fail("demote-accepted", "task %d extended its accesses on resource %d (kind %d) with update_properties() and was not refused", id, f.acc.res, (int) plan.res[f.acc.res]);
        if(!bad && thrown)
            sim::fail("demote-refused", "task %d reduced its accesses with update_properties() and was refused", id);
    }

    void do_bad_child(int id, std::vector<Acc> const& list)
    {
        auto b = rg::emplace_task([id] { sim::fail("child-accepted", "a child of task %d runs although it asked for more than its parent has", id); });
        for(auto const& a : list)
            b.add_resource(mk_access(a));
        {
            sim::Quiet q;
            sim::sample("%s, task %d creates a child with %zu accesses, one too many", prof->name, id, list.size());
        }
        sim::expect_assert(true);
        try
        {
            b.submit();
        }
        catch(std::exception const&)
        {
            sim::expect_assert(false);
            return;
        }
        sim::fail("child-accepted", "task %d created a child that asks for more than its parent has, and was not refused", id);
    }

    void do_ctx(int id)
    {
        int chain[16], n = 0;
        unsigned depth;
        if(id < 0)
        {
            bool cur = rg::Context::current_task != nullptr;
            depth = rg::scope_depth();
            auto bt = rg::backtrace();
            ctx_outside(cur, depth, bt.size());
            return;
        }
        auto bt = rg::backtrace();
        for(auto& t : bt)
            if(n < 16)
                chain[n++] = atoi(t.get().label.c_str() + 1);
        depth = rg::scope_depth();
        ctx(id, current_id(), depth, chain, n);
    }

    // ------------------------------------------------------------------ creating tasks
    template<typename R>
    R run_body(int id, int arg);
    uint64_t body(int id, int arg);
    template<>
    void run_body<void>(int id, int arg)
    {
        on_end(id, body(id, arg));
    }
    template<>
    uint64_t run_body<uint64_t>(int id, int arg)
    {
        uint64_t v = body(id, arg);
        on_end(id, v);
        return v;
    }
    template<>
    TVal run_body<TVal>(int id, int arg)
    {
        TVal v(body(id, arg));
        on_end(id, v.v);
        return v;
    }

    void put(int id, rg::Future<void>&& f)
    {
        Slot& s = slots[id];
        std::lock_guard<std::mutex> l(s.m);
        s.v.reset(new rg::Future<void>(std::move(f)));
        s.state = 1;
    }
    void put(int id, rg::Future<uint64_t>&& f)
    {
        Slot& s = slots[id];
        std::lock_guard<std::mutex> l(s.m);
        s.i.reset(new rg::Future<uint64_t>(std::move(f)));
        s.state = 1;
    }
    void put(int id, rg::Future<TVal>&& f)
    {
        Slot& s = slots[id];
        std::lock_guard<std::mutex> l(s.m);
        s.t.reset(new rg::Future<TVal>(std::move(f)));
        s.state = 1;
    }

    void now_get(int by, int id, rg::Future<void>&& f)
    {
        Canary c(by);
        wait_begin(by);
        f.get();
        wait_end_future(by, id);
        c.check(by);
        if(plan.t[id].arg & 1)
            auto g = std::move(f);
    }
    void now_get(int by, int id, rg::Future<uint64_t>&& f)
    {
        Canary c(by);
        wait_begin(by);
        uint64_t v = f.get();
        wait_end_future(by, id);
        got_value(id, v);
        c.check(by);
        if(plan.t[id].arg & 1)
            auto g = std::move(f);
    }
    void now_get(int by, int id, rg::Future<TVal>&& f)
    {
        Canary c(by);
        wait_begin(by);
        TVal v = f.get();
        wait_end_future(by, id);
        got_value(id, v.v);
        c.check(by);
        if(plan.t[id].arg & 1)
            auto g = std::move(f);
    }

    // start the runtime; whatever it needs may be refused
    void do_init(int n_workers, std::shared_ptr<rg::scheduler::IScheduler> s = nullptr)
    {
        int live = sim::live_threads();
        for(bool again = true; again;)
        {
            again = false;
            uint64_t f0 = sim::os_failed_allocs() + sim::failed_threads();
            FaultWindow w(prof->os_faults);
            if(prof->os_faults)
                sim::set_fault(sim::F_THREAD, thread_refusal);
            try
            {
                if(s)
                    rg::init(n_workers, s);
                else
                    rg::init(n_workers);
            }
            catch(std::exception const& e)
            {
                again = true;
                if(sim::os_failed_allocs() + sim::failed_threads() == f0)
                    sim::fail("refused", "init() threw %s though nothing was refused to it", e.what());
            }
            sim::set_fault(sim::F_THREAD, 0);
            w.close();
            if(again && sim::live_threads() != live)
                sim::fail("threads", "%d threads are left behind by an init() that failed", sim::live_threads() - live);
            if(again)
                sim::os_mark_epoch();
        }
    }

    // the tags of the plan are numbered 0 to 3, what stands for them is chosen per run
    unsigned tag_no[4] = {0, 1, 2, 3};
    std::bitset<64> tag_set(uint32_t tags)
    {
        std::bitset<64> r;
        for(unsigned t = 0; t < 4; ++t)
            if(tags >> t & 1)
                r.set(tag_no[t]);
        return r;
    }

    void add_sub(rg::scheduler::TagMatch<64>& tm, uint32_t tags, std::shared_ptr<rg::scheduler::IScheduler> s)
    {
        unsigned no[4], n = 0;
        for(unsigned t = 0; t < 4; ++t)
            if(tags >> t & 1)
                no[n++] = tag_no[t];
        if(n == 1)
            tm.add_scheduler({no[0]}, s);
        else if(n == 2)
            tm.add_scheduler({no[1], no[0]}, s);
        else if(n == 3)
            tm.add_scheduler({no[1], no[2], no[0]}, s);
        else
            tm.add_scheduler(tag_set(tags), s);
    }

    // the rest of the properties, submission and handling of the future
    template<typename B>
    void finish(B&& b, int id, unsigned from, FaultWindow& w)
    {
        // an exception between here and the submission would drop, i.e. submit, the builder
        w.close();
        TaskDef const& d = plan.t[id];
        b.label(label_of(id));
        if(d.ss)
            b.enable_stack_switching();
        if(d.tags || (prof->tags && (id & 1)))
        {
            if(d.arg & 1)
                b.scheduling_tags(tag_set(d.tags));
            else
                for(unsigned t = 0; t < 4; ++t)
                    if(d.tags >> t & 1)
                        b.scheduling_tags({tag_no[t]});
        }
        if(d.style == 1 && from == 0 && d.nacc <= 3)
            switch(d.nacc)
            {
            case 0:
                break;
            case 1:
                b.resources({mk_access(d.acc[0])});
                break;
            case 2:
                b.resources({mk_access(d.acc[0]), mk_access(d.acc[1])});
                break;
            default:
                b.resources({mk_access(d.acc[0]), mk_access(d.acc[1]), mk_access(d.acc[2])});
                break;
            }
        else
            for(unsigned i = from; i < d.nacc; ++i)
                b.add_resource(mk_access(d.acc[i]));
    }

    template<typename B>
    void submit_here(B& b, int id, FaultWindow& w)
    {
        TaskDef const& d = plan.t[id];
        w.open();
        switch(d.futpol)
        {
        case P_IMPLICIT:
            break;
        case P_SUBMIT_DROP:
            {
                auto f = b.submit();
                w.close();
                submitted(id);
                break;
            }
        case P_NOW:
            {
                auto f = b.submit();
                w.close();
                submitted(id);
                now_get(plan.t[id].parent, id, std::move(f));
                break;
            }
        case P_KEEP:
            {
                auto f = b.submit();
                w.close();
                submitted(id);
                put(id, std::move(f));
                break;
            }
        default:
            {
                auto f = b.submit();
                w.close();
                auto g = std::move(f);
                {
                    auto h = std::move(g);
                    submitted(id);
                    put(id, std::move(h));
                }
            }
        }
    }

    // the builder that another one is made from must not submit the task as well
    template<typename B>
    void submit(B& b, int id, FaultWindow& w)
    {
        int how = prof->os_faults ? 0 : plan.t[id].arg >> 4 & 7;
        if(how == 1)
        {
            B c(std::move(b));
            submit_here(c, id, w);
        }
        else if(how == 2)
        {
            B c(b);
            submit_here(c, id, w);
        }
        else
            submit_here(b, id, w);
    }

    template<typename R>
    void create_r(int id, FaultWindow& w)
    {
        TaskDef const& d = plan.t[id];
        int arg = d.arg;
        int style = d.style;
        if(style == 2 && (d.nacc == 0 || plan.res[d.acc[0].res] != R_IOG))
            style = 0;
        if(style == 3 && (d.nacc == 0 || (plan.res[d.acc[0].res] != R_F1 && plan.res[d.acc[0].res] != R_F2 && plan.res[d.acc[0].res] != R_F3)))
            style = 0;
        if(style == 4 && d.nacc == 0)
            style = 5;
        Tracer tr(TR_CLOSURE, id);
        switch(style)
        {
        default: // properties through the builder
            {
                auto b = rg::emplace_task(
                    [id, arg, tr]() mutable -> R
                    {
                        Using u(tr);
                        return run_body<R>(id, arg);
                    });
                finish(b, id, 0, w);
                submit(b, id, w);
                break;
            }
        case 2: // resource guard and other arguments
            {
                auto& iog = *res[d.acc[0].res].iog;
                auto with_guard = [&](auto&& guard, auto&& an_int)
                {
                    auto b = rg::emplace_task(
                        [id, tr](auto g, int arg, Tracer a) mutable -> R
                        {
                            Using u(tr);
                            Using ua(a);
                            if(a.id != id || arg != plan.t[id].arg || &g->v != res[plan.t[id].acc[0].res].cells || &(*g).v != &g->v || g.get() != &*g)
                                sim::fail("args", "task %d got other arguments than it was created with", id);
                            return run_body<R>(id, arg);
                        },
                        std::forward<decltype(guard)>(guard),
                        std::forward<decltype(an_int)>(an_int),
                        Tracer(TR_ARG, id));
                    finish(b, id, 1, w);
                    submit(b, id, w);
                };
                // arguments that are no temporaries are copied
                bool named = arg & 32;
                if(d.acc[0].mode == WR)
                {
                    auto g = arg & 8 ? iog.write().write() : iog.write();
                    if(named)
                        with_guard(std::move(g), arg);
                    else
                        with_guard(std::move(g), int(arg));
                }
                else
                {
                    auto g = arg & 8 ? iog.write().read() : arg & 16 ? iog.read().read() : iog.read();
                    if(named)
                        with_guard(std::move(g), arg);
                    else
                        with_guard(std::move(g), int(arg));
                }
                break;
            }
        case 3: // field guard
            {
                Acc const& a = d.acc[0];
                auto with_guard = [&](auto guard)
                {
                    auto b = rg::emplace_task(
                        [id, tr](auto g, int arg) mutable -> R
                        {
                            Using u(tr);
                            Acc const& a = plan.t[id].acc[0];
                            constexpr size_t D = decltype(g)::dim;
                            std::array<size_t, D> lo, hi;
                            int cell = 0, stride = 1;
                            for(size_t d = 0; d < D; ++d)
                            {
                                lo[d] = a.lo[d];
                                hi[d] = area_end(a.hi[d]);
                                cell += lo[d] * stride;
                                stride *= extent(a.res, d);
                            }
                            if(&g[lo] != res[a.res].cells + cell)
                                sim::fail("args", "task %d got other arguments than it was created with", id);
                            if(prof->p_guard)
                                probe_guard<decltype(g), D>(g, lo, hi, a.res, 0);
                            return run_body<R>(id, arg);
                        },
                        std::move(guard),
                        int(arg));
                    finish(b, id, 1, w);
                    submit(b, id, w);
                };
                Res const& r = res[a.res];
                bool wr = a.mode == WR;
                if(plan.res[a.res] == R_F1 && r.f1a)
                    wr ? with_guard(guard_of<true>(*r.f1a, a, arg >> 3)) : with_guard(guard_of<false>(*r.f1a, a, arg >> 3));
                else if(plan.res[a.res] == R_F1)
                    wr ? with_guard(guard_of<true>(*r.f1, a, arg >> 3)) : with_guard(guard_of<false>(*r.f1, a, arg >> 3));
                else if(plan.res[a.res] == R_F2)
                    wr ? with_guard(guard_of<true>(*r.f2, a, arg >> 3)) : with_guard(guard_of<false>(*r.f2, a, arg >> 3));
                else
                    wr ? with_guard(guard_of<true>(*r.f3, a, arg >> 3)) : with_guard(guard_of<false>(*r.f3, a, arg >> 3));
                break;
            }
        case 4: // plain access as argument
            if(arg & 8)
            {
                auto acc = mk_access(d.acc[0]);
                auto b = rg::emplace_task(
                    [id, tr](rg::ResourceAccess, Tracer const& a) mutable -> R
                    {
                        Using u(tr);
                        Using ua(a);
                        return run_body<R>(id, plan.t[id].arg);
                    },
                    std::move(acc),
                    tr);
                finish(b, id, 1, w);
                submit(b, id, w);
                break;
            }
            else
            {
                auto b = rg::emplace_task(
                    [id, tr](rg::ResourceAccess, int arg) mutable -> R
                    {
                        Using u(tr);
                        return run_body<R>(id, arg);
                    },
                    mk_access(d.acc[0]),
                    int(arg));
                finish(b, id, 1, w);
                submit(b, id, w);
                break;
            }
        case 5: // arguments that are no resources
            {
                auto b = rg::emplace_task(
                    [id, tr](Tracer const& a, int arg) mutable -> R
                    {
                        Using u(tr);
                        Using ua(a);
                        if(a.id != id)
                            sim::fail("args", "task %d got other arguments than it was created with", id);
                        return run_body<R>(id, arg);
                    },
                    Tracer(TR_ARG, id),
                    int(arg));
                finish(b, id, 0, w);
                submit(b, id, w);
                break;
            }
        }
    }

    void create(int id)
    {
        TaskDef const& d = plan.t[id];
        bool may_fail = prof->os_faults && sim::faults_active();
        bool refuse = d.sub == -2;
        start_create(id);
        bool failed = false;
        if(may_fail || refuse)
        {
            char const* what = nullptr;
            uint64_t f0 = sim::os_failed_allocs();
            try
            {
                FaultWindow w(may_fail);
                if(d.result == K_VOID)
                    create_r<void>(id, w);
                else if(d.result == K_INT)
                    create_r<uint64_t>(id, w);
                else
                    create_r<TVal>(id, w);
            }
            catch(std::bad_alloc const&)
            {
                what = "bad_alloc";
            }
            catch(std::runtime_error const&)
            {
                what = "runtime_error";
            }
            if(what)
            {
                if(!refuse && sim::os_failed_allocs() == f0)
                    sim::fail("refused", "the creation of task %d fails with %s for no reason", id, what);
                cancelled(id);
                failed = true;
            }
            else if(refuse)
                sim::fail("not-refused", "no scheduler supports the tags %x of task %d, but it was not refused", d.tags, id);
        }
        else
        {
            FaultWindow w(false);
            if(d.result == K_VOID)
                create_r<void>(id, w);
            else if(d.result == K_INT)
                create_r<uint64_t>(id, w);
            else
                create_r<TVal>(id, w);
        }
        if(failed)
        {
            sim::probe(4);
            std::vector<int> n;
            {
                sim::Quiet q;
                n = duties_of_cancelled(id);
            }
            for(int e : n)
                do_notify(e);
        }
        else if(d.futpol == P_IMPLICIT)
            submitted(id);
    }

    __attribute__((noinline)) void check_current(int id)
    {
        ctx(id, current_id(), 0, nullptr, -1);
    }

    uint64_t body_frame(int id, int arg);
    uint64_t body(int id, int arg)
    {
        // some functions need a good part of the 128 KiB a task gets as its stack by default
        unsigned kb = plan.t[id].ss && (arg & 0x60) == 0x20 ? 8 + 4 * (arg >> 7 & 7) : 0;
        if(!kb)
            return body_frame(id, arg);
        unsigned char* frame = (unsigned char*) alloca(kb * 1024);
        for(unsigned i = 0; i < kb * 1024; i += 256)
            frame[i] = (unsigned char) (id + i / 256);
        uint64_t h = body_frame(id, arg);
        for(unsigned i = 0; i < kb * 1024; i += 256)
            if(frame[i] != (unsigned char) (id + i / 256))
                sim::fail("resume", "the large local variables of task %d changed while it was running", id);
        return h;
    }
    __attribute__((noinline)) uint64_t body_frame(int id, int arg)
    {
        on_start(id, arg);
        TaskDef const& d = plan.t[id];
        check_current(id);
        bool main_only = prof->tags == 2 && d.sub == (int) plan.subs.size() - 1;
        uint64_t h = arg;
        std::vector<Acc> eff(d.acc, d.acc + d.nacc);
        std::vector<int> locals;
        for(int r = 0; r < plan.n_res; ++r)
            if(plan.res[r] == R_LOCAL && plan.res_owner[r] == id)
            {
                res[r].io.reset(new IORes());
                res[r].cells = res[r].plain;
                locals.push_back(r);
            }
        for(int i = 0; i < d.nact; ++i)
        {
            Action const& a = d.act[i];
            switch(a.kind)
            {
            case A_PAUSE:
                sim::pause(a.a);
                break;
            case A_TOUCH:
                touch(id, a.acc, h);
                break;
            case A_SPAWN:
                create(a.a);
                break;
            case A_GET:
                do_get(id, a.a);
                break;
            case A_READY:
                do_ready(a.a);
                break;
            case A_DROPF:
                do_drop(a.a);
                break;
            case A_EVENT:
                do_event(id, a.a);
                break;
            case A_NOTIFY:
                do_notify(a.a);
                break;
            case A_YIELD:
                do_yield(id, a.a);
                break;
            case A_DEMOTE:
                {
                    auto legal = [&](int k)
                    { return k < d.nact && d.act[k].kind == A_DEMOTE && d.act[k].b != D_BAD_NEW && d.act[k].b != D_BAD_UPGRADE; };
                    int n = 1;
                    if(legal(i) && (arg >> (3 + i % 4) & 1))
                        while(n < 3 && legal(i + n))
                            ++n;
                    do_demote(id, &d.act[i], n, eff);
                    i += n - 1;
                }
                break;
            case A_CTX:
                do_ctx(id);
                break;
            case A_BADCHILD:
                do_bad_child(id, plan.bad[a.a]);
                break;
            default:
                break;
            }
            check_current(id);
            if(main_only)
                main_run(id);
        }
        for(int r : locals)
        {
            bool inner = false; // handle still needed by tasks further down
            for(int t = id + 1; t < plan.n_tasks; ++t)
                for(int k = 0; k < plan.t[t].nacc; ++k)
                    if(plan.t[t].acc[k].res == r)
                    {
                        inner |= plan.t[t].parent != id;
                        for(int i = 0; i < plan.t[t].nact; ++i)
                            inner |= plan.t[t].act[i].kind == A_DEMOTE || plan.t[t].act[i].kind == A_BADCHILD;
                    }
            if(!inner)
                res[r].io.reset();
        }
        return h;
    }

    // ------------------------------------------------------------------ scheduler that records who gets a task
    int id_of(rg::Task& t)
    {
        return atoi(t.label.c_str() + 1);
    }
    struct RecScheduler : rg::scheduler::DefaultScheduler
    {
        int idx;
        RecScheduler(int idx) : idx(idx)
        {
        }
        void emplace_task(rg::Task& t)
        {
            {
                sim::Quiet q;
                routed(id_of(t), idx, "emplace_task()");
            }
            DefaultScheduler::emplace_task(t);
        }
        void activate_task(rg::Task& t)
        {
            {
                sim::Quiet q;
                routed(id_of(t), idx, "activate_task()");
            }
            DefaultScheduler::activate_task(t);
        }
    };

    // a user's own scheduler: it keeps the tasks itself and hands them out to workers that ask for work
    struct QueueScheduler : RecScheduler
    {
        std::mutex m;
        std::deque<rg::Task*> fresh, ready;
        using RecScheduler::RecScheduler;
        void put(std::deque<rg::Task*>& q, rg::Task& t)
        {
            {
                std::lock_guard<std::mutex> l(m);
                q.push_back(&t);
            }
            auto& pool = *rg::SingletonContext::get().worker_pool;
            for(size_t i = 0; i < pool.size(); ++i)
                pool.get_worker(i).wake();
        }
        rg::Task* take(std::deque<rg::Task*>& q)
        {
            std::lock_guard<std::mutex> l(m);
            if(q.empty())
                return nullptr;
            rg::Task* t = q.front();
            q.pop_front();
            return t;
        }
        void emplace_task(rg::Task& t)
        {
            {
                sim::Quiet q;
                routed(id_of(t), idx, "emplace_task()");
            }
            put(fresh, t);
        }
        void activate_task(rg::Task& t)
        {
            {
                sim::Quiet q;
                routed(id_of(t), idx, "activate_task()");
            }
            put(ready, t);
        }
        rg::Task* steal_task(rg::dispatch::thread::Worker&)
        {
            if(rg::Task* t = take(ready))
                return t;
            while(rg::Task* t = take(fresh))
            {
                t->pre_event.up();
                t->init_graph();
                if(t->get_pre_event().notify(true))
                    return t;
            }
            return nullptr;
        }
    };

    // ------------------------------------------------------------------ one run
    void setup_faults()
    {
        using namespace sim;
        if(chance(8, 16))
            set_fault(F_STALL, 1u << range(6, 12));
        if(chance(5, 16))
            set_fault(F_SPURIOUS, 1u << range(9, 15));
        if(chance(5, 16))
            set_fault(F_CASFAIL, 1u << range(9, 17));
        if(chance(4, 16))
            set_fault(F_LATESTART, 300000);
        if(chance(8, 16))
            set_fault(F_DIRTY, 1000000);
        if(chance(8, 16))
            set_fault(F_REUSE, 1000000);
        if(prof->bind_faults && chance(4, 16))
            set_fault(F_BIND, 500000);
        if(prof->os_faults)
        {
            set_fault(F_OSALLOC, 1u << range(14, 18));
            thread_refusal = chance(8, 16) ? 1u << range(14, 18) : 0;
        }
        static unsigned const to[] = {0, 0, 1, 3, 10, 50};
        sim_condvar_timeout = to[choose(6)];
        static size_t const cs[] = {0x10000, 0x4000, 0x8000, 0x40000};
        sim_alloc_chunksize = cs[choose(4)];
        if(prof->os_faults && chance(10, 16)) // each piece has to be asked for
            sim_alloc_chunksize = MINCHUNK + 0x400 * choose(8);
    }

    void make_resources()
    {
        for(int r = 0; r < plan.n_res; ++r)
        {
            Res& x = res[r];
            if(r && plan.burn)
                for(int i = 0; i < plan.burn; ++i)
                    IORes unused;
            for(int c = 0; c < NCELL; ++c)
                x.plain[c] = initial_cell(r, c);
            x.cells = x.plain;
            int how = sim::choose(4);
            with_refusals(
                "the creation of a resource",
                [&]
                {
                    switch(plan.res[r])
                    {
                    case R_IO:
                        x.io.reset(new IORes());
                        break;
                    case R_IOG:
                        if(how == 0)
                            x.iog.reset(new rg::IOResource<Cell>(std::make_shared<Cell>(initial_cell(r, 0))));
                        else
                            x.iog.reset(new rg::IOResource<Cell>(initial_cell(r, 0)));
                        x.cells = &(*x.iog)->v;
                        break;
                    case R_F1:
                        if(how == 0)
                        {
                            x.f1a.reset(new rg::FieldResource<F1a>(F1a{}));
                            x.cells = (*x.f1a)->data();
                        }
                        else
                        {
                            if(how == 1)
                                x.f1.reset(new rg::FieldResource<F1>(new F1(8)));
                            else
                                x.f1.reset(new rg::FieldResource<F1>(size_t(8)));
                            x.cells = (*x.f1)->data();
                        }
                        for(int c = 0; c < 8; ++c)
                            x.cells[c] = initial_cell(r, c);
                        break;
                    case R_F2:
                        x.f2.reset(new rg::FieldResource<F2>(new F2()));
                        x.cells = (*x.f2)->data()->data();
                        for(int c = 0; c < 16; ++c)
                            x.cells[c] = initial_cell(r, c);
                        break;
                    case R_F3:
                        x.f3.reset(new rg::FieldResource<F3>(new F3()));
                        x.cells = (*x.f3)->v.data();
                        for(int c = 0; c < 16; ++c)
                            x.cells[c] = initial_cell(r, c);
                        break;
                    case R_OR:
                        x.x_or.reset(new rg::Resource<OrAcc>());
                        break;
                    case R_AND:
                        x.x_and.reset(new rg::Resource<AndAcc>());
                        break;
                    case R_CMB:
                        x.x_cmb.reset(new rg::Resource<CmbAcc>());
                        break;
                    default:
                        break;
                    }
                });
        }
    }
    void check_cells()
    {
        for(int r = 0; r < plan.n_res; ++r)
            if(plan.res[r] != R_LOCAL)
                for(int c = 0; c < n_cells(r); ++c)
                    check_cell(r, c, res[r].cells[c]);
    }
    void drop_resources()
    {
        for(int r = 0; r < plan.n_res; ++r)
        {
            res[r].io.reset();
            res[r].iog.reset();
            res[r].f1.reset();
            res[r].f1a.reset();
            res[r].f2.reset();
            res[r].f3.reset();
            res[r].x_or.reset();
            res[r].x_and.reset();
            res[r].x_cmb.reset();
            res[r].cells = nullptr;
        }
    }
    void drop_futures(int when)
    {
        for(int t = 0; t < plan.n_tasks; ++t)
            if(plan.t[t].drop <= when)
                do_drop(t);
    }

    // what a thread does outside of tasks
    void thread_actions(std::vector<Action> const& acts, std::thread* threads)
    {
        for(size_t i = 0; i < acts.size(); ++i)
        {
            Action const a = acts[i];
            switch(a.kind)
            {
            case A_PAUSE:
                sim::pause(a.a);
                break;
            case A_SPAWN:
                create(a.a);
                break;
            case A_GET:
                do_get(-1, a.a);
                break;
            case A_READY:
                do_ready(a.a);
                break;
            case A_DROPF:
                do_drop(a.a);
                break;
            case A_NOTIFY:
                do_notify(a.a);
                break;
            case A_YIELD:
                do_yield(-1, a.a);
                break;
            case A_BARRIER:
                barrier_begin();
                rg::barrier();
                barrier_end("barrier()");
                break;
            case A_CTX:
                do_ctx(-1);
                break;
            case A_LAUNCH:
                threads[a.a] = std::thread(
                    [k = a.a]
                    {
                        sim::pause(plan.foreign_delay[k]);
                        thread_actions(plan.foreign[k], nullptr);
                    });
                break;
            case A_JOIN:
                threads[a.a].join();
                break;
            default:
                break;
            }
        }
    }

    void io_loop()
    {
        for(;;)
        {
            int e;
            {
                std::unique_lock<std::mutex> l(io->m);
                io->cv.wait(l, [] { return io->stop || !io->q.empty(); });
                if(io->q.empty())
                    return;
                // not always in order
                int k = io->q.size() > 1 && (plan.ev[io->q.front()].delay & 1) ? io->q.size() - 1 : 0;
                e = io->q[k];
                io->q.erase(io->q.begin() + k);
            }
            sim::pause(plan.ev[e].delay);
            do_notify(e);
        }
    }

    void round(int n_workers, bool final_finalize_only, bool res_late, int live_before)
    {
        begin_round();
        slots = new Slot[plan.n_tasks];
        evs = new EvSlot[plan.n_ev + 1];
        io = new Io;
        std::shared_ptr<rg::dispatch::thread::Worker> main_worker;
        std::unique_ptr<rg::memory::ChunkedBumpAlloc<rg::memory::HwlocAlloc>> main_alloc;
        std::function<void()> old_idle = rg::Context::idle;
        if(prof->tags)
        {
            static unsigned const pool[] = {0, 1, 7, 15, 31, 32, 33, 40, 47, 63};
            unsigned at = sim::choose(7);
            for(unsigned t = 0; t < 4; ++t)
                tag_no[t] = at == 0 ? t : pool[(at + t * (at & 1 ? 1 : 3)) % 10];
            auto tm = std::make_shared<rg::scheduler::TagMatch<64>>();
            for(size_t i = 0; i < plan.subs.size(); ++i)
                if(prof->tags == 2 && i + 1 == plan.subs.size())
                {
                    // the last one is served by the main thread, like examples/mpi.cpp does
                    hwloc_obj_t obj = hwloc_get_obj_by_type(rg::SingletonContext::get().hwloc_ctx.topology, HWLOC_OBJ_PU, 0);
                    main_alloc.reset(new rg::memory::ChunkedBumpAlloc<rg::memory::HwlocAlloc>(
                        rg::memory::HwlocAlloc(rg::SingletonContext::get().hwloc_ctx, obj)));
                    main_worker = std::make_shared<rg::dispatch::thread::Worker>(
                        *main_alloc,
                        rg::SingletonContext::get().hwloc_ctx,
                        obj,
                        n_workers);
                    rg::SingletonContext::get().idle = [main_worker]
                    {
                        rg::Task* task;
                        bool any = false;
                        if((task = main_worker->ready_queue.pop()))
                        {
                            any = true;
                            rg::SingletonContext::get().execute_task(*task);
                        }
                        while(main_worker->init_dependencies(task, true))
                        {
                            any = true;
                            if(task)
                            {
                                rg::SingletonContext::get().execute_task(*task);
                                break;
                            }
                        }
                        if(!any)
                            sim::spin_hint();
                    };
                    add_sub(*tm, plan.subs[i], main_worker);
                }
                else
                    add_sub(
                        *tm,
                        plan.subs[i],
                        sim::chance(4, 16) ? std::make_shared<QueueScheduler>(i) : std::make_shared<RecScheduler>(i));
            if(prof->tags == 1)
            {
                // wait actively, or sleep in the first sub-scheduler
                if(sim::chance(8, 16))
                    rg::SingletonContext::get().idle = [] { sim::spin_hint(); };
                else
                    rg::SingletonContext::get().idle = [s = tm->sub_schedulers.front().s] { s->idle(); };
            }
            do_init(n_workers, tm);
        }
        else
            do_init(n_workers);
        if(sim::os_live_bytes_before_epoch() != 0)
            sim::fail("old-memory", "%llu bytes obtained for an earlier round are not returned after the next init()", (unsigned long long) sim::os_live_bytes_before_epoch());
        make_resources();
        std::thread threads[MAXTHR];
        std::thread iot;
        if(plan.io_thread)
            iot = std::thread(io_loop);
        thread_actions(plan.main, threads);
        drop_futures(0);
        if(!final_finalize_only)
        {
            barrier_begin();
            rg::barrier();
            barrier_end("barrier()");
            check_current(-1);
            drop_futures(1);
        }
        barrier_begin();
        rg::finalize();
        barrier_end("finalize()");
        if(iot.joinable())
        {
            {
                std::lock_guard<std::mutex> l(io->m);
                io->stop = true;
                io->cv.notify_all();
            }
            iot.join();
        }
        if(sim::live_threads() != live_before)
            sim::fail("threads", "%d threads are still running after finalize()", sim::live_threads());
        {
            sim::Quiet q;
            end_round(true);
            check_cells();
        }
        if(!res_late)
            drop_resources();
        drop_futures(2);
        for(int t = 0; t < plan.n_tasks; ++t)
            do_drop(t);
        delete[] evs;
        delete[] slots;
        delete io;
        if(res_late)
            drop_resources();
        rg::Context::idle = old_idle;
        main_worker.reset();
        tr_check_empty("after finalize(), with no handle left");
        main_alloc.reset();
        sim::os_mark_epoch();
    }

    // in this thread, or in one that knows nothing of what happened before
    template<typename F>
    void in_thread(bool fresh, F const& f)
    {
        if(!fresh)
            return f(0);
        sim::probe(6);
        std::thread([&] { f(1); }).join();
    }

    void run_profile(Profile const& p)
    {
        prof = &p;
        in_thread(sim::chance(p.p_thread, 16), [](int) { rg::SingletonContext::get(); });
        setup_faults();
        sim::osalloc_tid = -2;
        sim::n_pus = sim::range(1, 4);
        int rounds = sim::range(1, p.max_rounds);
        int n_workers = sim::range(p.min_workers, p.max_workers);
        int tasks = 0, conf = 0, sync = 0, dem = 0, ss = 0, ev = 0, depth = 0, roots = 0, foreign = 0;
        for(int r = 0; r < rounds; ++r)
        {
            if(r)
                n_workers = sim::range(p.min_workers, p.max_workers);
            bool fin_only = sim::chance(4, 16), late = sim::chance(6, 16);
            if(p.max_rounds > 1 && sim::chance(2, 16))
            {
                // a round without work
                in_thread(
                    sim::chance(p.p_thread, 16),
                    [&](int)
                    {
                        do_init(n_workers);
                        rg::finalize();
                    });
                sim::os_mark_epoch();
                continue;
            }
            {
                sim::Quiet q;
                gen(p);
            }
            tasks += plan.n_tasks;
            conf += plan.n_conf;
            sync += plan.n_sync;
            dem += plan.n_demote;
            ev += plan.n_ev;
            foreign += plan.n_foreign;
            for(int t = 0; t < plan.n_tasks; ++t)
            {
                ss += plan.t[t].ss;
                roots += plan.t[t].parent < 0;
                if(plan.t[t].depth > depth)
                    depth = plan.t[t].depth;
            }
            in_thread(sim::chance(p.p_thread, 16), [&](int live) { round(n_workers, fin_only, late, live); });
        }
        sim::sample(
            "%d rounds, %d workers on %u PUs, %d tasks (%d top level, depth %d, %d stack-switching), %d conflicting pairs, %d waits/notifications, %d events, %d access changes, %d creator threads",
            rounds,
            n_workers,
            sim::n_pus,
            tasks,
            roots,
            depth,
            ss,
            conf,
            sync,
            ev,
            dem,
            foreign);
        bool nt = tasks >= 2;
        switch(p.name[1] * 10 + p.name[2] - '0' * 11)
        {
        case 1:
        case 19:
            nt = conf > 0 && tasks >= 2;
            break;
        case 5:
        case 8:
        case 10:
            nt = sync > 0;
            break;
        case 6:
        case 21:
        case 27:
            nt = depth > 0;
            break;
        case 24:
            nt = tasks >= 2 && (conf > 0 || sync > 0);
            break;
        case 7:
            nt = ev > 0;
            break;
        case 9:
            nt = dem > 0;
            break;
        case 20:
            nt = foreign > 0 && tasks >= 2;
            break;
        case 22:
            nt = rounds > 1;
            break;
        case 23:
            nt = sim::os_failed_allocs() > 0 || tasks >= 2;
            break;
        }
        if(nt)
            sim::nontrivial();
    }

    // ------------------------------------------------------------------ one profile per property
    Profile mk(char const* name, void (*f)(Profile&))
    {
        Profile p;
        p.name = name;
        f(p);
        return p;
    }
#define PROFILE(NAME, RULE, ...)                                                                                      \
    Profile prof_##NAME = mk(#NAME, [](Profile & p) { __VA_ARGS__ });                                                 \
    sim::Scenario scen_##NAME(#NAME, [] { run_profile(prof_##NAME); }, RULE);

    PROFILE(C01, "at least two tasks of one space conflict", p.p_stream = 1; p.max_tasks = 16; p.max_io = 2;)
    PROFILE(C02, "at least two tasks", p.p_stream = 2; p.max_workers = 5; p.max_tasks = 18; p.w_pause = 4; p.p_thread = 2;)
    PROFILE(C03, "at least two tasks", p.p_stream = 1; p.max_tasks = 12; p.w_sync = 3; p.w_evyield = 2; p.max_rounds = 2; p.p_thread = 2;)
    PROFILE(C03W, "at least two tasks", p.p_stream = 3; p.min_workers = 20; p.max_workers = 72; p.max_tasks = 20; p.w_pause = 4;)
    PROFILE(C04, "at least two tasks", p.max_depth = 3; p.w_spawn = 5; p.max_tasks = 16; p.p_keep = 10; p.w_event = 2; p.max_foreign = 1;)
    PROFILE(C05, "at least one future is read or event waited for", p.p_keep = 14; p.w_sync = 5; p.w_ready = 4; p.max_tasks = 12; p.p_thread = 3;)
    PROFILE(C06, "tasks are nested", p.max_depth = 3; p.w_spawn = 6; p.max_tasks = 16; p.local = 4;)
    PROFILE(C07, "at least one event", p.w_event = 5; p.w_evyield = 3; p.w_sync = 4; p.max_tasks = 10; p.p_write = 12; p.max_io = 2;)
    PROFILE(C08, "at least one wait", p.p_ss = 13; p.w_evyield = 6; p.w_sync = 5; p.w_ctx = 2; p.max_tasks = 10; p.max_workers = 3;)
    PROFILE(C09, "at least one change of accesses", p.w_demote = 8; p.w_evyield = 3; p.w_sync = 3; p.max_tasks = 10; p.p_write = 13; p.max_io = 2; p.max_f1 = 2;)
    PROFILE(C09R, "at least one change of accesses", p.w_demote = 14; p.p_root = 15; p.p_write = 3; p.min_workers = 2; p.max_workers = 4; p.max_tasks = 8; p.max_io = 3; p.max_iog = 0; p.max_f1 = 1;)
    PROFILE(C10, "at least one task waits for another one", p.p_ss = 14; p.w_evyield = 6; p.w_sync = 6; p.max_tasks = 12; p.p_write = 4; p.max_f1 = 2; p.max_f2 = 2; p.max_workers = 3;)
    PROFILE(C11, "at least two tasks", p.p_keep = 12; p.local = 5; p.max_iog = 3; p.max_tasks = 16; p.w_event = 2; p.p_stream = 1;)
    PROFILE(C16P, "at least two tasks", p.p_stream = 8; p.min_workers = 3; p.max_workers = 6; p.max_tasks = 20; p.p_root = 4; p.w_pause = 4;)
    PROFILE(C17, "at least two tasks", p.tags = 1; p.max_tasks = 12;)
    PROFILE(C17M, "at least two tasks", p.tags = 2; p.max_tasks = 10;)
    PROFILE(C19, "at least two tasks of one space conflict", p.max_tasks = 14; p.max_io = 2; p.w_touch = 6; p.w_sync = 4;)
    PROFILE(C20, "tasks are created by several threads", p.max_foreign = 3; p.max_tasks = 14; p.max_depth = 1; p.max_io = 3; p.p_write = 12; p.p_thread = 5;)
    PROFILE(C21, "tasks are nested", p.max_depth = 3; p.w_spawn = 5; p.w_ctx = 8; p.p_ss = 12; p.w_evyield = 4; p.w_sync = 4; p.max_tasks = 14; p.p_thread = 3;)
    PROFILE(C21M, "tasks are nested", p.tags = 2; p.max_depth = 2; p.w_spawn = 4; p.w_ctx = 8; p.p_ss = 13; p.w_evyield = 5; p.w_sync = 4; p.max_tasks = 10;)
    PROFILE(C22, "more than one round", p.max_rounds = 3; p.max_tasks = 8; p.max_workers = 5; p.p_thread = 6;)
    PROFILE(C24, "at least two tasks of one space conflict, or one waits for another one", p.max_io = 1; p.max_iog = 0; p.max_f1 = 1; p.max_f2 = 1; p.max_x = 2; p.only_x = true; p.max_tasks = 10; p.p_write = 6; p.p_ss = 14; p.w_evyield = 4; p.w_sync = 6; p.w_demote = 3;)
    PROFILE(C25, "at least two tasks", p.max_io = 0; p.max_iog = 0; p.max_f1 = 2; p.max_f2 = 2; p.max_x = 2; p.max_tasks = 12; p.p_guard = 13; p.p_root = 15; p.p_write = 6;)
    PROFILE(C27, "tasks are nested", p.max_depth = 3; p.w_spawn = 5; p.w_bad = 3; p.w_demote = 3; p.max_tasks = 12; p.local = 5; p.max_f1 = 2; p.max_f2 = 1; p.max_x = 2; p.p_write = 7; p.p_root = 14;)
    PROFILE(C23, "at least two tasks", p.os_faults = true; p.max_tasks = 14; p.w_demote = 3; p.w_event = 2;)
    // ------------------------------------------------------------------ long-running program with bounded live data
    void scen_c12p()
    {
        static Profile p;
        prof = &p;
        rg::SingletonContext::get();
        setup_faults();
        sim::set_fault(sim::F_STALL, 0);
        sim::osalloc_tid = -2;
        sim_alloc_chunksize = 0x4000;
        sim::n_pus = sim::range(1, 2);
        int workers = sim::range(1, 3), window = sim::range(1, 8), n = sim::range(300, 600), n_res = sim::range(1, 2);
        int p_read = sim::choose(12), p_ss = sim::choose(6);
        static int const p_childs[] = {0, 1, 2, 8, 16};
        int p_child = p_childs[sim::choose(5)], p_own = p_childs[sim::choose(5)], p_event = p_childs[sim::choose(4)], p_demote = p_childs[sim::choose(4)];
        int p_thread = sim::chance(1, 4) ? 1 : 0;
        rg::init(workers);
        uint64_t peak[4] = {0, 0, 0, 0}, blocks[4] = {0, 0, 0, 0};
        uint64_t sum = 0, expect = 0;
        {
            std::vector<IORes> r;
            for(int i = 0; i < n_res; ++i)
                r.emplace_back();
            std::deque<rg::Future<uint64_t>> fut;
            for(int i = 0; i < n; ++i)
            {
                bool read = sim::chance(p_read, 16), child = sim::chance(p_child, 16), own = sim::chance(p_own, 16), event = sim::chance(p_event, 16);
                bool demote = sim::chance(p_demote, 16);
                auto& res = r[sim::choose(n_res)];
                bool ss = sim::chance(p_ss, 16);
                auto f = [i, child, own, event, demote, read, ss, &res]() -> uint64_t
                {
                    if(event)
                    {
                        auto ev = rg::create_event();
                        rg::emplace_task([ev]() mutable { ev->notify(); }).submit();
                    }
                    if(demote)
                    {
                        rg::TaskProperties::Patch::Builder p;
                        auto acc = res.make_access(read ? rg::access::IOAccess::read : rg::access::IOAccess::write);
                        p.remove_resources({acc});
                        if(!read)
                            p.add_resources({res.make_access(rg::access::IOAccess::read)});
                        rg::update_properties(p);
                    }
                    if(own)
                    {
                        // shared with children which may be the last ones to use it
                        auto mine = std::make_shared<IORes>();
                        rg::emplace_task([mine] {}).resources({mine->make_access(rg::access::IOAccess::write)}).submit();
                        rg::emplace_task([mine] {}).resources({mine->make_access(rg::access::IOAccess::read)}).submit();
                    }
                    if(child)
                    {
                        auto c = rg::emplace_task([i] { return i; }).submit();
                        if(ss) // otherwise all workers may be kept by tasks that wait
                            c.get();
                    }
                    return i;
                };
                if(sim::chance(p_thread, 16))
                {
                    std::thread t([&expect, i] { expect += rg::emplace_task([i] { return i; }).submit().get() - i; });
                    t.join();
                }
                auto b = rg::emplace_task(f).resources({res.make_access(read ? rg::access::IOAccess::read : rg::access::IOAccess::write)});
                if(ss)
                    fut.push_back(b.enable_stack_switching().submit());
                else
                    fut.push_back(b.submit());
                expect += i;
                if((int) fut.size() > window)
                {
                    sum += fut.front().get();
                    fut.pop_front();
                }
                sim::Quiet q;
                uint64_t& pk = peak[i * 4 / n];
                pk = std::max(pk, sim::os_live_bytes());
                uint64_t& bk = blocks[i * 4 / n];
                bk = std::max(bk, sim::heap_live_blocks());
            }
            while(!fut.empty())
            {
                sum += fut.front().get();
                fut.pop_front();
            }
        }
        rg::finalize();
        if(sum != expect)
            sim::fail("future-value", "the results of %d tasks add up to %llu instead of %llu", n, (unsigned long long) sum, (unsigned long long) expect);
        // every worker may hold some more exhausted pieces at one time than at another
        uint64_t slack = (uint64_t) (workers + 1) * 2 * (0x4000 + 1024);
        if(peak[3] > peak[1] + slack)
            sim::fail(
                "unbounded",
                "memory held grows from %llu over %llu and %llu to %llu bytes in the quarters of a program of %d tasks of which never more than %d are unfinished",
                (unsigned long long) peak[0],
                (unsigned long long) peak[1],
                (unsigned long long) peak[2],
                (unsigned long long) peak[3],
                n,
                window + 2);
        if(blocks[3] > blocks[1] + 16 + window)
            sim::fail(
                "unbounded",
                "the number of blocks on the heap grows from %llu over %llu and %llu to %llu in the quarters of a program of %d tasks of which never more than %d are unfinished",
                (unsigned long long) blocks[0],
                (unsigned long long) blocks[1],
                (unsigned long long) blocks[2],
                (unsigned long long) blocks[3],
                n,
                window + 2);
        sim::sample(
            "%d tasks, at most %d at once, %d workers, peaks of memory %llu %llu %llu %llu, of blocks on the heap %llu %llu %llu %llu",
            n,
            window + 1,
            workers,
            (unsigned long long) peak[0],
            (unsigned long long) peak[1],
            (unsigned long long) peak[2],
            (unsigned long long) peak[3],
            (unsigned long long) blocks[0],
            (unsigned long long) blocks[1],
            (unsigned long long) blocks[2],
            (unsigned long long) blocks[3]);
        sim::nontrivial();
    }
    sim::Scenario s12p("C12P", scen_c12p, "always");

    // ------------------------------------------------------------------ tasks nested as deeply as no program of the above
    struct Chain
    {
        static constexpr int MAXR = 6;
        int depth, n_res = 0, p_new, p_drop, p_bad, ran = 0;
        bool check_depth;
        std::unique_ptr<IORes> res[MAXR];
        int level[MAXR]; //!< number of parents of the task which created it, -1: created by main
        bool held[MAXR]; //!< by the task which runs now
    };

    // body of the task with `d` parents; as only one task of the chain runs at a time, its child may use the same state
    void chain_task(Chain* c, int d)
    {
        ++c->ran;
        if(c->check_depth && rg::scope_depth() != (unsigned) d + 1)
            sim::fail("context", "a task with %d parents creates its children at depth %u", d, rg::scope_depth());
        if(sim::chance(c->p_new, 64))
        {
            int r = c->n_res < Chain::MAXR ? c->n_res++ : sim::choose(Chain::MAXR);
            c->res[r] = std::make_unique<IORes>();
            c->level[r] = d;
            c->held[r] = false;
        }
        if(c->check_depth && sim::chance(c->p_bad, 64))
        {
            auto n = rg::backtrace().size();
            if(n != (size_t) d + 1)
                sim::fail("context", "the backtrace of a task with %d parents has %zu entries", d, n);
        }
        bool bad = sim::chance(c->p_bad, 256) || d == c->depth;
        if(bad)
        {
            // more than this task has: only resources that neither it nor any task below a parent of it has created
            int cand[Chain::MAXR], n = 0;
            for(int r = 0; r < c->n_res; ++r)
                if(!c->held[r] && c->level[r] < d)
                    cand[n++] = r;
            if(n)
            {
                int r = cand[sim::choose(n)];
                auto b = rg::emplace_task([d] { sim::fail("child-accepted", "a child of a task with %d parents runs although it asked for more than its parent has", d); });
                b.add_resource(c->res[r]->make_access(sim::chance(1, 2) ? rg::access::IOAccess::read : rg::access::IOAccess::write));
                sim::sample("a task with %d parents creates a child which asks for a resource created by %s %d parents", d, c->level[r] < 0 ? "main, " : "a task with", c->level[r]);
                sim::expect_assert(true);
                try
                {
                    b.submit();
                    sim::fail("child-accepted", "a task with %d parents created a child that asks for more than its parent has, and was not refused", d);
                }
                catch(std::exception const&)
                {
                    sim::expect_assert(false);
                }
            }
        }
        if(d == c->depth)
            return;
        auto b = rg::emplace_task([c, d] { chain_task(c, d + 1); });
        for(int r = 0; r < c->n_res; ++r)
        {
            c->held[r] = (c->held[r] || c->level[r] == d) && !sim::chance(c->p_drop, 64);
            if(c->held[r])
                b.add_resource(c->res[r]->make_access(rg::access::IOAccess::write));
        }
        b.submit();
    }

    void scen_chain(char const* name)
    {
        static Profile p;
        p.name = name;
        prof = &p;
        rg::SingletonContext::get();
        setup_faults();
        sim::osalloc_tid = -2;
        sim_alloc_chunksize = 0x4000;
        sim::n_pus = sim::range(1, 2);
        int workers = sim::range(1, 2);
        rg::init(workers);
        {
            Chain c;
            c.depth = sim::chance(1, 4) ? sim::range(1, 20) : sim::range(230, 320);
            static int const p[] = {0, 1, 2, 4, 16, 64};
            c.p_new = p[sim::choose(6)];
            c.p_drop = p[sim::choose(5)];
            c.check_depth = prof->name[2] == '1';
            c.p_bad = sim::choose(3);
            int n = sim::range(1, 3);
            auto b = rg::emplace_task([&c] { chain_task(&c, 0); });
            for(int r = 0; r < n; ++r)
            {
                c.res[r] = std::make_unique<IORes>();
                c.level[r] = -1;
                c.held[r] = sim::chance(1, 2);
                if(c.held[r])
                    b.add_resource(c.res[r]->make_access(rg::access::IOAccess::write));
            }
            c.n_res = n;
            b.submit();
            rg::barrier();
            if(c.ran != c.depth + 1)
                sim::fail("lost", "%d of %d tasks ran before barrier() returned", c.ran, c.depth + 1);
            sim::nontrivial();
        }
        rg::finalize();
    }
    sim::Scenario s27d("C27D", [] { scen_chain("C27D"); }, "always");
    sim::Scenario s21d("C21D", [] { scen_chain("C21D"); }, "always");
} // namespace
