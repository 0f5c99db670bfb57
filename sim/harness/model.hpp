// Executable reference model of redGrapes programs: workload plan, generator and oracle.
// This part is compiled without simulator instrumentation: calls into it are atomic for the simulated threads.
#pragma once
#include "../rt.h"

#include <cstdint>
#include <vector>

namespace M
{
    enum
    {
        MAXTASK = 400,
        MAXACC = 16,
        MAXACT = 14,
        MAXRES = 24,
        MAXEV = 96,
        MAXTHR = 4,
        NCELL = 16,
        FULL = 255
    };

    enum Mode : uint8_t
    {
        WR,
        RD,
        AADD,
        AMUL
    };
    enum ResKind : uint8_t
    {
        R_IO, // Resource<IOAccess>, all four modes
        R_IOG, // IOResource<Cell> (guards), read / write
        R_F1, // FieldResource<std::vector<uint64_t>>, 8 cells
        R_F2, // FieldResource<std::array<std::array<uint64_t,4>,4>>, 16 cells
        R_LOCAL, // Resource<IOAccess> created inside a task
        R_F3, // FieldResource of a user-defined container with 2 x 2 x 4 cells
        R_OR, // Resource<ArrayAccess<IOAccess, 2, Or_t>>: two cells, each with its own mode
        R_AND, // Resource<ArrayAccess<IOAccess, 2, And_t>>: serial only if both modes are
        R_CMB // Resource<CombineAccess<IOAccess, FieldAccess<1>, Or_t>>: one cell and eight more
    };
    struct Acc
    {
        uint8_t res = 0;
        Mode mode = WR, mode2 = WR; // mode2: second element of R_OR, R_AND, R_CMB
        uint8_t lo[3] = {0, 0, 0}, hi[3] = {FULL, FULL, FULL};
    };
    int dims(int r); // dimensions of the area
    int extent(int r, int d);
    bool in_access(Acc const& a, int c, Mode& m); // access a allows m on cell c of its resource
    bool conflict(Acc const& a, Acc const& b);
    bool covers(Acc const& a, Acc const& b); // a allows everything b allows
    bool same(Acc const& a, Acc const& b);

    enum ActKind : uint8_t
    {
        A_PAUSE, // n scheduling points
        A_TOUCH, // use access a
        A_SPAWN, // create task a
        A_GET, // get future of task a
        A_READY, // poll future of task a
        A_DROPF, // drop future of task a
        A_EVENT, // create event a
        A_NOTIFY, // notify event a
        A_YIELD, // wait for event a
        A_DEMOTE, // b: kind, a: access index
        A_CTX, // check context
        A_BARRIER, // outside of tasks only
        A_LAUNCH, // start creator thread a
        A_JOIN, // join creator thread a
        A_BADCHILD, // create a child that asks for more than this task has (a: list in plan.bad)
        A_SYNC // placeholder of the generator
    };
    enum DemoteKind : int16_t
    {
        D_DROP,
        D_READ,
        D_SHRINK,
        D_BAD_NEW, // illegal: access to a resource not held
        D_BAD_UPGRADE, // illegal: stronger mode / larger area
        D_NOP // replace by the same access
    };
    struct Action
    {
        ActKind kind = A_PAUSE;
        int16_t a = 0, b = 0;
        Acc acc;
    };

    enum ResultKind : uint8_t
    {
        K_VOID,
        K_INT,
        K_TRACER
    };
    enum FutPolicy : uint8_t
    {
        P_IMPLICIT, // builder dropped
        P_SUBMIT_DROP,
        P_KEEP, // kept until read or dropped later
        P_KEEP_MOVED, // same, moved around
        P_NOW // submit().get() at once (only where that is possible)
    };

    struct TaskDef
    {
        int16_t parent = -1;
        uint8_t depth = 0, creator = 0;
        uint8_t nacc = 0, nact = 0;
        Acc acc[MAXACC];
        Action act[MAXACT];
        bool ss = false;
        uint8_t result = K_VOID, futpol = P_IMPLICIT, style = 0;
        uint8_t drop = 0; // when a kept future is dropped: 0 before barrier, 1 after barrier, 2 after finalize
        uint32_t tags = 0;
        int8_t sub = -1; // expected sub-scheduler, -1: none registered, -2: refused
        int16_t arg = 0;
    };
    struct EvDef
    {
        int16_t owner = -1;
        int16_t notifier = -2; // task, -1: main, -2: io thread
        uint8_t delay = 0;
        uint8_t keep = 0;
    };
    struct Plan
    {
        int n_tasks = 0, n_res = 0, n_ev = 0, n_foreign = 0;
        TaskDef t[MAXTASK];
        ResKind res[MAXRES];
        int16_t res_owner[MAXRES]; // LOCAL: owning task
        EvDef ev[MAXEV];
        std::vector<Action> main;
        std::vector<Action> foreign[MAXTHR];
        uint8_t foreign_delay[MAXTHR];
        std::vector<uint32_t> subs; // tags of the sub-schedulers
        bool wide = false; // many resources and accesses
        int burn = 0; // resources created and dropped between those of the program
        int n_sync = 0, n_demote = 0, n_conf = 0;
        bool io_thread = false;
        std::vector<std::vector<Acc>> bad; // accesses of children that must be refused
        bool want_bad = false;
    };
    extern Plan plan;

    struct Profile
    {
        char const* name;
        int min_tasks = 1, max_tasks = 14, max_depth = 2;
        int max_io = 3, max_iog = 1, max_f1 = 1, max_f2 = 1, max_x = 1;
        bool only_x = false; // always have some of the less common resources
        int local = 1; // chance in 16 that a parent creates a local resource
        int p_ss = 8; // of 16
        int w_pause = 2, w_touch = 4, w_spawn = 3, w_event = 1, w_evyield = 1, w_sync = 2, w_demote = 0, w_ctx = 1, w_ready = 1, w_bad = 0;
        int p_root = 10; // of 16: a root task has accesses at all
        int max_foreign = 0;
        int p_thread = 0; // of 16: a round is run by a fresh thread instead of the main thread
        int p_stream = 0; // of 16: long flat program
        int max_rounds = 1;
        int p_keep = 8; // of 16
        int max_workers = 4;
        int tags = 0;
        bool late_handles = true; // futures/resources may be dropped after finalize
        bool os_faults = false, bind_faults = true;
        int rendezvous = 0; // independent tasks waiting for later ones
        int min_workers = 1;
        int p_write = 8; // of 16
        int p_guard = 0; // of 16: guards as arguments where possible
    };

    void gen(Profile const& p);

    // ---- run-time oracle ----
    void begin_round();
    void start_create(int t); // just before the statement that creates the task
    void submitted(int t);
    void cancelled(int t); // creation failed and was reported
    std::vector<int> duties_of_cancelled(int t); // events its subtree would have notified
    void on_start(int t, int arg);
    void on_end(int t, uint64_t value);
    void touch_check(int t, Acc const& a);
    void notify_mark(int e);
    void event_created(int e);
    void wait_begin(int t);
    void wait_end_event(int t, int e); // t: -1 main
    void wait_end_future(int t, int u);
    void got_value(int u, uint64_t v);
    void check_ready(int u, bool ready);
    void demote_begin(int t, int kind, int i, Acc const& repl);
    void barrier_begin();
    void barrier_end(char const* what);
    void routed(int t, int sub, char const* what);
    void main_run(int t);
    void ctx(int t, int cur, int depth, int const* chain, int n);
    void ctx_outside(int t_current, int depth, int bt);
    void end_round(bool check_values);
    uint64_t cell_expect(int res, int c);
    uint64_t initial_cell(int res, int c);
    void check_cell(int res, int c, uint64_t v);
    bool is_cancelled(int t);
    bool finished(int t);
    bool ended(int t);
    int n_cells(int res);

    // ---- lifetime tracking ----
    enum TrKind
    {
        TR_CLOSURE,
        TR_ARG,
        TR_RESULT,
        TR_CELL
    };
    void tr_new(void* p, int kind, int id);
    void tr_del(void* p);
    void tr_use(void const* p);
    size_t tr_count();
    void tr_check_empty(char const* when);

    // ---- touch arithmetic shared by model and program ----
    inline uint64_t op_write(uint64_t cell, uint64_t h, int id)
    {
        return cell * 31 + h + 7 * id + 1;
    }
    inline uint64_t op_read(uint64_t h, uint64_t cell)
    {
        return h * 1000003 + cell;
    }
    inline uint64_t op_add(int id)
    {
        return 2654435761ull * (id + 1);
    }
    inline uint64_t op_mul(int id)
    {
        return 2 * id + 3;
    }
} // namespace M
