#include "model.hpp"

#include <algorithm>
#include <cstdio>
#include <cstring>
#include <map>
#include <unordered_map>

using sim::chance;
using sim::choose;
using sim::range;

namespace M
{
    Plan plan;
    static Profile prof;

    // ------------------------------------------------------------------ accesses
    static bool overlap(Acc const& a, Acc const& b)
    {
        for(int d = 0; d < 3; ++d)
            if(a.hi[d] <= b.lo[d] || a.lo[d] >= b.hi[d])
                return false;
        return true;
    }
    static bool modes_conflict(Mode a, Mode b)
    {
        return !(a == b && a != WR);
    }
    bool conflict(Acc const& a, Acc const& b)
    {
        if(a.res != b.res)
            return false;
        bool m1 = modes_conflict(a.mode, b.mode), m2 = modes_conflict(a.mode2, b.mode2);
        switch(plan.res[a.res])
        {
        case R_OR:
            return m1 || m2;
        case R_AND:
            return m1 && m2;
        case R_CMB:
            return m1 || (m2 && overlap(a, b));
        default:
            return m1 && overlap(a, b);
        }
    }
    bool covers(Acc const& a, Acc const& b)
    {
        if(a.res != b.res || (a.mode != WR && a.mode != b.mode) || (a.mode2 != WR && a.mode2 != b.mode2))
            return false;
        for(int d = 0; d < 3; ++d)
            if(a.lo[d] > b.lo[d] || a.hi[d] < b.hi[d])
                return false;
        return true;
    }
    bool same(Acc const& a, Acc const& b)
    {
        return a.res == b.res && a.mode == b.mode && a.mode2 == b.mode2 && !memcmp(a.lo, b.lo, 3) && !memcmp(a.hi, b.hi, 3);
    }
    static bool has_mode2(int r)
    {
        return plan.res[r] == R_OR || plan.res[r] == R_AND || plan.res[r] == R_CMB;
    }
    static bool four_modes(int r)
    {
        return plan.res[r] == R_IO || plan.res[r] == R_LOCAL || has_mode2(r);
    }
    int dims(int r)
    {
        switch(plan.res[r])
        {
        case R_F1:
        case R_CMB:
            return 1;
        case R_F2:
            return 2;
        case R_F3:
            return 3;
        default:
            return 0;
        }
    }
    static bool is_field(int r)
    {
        return dims(r) > 0;
    }
    int extent(int r, int d)
    {
        return plan.res[r] == R_F2 ? 4 : plan.res[r] == R_F3 ? (d == 2 ? 4 : 2) : 8;
    }
    int n_cells(int r)
    {
        switch(plan.res[r])
        {
        case R_F1:
            return 8;
        case R_F2:
        case R_F3:
            return 16;
        case R_OR:
            return 2;
        case R_CMB:
            return 9;
        case R_AND:
            return 0;
        default:
            return 1;
        }
    }
    bool in_access(Acc const& a, int c, Mode& m)
    {
        int r = a.res;
        m = a.mode;
        if(has_mode2(r) && c > 0)
            m = a.mode2;
        if(plan.res[r] == R_CMB)
        {
            if(c == 0)
                return true;
            --c;
        }
        for(int d = 0; d < dims(r); ++d)
        {
            int x = c % extent(r, d);
            c /= extent(r, d);
            if(x < a.lo[d] || x >= a.hi[d])
                return false;
        }
        return true;
    }

    // ------------------------------------------------------------------ generator
    static Mode rand_mode(int r)
    {
        return chance(prof.p_write, 16) ? WR : four_modes(r) ? Mode(1 + choose(3)) : RD;
    }
    static Acc rand_acc(int r)
    {
        Acc a;
        a.res = r;
        a.mode = rand_mode(r);
        if(has_mode2(r))
            a.mode2 = rand_mode(r);
        for(int d = 0; d < dims(r); ++d)
            if(chance(12, 16))
            {
                int e = extent(r, d);
                a.lo[d] = choose(e);
                a.hi[d] = chance(2, 16) ? FULL : a.lo[d] + 1 + choose(e - a.lo[d]); // FULL: open end
            }
        return a;
    }
    static Acc narrow(Acc a)
    {
        if(a.mode == WR && chance(5, 16))
            a.mode = four_modes(a.res) ? Mode(1 + choose(3)) : RD;
        if(has_mode2(a.res) && a.mode2 == WR && chance(5, 16))
            a.mode2 = Mode(1 + choose(3));
        for(int d = 0; d < dims(a.res); ++d)
            if(chance(6, 16))
            {
                int lo = a.lo[d], hi = a.hi[d] == FULL ? extent(a.res, d) : a.hi[d];
                int nlo = lo + choose(hi - lo), nhi = nlo + 1 + choose(hi - nlo);
                a.lo[d] = nlo;
                a.hi[d] = nhi;
            }
        return a;
    }

    static int budget;
    static int new_task(int parent, int creator)
    {
        int id = plan.n_tasks++;
        TaskDef& t = plan.t[id];
        t = TaskDef();
        t.parent = parent;
        t.creator = creator;
        t.depth = parent < 0 ? 0 : plan.t[parent].depth + 1;
        return id;
    }
    static int new_event(int owner)
    {
        if(plan.n_ev >= MAXEV)
            return -1;
        int e = plan.n_ev++;
        plan.ev[e] = EvDef();
        plan.ev[e].owner = owner;
        plan.ev[e].delay = choose(30);
        plan.ev[e].keep = choose(4);
        return e;
    }
    static void choose_form(TaskDef& t)
    {
        t.result = choose(3);
        t.style = choose(6);
        if(prof.p_guard && chance(prof.p_guard, 16))
            t.style = 3;
        t.arg = choose(1000);
        if(chance(prof.p_keep, 16))
            t.futpol = P_KEEP + choose(3);
        else
            t.futpol = choose(2);
        if(prof.os_faults && t.futpol == P_IMPLICIT)
            t.futpol = P_SUBMIT_DROP;
        t.drop = choose(prof.late_handles ? 3 : 2);
        if(prof.tags)
        {
            t.tags = 0;
            for(int b = 0; b < 4; ++b)
                if(chance(4, 16))
                    t.tags |= 1u << b;
            t.sub = -2;
            for(size_t i = 0; i < plan.subs.size(); ++i)
                if((plan.subs[i] & t.tags) == t.tags)
                {
                    t.sub = i;
                    break;
                }
            if(t.sub == -2 && t.futpol == P_IMPLICIT)
                t.futpol = P_SUBMIT_DROP;
        }
    }

    static void gen_body(int id, std::vector<Acc> eff);
    static void gen_child(int parent, std::vector<Acc> const& peff)
    {
        int id = new_task(parent, plan.t[parent].creator);
        TaskDef& t = plan.t[id];
        t.ss = chance(prof.p_ss, 16);
        int n = plan.wide && chance(6, 16) ? choose(MAXACC) : choose(3);
        for(int i = 0; i < n; ++i)
        {
            // local resources of the parent
            std::vector<int> loc;
            for(int r = 0; r < plan.n_res; ++r)
                if(plan.res[r] == R_LOCAL && plan.res_owner[r] == parent)
                    loc.push_back(r);
            if(!loc.empty() && chance(8, 16))
                t.acc[t.nacc++] = rand_acc(loc[choose(loc.size())]);
            else if(!peff.empty())
                t.acc[t.nacc++] = narrow(peff[choose(peff.size())]);
        }
        choose_form(t);
        gen_body(id, std::vector<Acc>(t.acc, t.acc + t.nacc));
    }

    static void gen_body(int id, std::vector<Acc> eff)
    {
        Profile const& p = prof;
        TaskDef& t = plan.t[id];
        std::vector<Acc> used; // accesses of children created so far
        auto add = [&](ActKind k, int a = 0, int b = 0) -> Action&
        {
            Action& x = t.act[t.nact++];
            x = Action();
            x.kind = k;
            x.a = a;
            x.b = b;
            return x;
        };
        if(chance(p.local, 16) && plan.n_res < MAXRES && t.depth < p.max_depth)
        {
            plan.res[plan.n_res] = R_LOCAL;
            plan.res_owner[plan.n_res++] = id;
        }
        int n = choose(MAXACT - 3);
        int w[10] = {p.w_pause, p.w_touch, p.w_spawn, p.w_event, p.w_evyield, p.w_sync, p.w_demote, p.w_ctx, p.w_ready, plan.want_bad ? p.w_bad : 0};
        if(t.depth >= p.max_depth)
            w[2] = 0;
        if(!t.ss)
            w[4] = 0;
        int tot = 0;
        for(int x : w)
            tot += x;
        bool more = false;
        for(int i = 0; (i < n || more) && t.nact < MAXACT - 2; ++i)
        {
            int k = choose(tot), j = 0;
            while(k >= w[j])
                k -= w[j++];
            if(more) // several changes in a row may go into one patch
                j = 6;
            more = false;
            switch(j)
            {
            case 0:
                add(A_PAUSE, 1 + choose(20));
                break;
            case 1:
                if(!eff.empty())
                {
                    Acc a = eff[choose(eff.size())];
                    bool ok = true;
                    for(auto const& u : used)
                        ok &= !conflict(a, u) && !(a.mode != WR && a.res == u.res && a.mode != u.mode && !has_mode2(a.res));
                    if(ok)
                        add(A_TOUCH).acc = a;
                }
                break;
            case 2:
                if(budget > 0)
                {
                    --budget;
                    int c = plan.n_tasks;
                    add(A_SPAWN, c);
                    gen_child(id, eff);
                    for(int x = 0; x < plan.t[c].nacc; ++x)
                        used.push_back(plan.t[c].acc[x]);
                }
                break;
            case 3:
                {
                    int e = new_event(id);
                    if(e >= 0)
                        add(A_EVENT, e);
                    break;
                }
            case 4:
                {
                    int e = new_event(id);
                    if(e >= 0)
                    {
                        add(A_EVENT, e);
                        if(chance(4, 16) && t.nact < MAXACT - 2)
                            add(A_PAUSE, 1 + choose(20));
                        add(A_YIELD, e);
                    }
                    break;
                }
            case 5:
                add(A_SYNC);
                break;
            case 6:
                {
                    // reduce the accesses, or try something that has to be refused
                    int kind = choose(6);
                    if((kind == D_DROP || kind == D_READ || kind == D_SHRINK || kind == D_NOP) && eff.empty())
                        break;
                    int x = eff.empty() ? 0 : choose(eff.size());
                    if(kind == D_BAD_NEW)
                    {
                        std::vector<int> cand;
                        for(int r = 0; r < plan.n_res; ++r)
                        {
                            bool held = plan.res[r] == R_LOCAL; // inner scopes are always permitted
                            for(auto const& a : eff)
                                held |= a.res == r;
                            if(!held)
                                cand.push_back(r);
                        }
                        if(cand.empty())
                            break;
                        add(A_DEMOTE, -1, kind).acc = rand_acc(cand[choose(cand.size())]);
                        break;
                    }
                    if(eff.empty())
                        break;
                    Acc a = eff[x], r = a;
                    if(kind == D_BAD_UPGRADE)
                    {
                        if(a.mode != WR && (!has_mode2(a.res) || a.mode2 == WR || chance(8, 16)))
                            r.mode = WR;
                        else if(has_mode2(a.res) && a.mode2 != WR)
                            r.mode2 = WR;
                        else if(is_field(a.res) && a.hi[0] != FULL)
                            for(int d = 0; d < dims(a.res); ++d)
                            {
                                r.lo[d] = 0;
                                r.hi[d] = FULL;
                            }
                        else
                            break;
                        bool cov = false;
                        for(auto const& o : eff)
                            cov |= covers(o, r);
                        if(cov)
                            break;
                        Action& act = add(A_DEMOTE, x, kind);
                        act.acc = r;
                        break;
                    }
                    // parts given up must not be in use by children any more
                    bool busy = false;
                    for(auto const& u : used)
                        busy |= u.res == a.res;
                    if(busy && kind != D_NOP)
                        break;
                    if(kind == D_READ)
                    {
                        if(a.mode == WR && (!has_mode2(a.res) || a.mode2 != WR || chance(8, 16)))
                            r.mode = four_modes(a.res) ? Mode(1 + choose(3)) : RD;
                        else if(has_mode2(a.res) && a.mode2 == WR)
                            r.mode2 = Mode(1 + choose(3));
                        else
                            break;
                    }
                    if(kind == D_SHRINK)
                    {
                        if(!is_field(a.res))
                            break;
                        int d = choose(dims(a.res));
                        int e = a.hi[d] == FULL ? extent(a.res, d) : a.hi[d];
                        r.lo[d] = a.lo[d] + choose(e - a.lo[d]);
                        r.hi[d] = r.lo[d] + 1 + choose(e - r.lo[d]);
                    }
                    Action& act = add(A_DEMOTE, x, kind);
                    act.acc = r;
                    // remove_resources() removes every equal access
                    std::vector<Acc> ne;
                    for(auto const& o : eff)
                        if(!same(o, a))
                            ne.push_back(o);
                    if(kind != D_DROP)
                        ne.push_back(r);
                    eff = ne;
                    more = chance(6, 16);
                    break;
                }
            case 7:
                add(A_CTX);
                break;
            case 8:
                if(plan.n_tasks > 1)
                {
                    int u = choose(plan.n_tasks);
                    add(chance(5, 16) ? A_DROPF : A_READY, u);
                }
                break;
            case 9:
                // a child that asks for one thing too much; usually the program ends there, so only one of them
                if(plan.bad.empty())
                {
                    std::vector<int> cand; // resources of inner scopes are always permitted
                    for(int r = 0; r < plan.n_res; ++r)
                    {
                        bool held = false;
                        for(auto const& a : eff)
                            held |= a.res == r;
                        if(held || (plan.res[r] != R_LOCAL && chance(8, 16)))
                            cand.push_back(r);
                    }
                    if(cand.empty())
                        break;
                    Acc b;
                    bool cov = true;
                    for(int tries = 0; tries < 4 && cov; ++tries)
                    {
                        b = rand_acc(cand[choose(cand.size())]);
                        cov = false;
                        for(auto const& o : eff)
                            cov |= covers(o, b);
                    }
                    if(cov)
                        break;
                    std::vector<Acc> list;
                    int m = choose(4), at = choose(m + 1);
                    for(int x = 0; x <= m; ++x)
                        if(x == at)
                            list.push_back(b);
                        else if(!eff.empty())
                            list.push_back(narrow(eff[choose(eff.size())]));
                    add(A_BADCHILD, plan.bad.size());
                    plan.bad.push_back(list);
                }
                break;
            }
        }
    }

    static int gen_root(int creator, bool stream)
    {
        int id = new_task(-1, creator);
        TaskDef& t = plan.t[id];
        t.ss = !stream && chance(prof.p_ss, 16);
        if(chance(prof.p_root, 16))
        {
            int n = 1 + (plan.wide && chance(8, 16) ? choose(MAXACC) : choose(stream ? 2 : 3));
            for(int i = 0; i < n; ++i)
                t.acc[t.nacc++] = rand_acc(choose(plan.n_res));
            for(int i = 0; i < t.nacc; ++i)
                if(plan.res[t.acc[i].res] == R_LOCAL) // not visible here
                    t.acc[i] = rand_acc(0);
            if(plan.wide && n > 3)
                for(int i = 0; i < t.nacc; ++i)
                    if(t.acc[i].mode == WR && !is_field(t.acc[i].res) && chance(10, 16)) // or everything is in one line
                        t.acc[i].mode = RD;
        }
        choose_form(t);
        if(stream)
        {
            if(t.nacc && chance(8, 16))
            {
                t.act[t.nact] = Action();
                t.act[t.nact].kind = A_TOUCH;
                t.act[t.nact++].acc = t.acc[0];
            }
            else if(chance(2, 16))
            {
                t.act[t.nact] = Action();
                t.act[t.nact].kind = A_PAUSE;
                t.act[t.nact++].a = 1 + choose(40);
            }
        }
        else
            gen_body(id, std::vector<Acc>(t.acc, t.acc + t.nacc));
        return id;
    }

    // ------------------------------------------------------------------ milestone graph
    // an action that waits is only used if the program stays free of cycles
    static std::vector<std::vector<int>> g;
    static std::vector<int> tbase;
    static int mbase, ebase, fbase[MAXTHR];
    static std::vector<int> mark;
    static int mark_id;
    static int nS(int t)
    {
        return tbase[t];
    }
    static int nA(int t, int i)
    {
        return tbase[t] + 1 + i;
    }
    static int nB(int t)
    {
        return tbase[t] + 1 + plan.t[t].nact;
    }
    static int nF(int t)
    {
        return nB(t) + 1;
    }
    static bool reach(int a, int b)
    {
        if(a == b)
            return true;
        ++mark_id;
        static std::vector<int> st;
        st.clear();
        st.push_back(a);
        mark[a] = mark_id;
        while(!st.empty())
        {
            int x = st.back();
            st.pop_back();
            for(int y : g[x])
            {
                if(y == b)
                    return true;
                if(mark[y] != mark_id)
                {
                    mark[y] = mark_id;
                    st.push_back(y);
                }
            }
        }
        return false;
    }
    static bool try_edge(int a, int b)
    {
        if(reach(b, a))
            return false;
        g[a].push_back(b);
        return true;
    }
    // accesses after every action of t
    static void apply_demote(std::vector<Acc>& eff, std::vector<Acc> const& orig, Action const& a)
    {
        if(a.b == D_BAD_NEW || a.b == D_BAD_UPGRADE)
            return;
        Acc old = orig[a.a];
        std::vector<Acc> ne;
        for(auto const& o : eff)
            if(!same(o, old))
                ne.push_back(o);
        if(a.b != D_DROP)
            ne.push_back(a.acc);
        eff = ne;
    }
    static bool any_conflict(std::vector<Acc> const& a, Acc const* b, int nb)
    {
        for(auto const& x : a)
            for(int i = 0; i < nb; ++i)
                if(conflict(x, b[i]))
                    return true;
        return false;
    }

    static void build_graph()
    {
        tbase.assign(plan.n_tasks, 0);
        int n = 0;
        for(int t = 0; t < plan.n_tasks; ++t)
        {
            tbase[t] = n;
            n += plan.t[t].nact + 3;
        }
        mbase = n;
        n += plan.main.size() + 1;
        for(int k = 0; k < plan.n_foreign; ++k)
        {
            fbase[k] = n;
            n += plan.foreign[k].size() + 1;
        }
        ebase = n;
        n += plan.n_ev;
        g.assign(n, {});
        mark.assign(n, 0);
        mark_id = 0;
        for(int t = 0; t < plan.n_tasks; ++t)
        {
            TaskDef& d = plan.t[t];
            int prev = nS(t);
            for(int i = 0; i < d.nact; ++i)
            {
                g[prev].push_back(nA(t, i));
                if(d.act[i].kind == A_SPAWN)
                {
                    int c = d.act[i].a;
                    g[prev].push_back(nS(c));
                    g[nF(c)].push_back(nF(t));
                }
                if(d.act[i].kind == A_EVENT)
                    g[nA(t, i)].push_back(ebase + d.act[i].a);
                if(d.act[i].kind == A_YIELD)
                    g[ebase + d.act[i].a].push_back(nA(t, i));
                prev = nA(t, i);
            }
            g[prev].push_back(nB(t));
            g[nB(t)].push_back(nF(t));
        }
        for(int e = 0; e < plan.n_ev; ++e)
            g[ebase + e].push_back(nF(plan.ev[e].owner));
        for(int th = 0; th <= plan.n_foreign; ++th)
        {
            std::vector<Action> const& acts = th ? plan.foreign[th - 1] : plan.main;
            int base = th ? fbase[th - 1] : mbase;
            for(size_t i = 0; i < acts.size(); ++i)
            {
                Action const& a = acts[i];
                g[base + i].push_back(base + i + 1); // node base+i: before action i
                if(a.kind == A_SPAWN)
                    g[base + i].push_back(nS(a.a));
                if(a.kind == A_LAUNCH)
                    g[base + i].push_back(fbase[a.a]);
                if(a.kind == A_JOIN)
                    g[fbase[a.a] + plan.foreign[a.a].size()].push_back(base + i + 1);
                if(a.kind == A_BARRIER)
                    for(size_t k = 0; k < i; ++k)
                        if(acts[k].kind == A_SPAWN)
                            g[nF(acts[k].a)].push_back(base + i + 1);
            }
        }
        // conflicts between siblings
        for(int t = 0; t < plan.n_tasks; ++t)
            for(int u = 0; u < t; ++u)
            {
                if(plan.t[u].parent != plan.t[t].parent || plan.t[u].creator != plan.t[t].creator)
                    continue;
                std::vector<Acc> eff(plan.t[u].acc, plan.t[u].acc + plan.t[u].nacc), cur = eff;
                if(!any_conflict(eff, plan.t[t].acc, plan.t[t].nacc))
                    continue;
                plan.n_conf++;
                int node = nF(u);
                for(int i = 0; i < plan.t[u].nact; ++i)
                    if(plan.t[u].act[i].kind == A_DEMOTE)
                    {
                        apply_demote(cur, cur, plan.t[u].act[i]);
                        if(!any_conflict(cur, plan.t[t].acc, plan.t[t].nacc))
                        {
                            node = nA(u, i);
                            break;
                        }
                    }
                g[node].push_back(nS(t));
            }
    }

    struct SlotRef
    {
        int t, i;
    };
    static bool ancestor_or_self(int a, int t)
    {
        for(; t >= 0; t = plan.t[t].parent)
            if(t == a)
                return true;
        return false;
    }

    static void resolve_sync()
    {
        std::vector<SlotRef> slots;
        for(int t = 0; t < plan.n_tasks; ++t)
            for(int i = 0; i < plan.t[t].nact; ++i)
                if(plan.t[t].act[i].kind == A_SYNC)
                    slots.push_back({t, i});
        for(size_t i = 0; i < plan.main.size(); ++i)
            if(plan.main[i].kind == A_SYNC)
                slots.push_back({-1, (int) i});
        for(int k = 0; k < plan.n_foreign; ++k)
            for(size_t i = 0; i < plan.foreign[k].size(); ++i)
                if(plan.foreign[k][i].kind == A_SYNC)
                    slots.push_back({-2 - k, (int) i});
        auto tb = [&](SlotRef s) { return s.t == -1 ? mbase : fbase[-2 - s.t]; };
        auto act = [&](SlotRef s) -> Action&
        { return s.t == -1 ? plan.main[s.i] : s.t < 0 ? plan.foreign[-2 - s.t][s.i] : plan.t[s.t].act[s.i]; };
        auto done = [&](SlotRef s) { return s.t < 0 ? tb(s) + s.i + 1 : nA(s.t, s.i); };
        auto before = [&](SlotRef s) { return s.t < 0 ? tb(s) + s.i : s.i == 0 ? nS(s.t) : nA(s.t, s.i - 1); };
        bool foreign = plan.n_foreign > 0;

        // get() right after submission
        for(int t = 0; t < plan.n_tasks; ++t)
        {
            TaskDef& d = plan.t[t];
            if(d.futpol != P_NOW)
                continue;
            bool ok = false;
            if(d.parent < 0)
            {
                std::vector<Action> const& acts = d.creator ? plan.foreign[d.creator - 1] : plan.main;
                int base = d.creator ? fbase[d.creator - 1] : mbase;
                for(size_t i = 0; i < acts.size() && !ok; ++i)
                    if(acts[i].kind == A_SPAWN && acts[i].a == t)
                        ok = try_edge(nB(t), base + i + 1);
            }
            else if(d.parent >= 0 && plan.t[d.parent].ss)
                for(int i = 0; i < plan.t[d.parent].nact && !ok; ++i)
                    if(plan.t[d.parent].act[i].kind == A_SPAWN && plan.t[d.parent].act[i].a == t)
                        ok = try_edge(nB(t), nA(d.parent, i));
            if(!ok)
                d.futpol = P_SUBMIT_DROP;
            else
                plan.n_sync++;
        }

        // who notifies which event
        for(int e = 0; e < plan.n_ev; ++e)
        {
            plan.ev[e].notifier = -2;
            if(!foreign && !slots.empty() && !chance(4, 16))
                for(int k = 0; k < 6; ++k)
                {
                    SlotRef s = slots[choose(slots.size())];
                    if(act(s).kind != A_SYNC)
                        continue;
                    if(try_edge(before(s), ebase + e))
                    {
                        act(s).kind = A_NOTIFY;
                        act(s).a = e;
                        plan.ev[e].notifier = s.t;
                        plan.n_sync++;
                        break;
                    }
                }
            if(plan.ev[e].notifier == -2)
                plan.io_thread = true;
        }

        std::vector<char> has_getter(plan.n_tasks, 0);
        for(auto s : slots)
        {
            Action& a = act(s);
            if(a.kind != A_SYNC)
                continue;
            a.kind = A_PAUSE;
            a.a = 1 + choose(8);
            if(s.t >= 0 && !plan.t[s.t].ss)
            {
                // it keeps its worker while it waits, so only for something that comes from outside
                for(int i = 0; i < s.i; ++i)
                {
                    Action const& ev = plan.t[s.t].act[i];
                    if(ev.kind == A_EVENT && plan.ev[ev.a].notifier == -2 && chance(10, 16))
                    {
                        a.kind = A_YIELD;
                        a.a = ev.a;
                        g[ebase + ev.a].push_back(done(s));
                        plan.n_sync++;
                        break;
                    }
                }
                continue;
            }
            int want = choose(3);
            if(want <= 1)
            {
                for(int k = 0; k < 6; ++k)
                {
                    int u = choose(plan.n_tasks);
                    TaskDef& d = plan.t[u];
                    if((d.futpol != P_KEEP && d.futpol != P_KEEP_MOVED) || has_getter[u] || (s.t >= 0 && ancestor_or_self(u, s.t)))
                        continue;
                    if(foreign && d.parent != std::max(s.t, -1)) // a thread may wait for a task of another one
                        continue;
                    if(try_edge(nB(u), done(s)))
                    {
                        has_getter[u] = 1;
                        a.kind = A_GET;
                        a.a = u;
                        plan.n_sync++;
                        break;
                    }
                }
            }
            else if(!foreign)
                for(int k = 0; k < 4 && plan.n_ev; ++k)
                {
                    int e = choose(plan.n_ev);
                    if(try_edge(ebase + e, done(s)))
                    {
                        a.kind = A_YIELD;
                        a.a = e;
                        plan.n_sync++;
                        break;
                    }
                }
        }
    }

    void gen(Profile const& p)
    {
        prof = p;
        plan.n_tasks = plan.n_res = plan.n_ev = plan.n_foreign = 0;
        plan.main.clear();
        plan.n_sync = plan.n_demote = plan.n_conf = 0;
        plan.io_thread = false;
        plan.subs.clear();
        plan.bad.clear();
        plan.want_bad = p.w_bad && chance(8, 16);
        for(auto& f : plan.foreign)
            f.clear();
        auto add_res = [&](ResKind k, int lo, int hi)
        {
            int n = hi > lo ? range(lo, hi) : hi;
            for(int i = 0; i < n && plan.n_res < 20; ++i)
            {
                plan.res_owner[plan.n_res] = -1;
                plan.res[plan.n_res++] = k;
            }
        };
        plan.wide = chance(2, 16);
        plan.burn = chance(1, 16) ? 20 + choose(50) : 0;
        add_res(R_IO, p.max_io ? 1 : 0, plan.wide ? p.max_io + 12 : p.max_io);
        add_res(R_IOG, 0, p.max_iog);
        add_res(R_F1, 0, p.max_f1);
        add_res(R_F2, 0, p.max_f2);
        if(p.max_x && (p.only_x || chance(5, 16)))
        {
            add_res(R_F3, 0, p.max_x);
            add_res(R_OR, 0, p.max_x);
            add_res(R_AND, 0, p.max_x);
            add_res(R_CMB, 0, p.max_x);
        }
        if(!plan.n_res)
            add_res(R_IO, 1, 1);
        if(p.tags)
        {
            int n = 1 + choose(4);
            for(int i = 0; i < n; ++i)
            {
                uint32_t m = 0;
                for(int b = 0; b < 4; ++b)
                    if(chance(6, 16))
                        m |= 1u << b;
                if(i == n - 1 && !chance(6, 16))
                    m = 15;
                plan.subs.push_back(m);
            }
        }
        bool stream = chance(p.p_stream, 16);
        plan.n_foreign = p.max_foreign ? choose(p.max_foreign + 1) : 0;
        int n;
        if(stream)
        {
            n = 100 + choose(220);
            budget = 0;
        }
        else
        {
            n = range(p.min_tasks, p.max_tasks);
            budget = p.max_depth ? choose(n) : 0;
        }
        int roots = std::max(1, n - budget);
        auto madd = [&](ActKind k, int a = 0, int b = 0)
        {
            Action x;
            x.kind = k;
            x.a = a;
            x.b = b;
            plan.main.push_back(x);
        };
        int launched = 0;
        for(int i = 0; i < plan.n_foreign; ++i)
            plan.foreign_delay[i] = choose(40);
        for(int r = 0; r < roots && plan.n_tasks < MAXTASK - 60; ++r)
        {
            while(launched < plan.n_foreign && (r + 1) * (plan.n_foreign + 1) > (launched + 1) * roots / 2)
                madd(A_LAUNCH, launched++);
            int creator = plan.n_foreign ? choose(plan.n_foreign + 1) : 0;
            int id = gen_root(creator, stream);
            if(creator)
            {
                auto fadd = [&](ActKind k, int a = 0)
                {
                    Action x;
                    x.kind = k;
                    x.a = a;
                    plan.foreign[creator - 1].push_back(x);
                };
                fadd(A_SPAWN, id);
                int k = choose(16);
                if(k < 4)
                    fadd(A_SYNC);
                else if(k == 4)
                    fadd(A_PAUSE, 1 + choose(60));
                else if(k == 5)
                    fadd(chance(8, 16) ? A_BARRIER : A_CTX);
                else if(k == 6)
                    fadd(A_READY, choose(plan.n_tasks));
                else if(k == 7)
                    fadd(A_DROPF, choose(plan.n_tasks));
            }
            else
                madd(A_SPAWN, id);
            if(!stream || chance(1, 16))
            {
                int k = choose(16);
                if(k >= 10 && k < 12)
                    madd(A_SYNC);
                else if(k == 12)
                    madd(A_PAUSE, 1 + choose(60));
                else if(k == 13)
                    madd(chance(8, 16) ? A_BARRIER : A_CTX);
                else if(k == 14)
                    madd(A_READY, choose(plan.n_tasks));
                else if(k == 15)
                    madd(A_DROPF, choose(plan.n_tasks));
            }
        }
        while(launched < plan.n_foreign)
            madd(A_LAUNCH, launched++);
        for(int i = 0; i < p.w_sync; ++i)
            if(chance(6, 16))
                madd(A_SYNC);
        for(int i = 0; i < plan.n_foreign; ++i)
            madd(A_JOIN, i);
        for(int t = 0; t < plan.n_tasks; ++t)
            for(int i = 0; i < plan.t[t].nact; ++i)
                plan.n_demote += plan.t[t].act[i].kind == A_DEMOTE;
        build_graph();
        resolve_sync();
    }

    // ------------------------------------------------------------------ run-time state
    struct TS
    {
        bool creating, submitted, cancelled, started, ended, fin, waiting, got;
        bool ready_seen;
        sim::Epoch create_ep, end_ep;
        uint64_t value;
        int start_seq;
        std::vector<Acc> eff; // what is still declared
        struct Hist
        {
            std::vector<Acc> eff;
            sim::Epoch ep;
        };
        std::vector<Hist> hist; // accesses after each demotion
        int run_tid;
        std::vector<int> routes;
    };
    static TS st[MAXTASK];
    struct ES
    {
        bool created, notified;
        sim::Epoch ep;
    };
    static ES es[MAXEV];
    static std::vector<int> kids[MAXTASK], roots, evs[MAXTASK];
    static int subtree_end[MAXTASK];
    static int start_counter;
    static std::map<int, std::vector<char>> barrier_snapshots; // by thread
    static int round_tid;
    static uint64_t cells[MAXRES][NCELL], value_expect[MAXTASK];

    void begin_round()
    {
        roots.clear();
        for(int t = 0; t < plan.n_tasks; ++t)
        {
            TS& s = st[t];
            s.creating = s.submitted = s.cancelled = s.started = s.ended = s.fin = s.waiting = s.got = s.ready_seen = false;
            s.value = 0;
            s.start_seq = -1;
            s.run_tid = -1;
            s.eff.assign(plan.t[t].acc, plan.t[t].acc + plan.t[t].nacc);
            s.hist.clear();
            s.routes.clear();
            kids[t].clear();
            evs[t].clear();
        }
        for(int t = plan.n_tasks - 1; t >= 0; --t)
        {
            subtree_end[t] = t + 1;
            for(int u = t + 1; u < plan.n_tasks && ancestor_or_self(t, u); ++u)
                subtree_end[t] = u + 1;
        }
        for(int t = 0; t < plan.n_tasks; ++t)
            if(plan.t[t].parent >= 0)
                kids[plan.t[t].parent].push_back(t);
            else
                roots.push_back(t);
        for(int e = 0; e < plan.n_ev; ++e)
        {
            es[e] = ES();
            evs[plan.ev[e].owner].push_back(e);
        }
        start_counter = 0;
        barrier_snapshots.clear();
        round_tid = sim::tid();
    }

    bool is_cancelled(int t)
    {
        return st[t].cancelled;
    }
    bool ended(int t)
    {
        return st[t].ended;
    }
    bool finished(int t)
    {
        TS& s = st[t];
        if(s.fin)
            return true;
        if(!s.ended)
            return false;
        for(int e : evs[t])
            if(es[e].created && !es[e].notified)
                return false;
        for(int c : kids[t])
            if(st[c].creating && !st[c].cancelled && !finished(c))
                return false;
        return s.fin = true;
    }
    static char const* unfinished_why(int t)
    {
        static char buf[160];
        TS& s = st[t];
        if(!s.ended)
        {
            snprintf(buf, sizeof buf, "the function of task %d %s", t, s.started ? (s.waiting ? "is still waiting" : "is still running") : "has not started");
            return buf;
        }
        for(int e : evs[t])
            if(es[e].created && !es[e].notified)
            {
                snprintf(buf, sizeof buf, "event %d of task %d is not notified", e, t);
                return buf;
            }
        for(int c : kids[t])
            if(st[c].creating && !st[c].cancelled && !finished(c))
                return unfinished_why(c);
        return "?";
    }
    static char const* why_class(int t)
    {
        TS& s = st[t];
        if(!s.ended)
            return "order-body";
        for(int e : evs[t])
            if(es[e].created && !es[e].notified)
                return "order-event";
        return "order-child";
    }

    // everything that belongs to the finished task u happens before this point?
    static void check_hb_finished(int u, char const* cls, char const* what, int t)
    {
        for(int v = u; v < subtree_end[u]; ++v)
        {
            if(!st[v].ended)
                continue;
            if(!sim::happens_before(st[v].end_ep))
                sim::fail(cls, "what task %d did does not happen before %s %d (no synchronisation)", v, what, t);
            for(int e : evs[v])
                if(es[e].notified && !sim::happens_before(es[e].ep))
                    sim::fail(cls, "what preceded the notification of event %d of task %d does not happen before %s %d", e, v, what, t);
        }
    }

    void start_create(int t)
    {
        st[t].creating = true;
        st[t].create_ep = sim::now();
    }
    void submitted(int t)
    {
        st[t].submitted = true;
    }
    void cancelled(int t)
    {
        if(st[t].started)
            sim::fail("cancelled-ran", "the creation of task %d was refused with an exception, but the task runs", t);
        for(int v = t; v < subtree_end[t]; ++v)
            st[v].cancelled = true;
    }
    std::vector<int> duties_of_cancelled(int t)
    {
        std::vector<int> r;
        for(int v = t; v < subtree_end[t]; ++v)
            for(int i = 0; i < plan.t[v].nact; ++i)
                if(plan.t[v].act[i].kind == A_NOTIFY)
                    r.push_back(plan.t[v].act[i].a);
        return r;
    }

    void on_start(int t, int arg)
    {
        TS& s = st[t];
        TaskDef const& d = plan.t[t];
        if(s.cancelled)
            sim::fail("cancelled-ran", "task %d runs although its creation was refused with an exception", t);
        if(!s.creating)
            sim::fail("invented", "task %d runs but was never created", t);
        if(s.started)
            sim::fail("twice", "task %d is started a second time", t);
        if(arg != d.arg)
            sim::fail("args", "task %d was created with argument %d but runs with %d", t, d.arg, arg);
        s.started = true;
        s.start_seq = start_counter++;
        s.run_tid = sim::tid();
        if(d.parent >= 0 && finished(d.parent))
            sim::fail("order-child", "task %d starts after its parent %d has finished", t, d.parent);
        if(!sim::happens_before(s.create_ep))
            sim::fail("hb-order", "what preceded the creation of task %d does not happen before its start", t);
        for(int u : d.parent >= 0 ? kids[d.parent] : roots)
        {
            TS& o = st[u];
            if(u == t || !o.creating || o.cancelled)
                continue;
            bool same_creator = plan.t[u].creator == d.creator;
            if(same_creator ? u > t : !o.started)
                continue;
            if(!any_conflict(std::vector<Acc>(plan.t[u].acc, plan.t[u].acc + plan.t[u].nacc), d.acc, d.nacc))
                continue;
            if(any_conflict(o.eff, d.acc, d.nacc))
            {
                if(!finished(u))
                    sim::fail(same_creator ? why_class(u) : "overlap", "task %d starts before the conflicting earlier task %d is finished: %s", t, u, unfinished_why(u));
                check_hb_finished(u, "hb-order", "the start of task", t);
            }
            else
            {
                // released early by demotion
                if(!o.started)
                    sim::fail("order-body", "internal: demoted before start");
                for(auto const& h : o.hist)
                    if(!any_conflict(h.eff, d.acc, d.nacc))
                    {
                        if(!sim::happens_before(h.ep))
                            sim::fail("hb-order", "task %d starts after task %d gave up the conflicting access, but without synchronisation", t, u);
                        break;
                    }
                if(!finished(u))
                    sim::probe(1);
            }
        }
    }
    void on_end(int t, uint64_t value)
    {
        TS& s = st[t];
        if(s.ended)
            sim::fail("twice", "the function of task %d returns twice", t);
        if(s.waiting)
            sim::fail("resume", "task %d continues although it is waiting", t);
        s.value = value;
        s.end_ep = sim::now();
        s.ended = true;
    }
    void notify_mark(int e)
    {
        es[e].notified = true;
        es[e].ep = sim::now();
    }
    void event_created(int e)
    {
        es[e].created = true;
    }
    void wait_begin(int t)
    {
        if(t < 0)
            return;
        if(st[t].waiting)
            sim::fail("resume", "task %d continues although it is waiting", t);
        st[t].waiting = true;
        st[t].run_tid = sim::tid();
    }
    static void resumed(int t)
    {
        if(t < 0)
            return;
        if(!st[t].waiting)
            sim::fail("resume", "task %d was resumed twice from the same wait", t);
        st[t].waiting = false;
        if(st[t].ended)
            sim::fail("resume", "task %d was resumed after it ended", t);
        if(st[t].run_tid != sim::tid())
            sim::probe(3);
    }
    void wait_end_event(int t, int e)
    {
        resumed(t);
        if(!es[e].notified)
            sim::fail("resume-early", "task %d continues but event %d was not notified", t, e);
        if(!sim::happens_before(es[e].ep))
            sim::fail("hb-event", "what preceded the notification of event %d does not happen before the resumption of task %d", e, t);
    }
    void wait_end_future(int t, int u)
    {
        resumed(t);
        if(!st[u].ended)
            sim::fail("future-early", "get() on the future of task %d returned but its function has not returned", u);
        if(!sim::happens_before(st[u].end_ep))
            sim::fail("hb-future", "what task %d did does not happen before get() on its future returns", u);
    }
    void got_value(int u, uint64_t v)
    {
        if(v != st[u].value)
            sim::fail("future-value", "the future of task %d delivered %llu but its function returned %llu", u, (unsigned long long) v, (unsigned long long) st[u].value);
    }
    void check_ready(int u, bool ready)
    {
        if(ready && !st[u].ended)
            sim::fail("future-early", "is_ready() on the future of task %d but its function has not returned", u);
        if(!ready && st[u].ready_seen)
            sim::fail("future-value", "is_ready() on the future of task %d became false again", u);
        st[u].ready_seen |= ready;
    }
    void demote_begin(int t, int kind, int i, Acc const& repl)
    {
        TS& s = st[t];
        Action a;
        a.kind = A_DEMOTE;
        a.a = i;
        a.b = kind;
        a.acc = repl;
        auto orig = s.eff;
        apply_demote(s.eff, orig, a);
        s.hist.push_back({s.eff, sim::now()});
    }
    void barrier_begin()
    {
        auto& barrier_snapshot = barrier_snapshots[sim::tid()];
        barrier_snapshot.assign(plan.n_tasks, 0);
        for(int t : roots)
            barrier_snapshot[t] = st[t].submitted;
    }
    void barrier_end(char const* what)
    {
        auto const barrier_snapshot = barrier_snapshots[sim::tid()];
        for(int t : roots)
        {
            if(!barrier_snapshot[t] || st[t].cancelled)
                continue;
            if(!finished(t))
                sim::fail("barrier-early", "%s returned but %s", what, unfinished_why(t));
            check_hb_finished(t, "hb-barrier", "the return of barrier", 0);
        }
    }
    void routed(int t, int sub, char const* what)
    {
        if(t < 0 || t >= plan.n_tasks)
            return;
        if(sub != plan.t[t].sub)
            sim::fail("route", "task %d with tags %x was given to sub-scheduler %d by %s, the first one that supports them is %d", t, plan.t[t].tags, sub, what, plan.t[t].sub);
    }
    void main_run(int t)
    {
        if(sim::tid() != round_tid)
            sim::fail("route", "task %d belongs to the scheduler served by the main thread but runs on thread %d", t, sim::tid());
    }
    void ctx(int t, int cur, int depth, int const* chain, int n)
    {
        if(cur != t)
            sim::fail("context", "inside task %d, the current task is %d", t, cur);
        if(n < 0)
            return;
        if(n != plan.t[t].depth + 1)
            sim::fail("context", "inside task %d at depth %d, the backtrace has %d entries", t, plan.t[t].depth, n);
        int x = t;
        for(int i = 0; i < n; ++i, x = plan.t[x].parent)
            if(chain[i] != x)
                sim::fail("context", "entry %d of the backtrace of task %d is %d instead of %d", i, t, chain[i], x);
        if(depth != plan.t[t].depth + 1)
            sim::fail("context", "inside task %d at depth %d, scope_depth() is %d", t, plan.t[t].depth, depth);
    }
    void ctx_outside(int has_current, int depth, int bt)
    {
        if(has_current || depth != 0 || bt != 0)
            sim::fail("context", "outside of any task: current task %s, scope depth %d, %d backtrace entries", has_current ? "set" : "none", depth, bt);
    }

    // ------------------------------------------------------------------ sequential execution
    uint64_t initial_cell(int r, int c)
    {
        return 1000 * (r + 1) + c;
    }
    static void seq(int t)
    {
        if(st[t].cancelled || !st[t].creating)
            return;
        TaskDef const& d = plan.t[t];
        uint64_t h = d.arg;
        for(int i = 0; i < d.nact; ++i)
        {
            Action const& a = d.act[i];
            if(a.kind == A_SPAWN)
                seq(a.a);
            if(a.kind != A_TOUCH)
                continue;
            int r = a.acc.res, n = n_cells(r);
            for(int c = 0; c < n; ++c)
            {
                Mode m;
                if(!in_access(a.acc, c, m))
                    continue;
                uint64_t& v = cells[r][c];
                switch(m)
                {
                case WR:
                    v = op_write(v, h, t);
                    break;
                case RD:
                    h = op_read(h, v);
                    break;
                case AADD:
                    v += op_add(t);
                    break;
                case AMUL:
                    v *= op_mul(t);
                    break;
                }
            }
        }
        value_expect[t] = h;
    }
    void end_round(bool check_values)
    {
        for(int t = 0; t < plan.n_tasks; ++t)
        {
            if(st[t].cancelled)
                continue;
            if(!st[t].creating)
                sim::fail("lost", "task %d was never created although its parent ended", t);
            if(!st[t].started || !st[t].ended)
                sim::fail("lost", "the runtime is finalized but %s", unfinished_why(t));
        }
        for(int r = 0; r < plan.n_res; ++r)
            for(int c = 0; c < NCELL; ++c)
                cells[r][c] = initial_cell(r, c);
        std::vector<int> order = roots;
        if(plan.n_foreign) // any order of unrelated creators is right if it is the same on all resources
            std::sort(order.begin(), order.end(), [](int a, int b) { return st[a].start_seq < st[b].start_seq; });
        for(int t : order)
            seq(t);
        if(check_values)
            for(int t = 0; t < plan.n_tasks; ++t)
                if(!st[t].cancelled && st[t].value != value_expect[t])
                    sim::fail("value", "task %d computed %llu, sequential execution gives %llu", t, (unsigned long long) st[t].value, (unsigned long long) value_expect[t]);
    }
    void check_cell(int r, int c, uint64_t v)
    {
        if(v != cells[r][c])
            sim::fail("value", "resource %d element %d is %llu after the program, sequential execution gives %llu", r, c, (unsigned long long) v, (unsigned long long) cells[r][c]);
    }

    // ------------------------------------------------------------------ lifetimes
    struct Tr
    {
        int kind, id;
        std::vector<sim::Epoch> uses; // the last one of each thread, construction included
    };
    // an object may only be destroyed, or built in its place, after all its uses in the sense of the memory model
    static void tr_note(Tr& x)
    {
        sim::Epoch e = sim::now();
        for(auto& u : x.uses)
            if(u.tid == e.tid)
            {
                u = e;
                return;
            }
        x.uses.push_back(e);
    }
    static std::unordered_map<void const*, Tr>& live()
    {
        static std::unordered_map<void const*, Tr> m;
        return m;
    }
    static char const* trk[] = {"function object", "argument", "result", "resource object"};
    void tr_new(void* p, int kind, int id)
    {
        auto it = live().find(p);
        if(it != live().end())
            sim::fail("lifetime", "a %s is constructed over the living %s of %d", trk[kind], trk[it->second.kind], it->second.id);
        Tr& x = live()[p];
        x = {kind, id, {}};
        tr_note(x);
    }
    void tr_del(void* p)
    {
        auto it = live().find(p);
        if(it == live().end())
            sim::fail("lifetime", "an object is destroyed that does not exist (destroyed twice or never constructed)");
        for(auto& u : it->second.uses)
            if(!sim::happens_before(u))
                sim::fail(
                    "hb-lifetime",
                    "the %s of %d is destroyed, but its use by thread %d does not happen before that",
                    trk[it->second.kind],
                    it->second.id,
                    u.tid);
        live().erase(it);
    }
    void tr_use(void const* p)
    {
        auto it = live().find(p);
        if(it != live().end())
            tr_note(it->second);
        else
            sim::fail("lifetime", "an object is used that does not exist (destroyed or never constructed)");
    }
    size_t tr_count()
    {
        return live().size();
    }
    void tr_check_empty(char const* when)
    {
        if(!live().empty())
        {
            auto& x = live().begin()->second;
            int id = 1 << 30, kind = 0;
            for(auto& k : live())
                if(k.second.id < id)
                    id = k.second.id, kind = k.second.kind;
            (void) x;
            sim::fail("leak", "%zu objects are never destroyed (%s), e.g. the %s of %d", live().size(), when, trk[kind], id);
        }
    }
} // namespace M
