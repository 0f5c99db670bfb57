// Deterministic simulator: driver. One forked child per simulated run.
//   sim --list
//   sim --scenario S --seeds FIRST STRIDE --time SEC [--max-runs N] --out FILE --replay-out FILE
//   sim --replay FILE [--verbose]
//   sim --scenario S --one SEED [--verbose]
//   sim --scenario S --determinism FIRST STRIDE N        (each seed twice, hashes compared)
#include "rt_internal.h"

#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <sched.h>
#include <signal.h>
#include <spdlog/spdlog.h>
#include <stdlib.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <unordered_map>
#include <vector>
#include <sys/syscall.h>

using namespace sim;

extern "C" void sim_backtrace()
{
    void* p[64];
    int n = backtrace(p, 64);
    backtrace_symbols_fd(p, n, 2);
}

static double wall()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static RunResult* res;
static uint64_t opt_max_steps = 5000000;
static char const* opt_scenario = "";

static Scenario* find(char const* n)
{
    for(Scenario* s = scenarios; s; s = s->next)
        if(!strcmp(s->name, n))
            return s;
    fprintf(stderr, "no scenario %s\n", n);
    _exit(2);
}

static int run(RunSpec const& spec, Scenario* sc)
{
    res->verdict = V_NONE;
    res->cls[0] = res->msg[0] = res->sample[0] = 0;
    res->steps = res->switches = res->sim_ns = res->hash = res->sched_hash = 0;
    memset(res->faults, 0, sizeof res->faults);
    res->probes = 0;
    res->nontrivial = 0;
    res->n_choices = res->n_entries = res->entries_dropped = 0;
    pid_t pid = fork();
    if(pid < 0)
    {
        perror("fork");
        _exit(2);
    }
    if(pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        run_child(spec, res, sc->fn);
        _exit(90);
    }
    int st = 0;
    while(waitpid(pid, &st, 0) < 0 && errno == EINTR)
        ;
    if(res->verdict == V_NONE)
    {
        if(WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))
        {
            res->verdict = V_FAIL;
            snprintf(res->cls, sizeof res->cls, "hang");
            snprintf(res->msg, sizeof res->msg, "the run exceeded its processor-time limit (signal %d)", WTERMSIG(st));
        }
        else if(WIFSIGNALED(st))
        {
            res->verdict = V_FAIL;
            snprintf(res->cls, sizeof res->cls, "crash");
            snprintf(res->msg, sizeof res->msg, "the process died from signal %d", WTERMSIG(st));
        }
        else
        {
            res->verdict = V_CRASHED_SIM;
            snprintf(res->msg, sizeof res->msg, "simulator exit status %d", WEXITSTATUS(st));
        }
    }
    if(res->verdict == V_FAIL && !strcmp(res->cls, "sim-error"))
        res->verdict = V_CRASHED_SIM;
    return res->verdict;
}

struct Case
{
    uint64_t seed = 0;
    std::vector<uint32_t> choices;
    bool sched = false; // entries valid
    std::vector<Entry> entries;
    RunSpec spec() const
    {
        RunSpec s;
        s.seed = seed;
        s.max_steps = opt_max_steps;
        s.replay_choices = true;
        s.choices = choices.data();
        s.n_choices = choices.size();
        s.replay_sched = sched;
        s.entries = entries.data();
        s.n_entries = entries.size();
        return s;
    }
};
static Case capture(uint64_t seed)
{
    Case c;
    c.seed = seed;
    c.choices.assign(res->choices, res->choices + res->n_choices);
    c.sched = true;
    c.entries.assign(res->entries, res->entries + res->n_entries);
    return c;
}

static std::string json_escape(char const* s)
{
    std::string o;
    for(; *s; ++s)
    {
        if(*s == '"' || *s == '\\')
        {
            o += '\\';
            o += *s;
        }
        else if(*s == '\n')
            o += "\\n";
        else if((unsigned char) *s < 32)
            o += ' ';
        else
            o += *s;
    }
    return o;
}

static char const* fault_names[F_COUNT] = {"stalled thread", "spurious wake-up", "spurious compare-exchange failure", "binding call fails", "system memory allocation fails", "delayed completion", "dirty fresh memory (runs)", "immediate reuse of freed memory (runs)", "delayed store visibility", "late thread start", "thread creation fails"};

static void write_replay(char const* path, Scenario* sc, Case const& c, char const* cls, char const* msg, char const* sample, uint64_t hash)
{
    FILE* f = fopen(path, "w");
    if(!f)
        return;
    fprintf(f, "redgrapes-sim-replay 1\nscenario %s\nseed %lu\nmax_steps %lu\nclass %s\nhash %016lx\n", sc->name, c.seed, opt_max_steps, cls, hash);
    std::string m = json_escape(msg);
    fprintf(f, "message %s\n", m.c_str());
    m = json_escape(sample);
    fprintf(f, "case %s\n", m.c_str());
    fprintf(f, "choices %zu\n", c.choices.size());
    for(size_t i = 0; i < c.choices.size(); ++i)
        fprintf(f, "%u%c", c.choices[i], i + 1 == c.choices.size() ? '\n' : ' ');
    static char const* kn[] = {"?", "switch", "pick", "stall", "spurious", "fault", "signal"};
    fprintf(f, "schedule %zu\n", c.entries.size());
    for(auto const& e : c.entries)
        fprintf(f, "%lu %s %u\n", e.step, kn[e.kind], e.v);
    fclose(f);
}
static bool read_replay(char const* path, std::string& scen, Case& c, std::string& cls, uint64_t& hash)
{
    FILE* f = fopen(path, "r");
    if(!f)
        return false;
    char word[64];
    static char line[1 << 16];
    size_t n;
    while(fscanf(f, "%63s", word) == 1)
    {
        if(!strcmp(word, "scenario") && fscanf(f, "%63s", word) == 1)
            scen = word;
        else if(!strcmp(word, "seed"))
            (void) !fscanf(f, "%lu", &c.seed);
        else if(!strcmp(word, "max_steps"))
            (void) !fscanf(f, "%lu", &opt_max_steps);
        else if(!strcmp(word, "class") && fscanf(f, "%63s", word) == 1)
            cls = word;
        else if(!strcmp(word, "hash"))
            (void) !fscanf(f, "%lx", &hash);
        else if(!strcmp(word, "choices") && fscanf(f, "%zu", &n) == 1)
            for(size_t i = 0; i < n; ++i)
            {
                uint32_t v;
                if(fscanf(f, "%u", &v) == 1)
                    c.choices.push_back(v);
            }
        else if(!strcmp(word, "schedule") && fscanf(f, "%zu", &n) == 1)
        {
            c.sched = true;
            for(size_t i = 0; i < n; ++i)
            {
                Entry e{};
                if(fscanf(f, "%lu %63s %u", &e.step, word, &e.v) != 3)
                    break;
                e.kind = !strcmp(word, "switch") ? E_SWITCH : !strcmp(word, "pick") ? E_PICK : !strcmp(word, "stall") ? E_STALL : !strcmp(word, "spurious") ? E_SPURIOUS : !strcmp(word, "fault") ? E_FAULT : E_SIGNAL;
                c.entries.push_back(e);
            }
        }
        else
            (void) !fgets(line, sizeof line, f);
    }
    fclose(f);
    return true;
}

// does the case still fail in the same class?  refreshes it from what was recorded
static bool still_fails(Case& c, Scenario* sc, std::string const& cls)
{
    if(run(c.spec(), sc) != V_FAIL || cls != res->cls)
        return false;
    Case n = capture(c.seed);
    c = n;
    return true;
}

static void minimise(Case& best, Scenario* sc, std::string const& cls, double budget)
{
    double t0 = wall();
    auto left = [&] { return budget - (wall() - t0); };
    // 1. shrink the workload: shorten / zero / lower the choices, searching a few schedules for each candidate
    auto try_choices = [&](std::vector<uint32_t> const& ch, int tries)
    {
        {
            Case c = best;
            c.choices = ch;
            if(still_fails(c, sc, cls))
            {
                best = c;
                return true;
            }
        }
        for(int k = 0; k < tries && left() > budget * 0.4; ++k)
        {
            Case c;
            c.seed = best.seed + 1000003ull * (k + 1);
            c.choices = ch;
            c.sched = false;
            if(still_fails(c, sc, cls))
            {
                best = c;
                return true;
            }
        }
        return false;
    };
    bool progress = true;
    for(int round = 0; progress && round < 4 && left() > budget * 0.4; ++round)
    {
        progress = false;
        // the first choices select the strategy and fault mix; the schedule entries already fix their effect
        for(size_t blk = 64; blk >= 1 && left() > budget * 0.4; blk /= 4)
            for(size_t i = 0; i < best.choices.size() && left() > budget * 0.4; i += blk)
            {
                bool any = false;
                for(size_t k = i; k < i + blk && k < best.choices.size(); ++k)
                    any |= best.choices[k] != 0;
                if(!any)
                    continue;
                auto ch = best.choices;
                for(size_t k = i; k < i + blk && k < ch.size(); ++k)
                    ch[k] = 0;
                if(try_choices(ch, 4))
                    progress = true;
                else if(blk == 1 && best.choices[i] > 1)
                {
                    ch = best.choices;
                    ch[i] = ch[i] / 2;
                    if(try_choices(ch, 2))
                        progress = true;
                }
            }
    }
    // 2. shrink the schedule and fault trace: delta debugging over its entries
    {
        size_t n = 2;
        while(best.entries.size() >= 1 && left() > 0)
        {
            size_t sz = (best.entries.size() + n - 1) / n;
            bool red = false;
            for(size_t i = 0; i < best.entries.size() && left() > 0; i += sz)
            {
                Case c = best;
                c.entries.erase(c.entries.begin() + i, c.entries.begin() + std::min(i + sz, c.entries.size()));
                size_t before = best.entries.size();
                if(still_fails(c, sc, cls) && c.entries.size() < before)
                {
                    best = c;
                    red = true;
                    i -= std::min(i, sz);
                    if(i >= best.entries.size())
                        break;
                }
            }
            if(!red)
            {
                if(sz <= 1)
                    break;
                n = std::min(n * 2, best.entries.size());
            }
            else
                n = std::max<size_t>(2, n - 1);
        }
    }
}

// set by a harness that is compiled with all messages
extern "C" __attribute__((weak)) int sim_log_everything = 0;

int main(int argc, char** argv)
{
    if(!(personality(0xffffffff) & ADDR_NO_RANDOMIZE))
    {
        if(personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) >= 0 && (personality(0xffffffff) & ADDR_NO_RANDOMIZE))
        {
            execv("/proc/self/exe", argv);
        }
    }
    mem_init();
    rt_init();
    hw_init();
    // nothing is written, but everything that is logged is formatted
    spdlog::set_level(sim_log_everything ? spdlog::level::trace : spdlog::level::off);
    spdlog::default_logger()->sinks().clear();
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    res = (RunResult*) mmap(nullptr, sizeof(RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    setvbuf(stderr, nullptr, _IONBF, 0);

    std::string out, replay_out, replay_in, accept, sets_out;
    uint64_t first = 1, stride = 1, count = 0, max_runs = ~0ull, one = 0;
    bool have_one = false, verbose = false, determinism = false, list = false;
    double time_limit = 10, min_budget = 20;
    int cpu = -1;
    for(int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto next = [&] { return i + 1 < argc ? argv[++i] : (char*) "0"; };
        if(a == "--list")
            list = true;
        else if(a == "--scenario")
            opt_scenario = next();
        else if(a == "--seeds")
        {
            first = strtoull(next(), 0, 10);
            stride = strtoull(next(), 0, 10);
        }
        else if(a == "--time")
            time_limit = atof(next());
        else if(a == "--minimise")
            min_budget = atof(next());
        else if(a == "--max-runs")
            max_runs = strtoull(next(), 0, 10);
        else if(a == "--max-steps")
            opt_max_steps = strtoull(next(), 0, 10);
        else if(a == "--out")
            out = next();
        else if(a == "--replay-out")
            replay_out = next();
        else if(a == "--replay")
            replay_in = next();
        else if(a == "--one")
        {
            one = strtoull(next(), 0, 10);
            have_one = true;
        }
        else if(a == "--determinism")
        {
            determinism = true;
            first = strtoull(next(), 0, 10);
            stride = strtoull(next(), 0, 10);
            count = strtoull(next(), 0, 10);
        }
        else if(a == "--sets-out")
            sets_out = next();
        else if(a == "--accept")
            accept = std::string(",") + next() + ",";
        else if(a == "--verbose")
            verbose = true;
        else if(a == "--cpu")
            cpu = atoi(next());
    }
    {
        // all simulated threads of a process share one processor: only one of them ever runs
        cpu_set_t allowed, s;
        CPU_ZERO(&s);
        sched_getaffinity(0, sizeof allowed, &allowed);
        int n = CPU_COUNT(&allowed), want = cpu < 0 ? getpid() % n : cpu % n;
        for(int i = 0, k = 0; i < CPU_SETSIZE; ++i)
            if(CPU_ISSET(i, &allowed) && k++ == want)
                CPU_SET(i, &s);
        sched_setaffinity(0, sizeof s, &s);
    }
    if(list)
    {
        for(Scenario* s = scenarios; s; s = s->next)
            printf("%s\n", s->name);
        return 0;
    }
    if(!replay_in.empty())
    {
        Case c;
        std::string scen, cls;
        uint64_t hash = 0;
        if(!read_replay(replay_in.c_str(), scen, c, cls, hash))
            return 2;
        Scenario* sc = find(scen.c_str());
        RunSpec s = c.spec();
        s.verbose = verbose;
        run(s, sc);
        printf("verdict %d class %s hash %016lx steps %lu\n%s\ncase: %s\n", res->verdict, res->cls, res->hash, res->steps, res->msg, res->sample);
        if(res->verdict == V_FAIL && cls == res->cls && hash == res->hash)
        {
            printf("REPRODUCED\n");
            return 1;
        }
        printf("NOT REPRODUCED (expected class %s hash %016lx)\n", cls.c_str(), hash);
        return res->verdict == V_OK ? 0 : 3;
    }
    Scenario* sc = find(opt_scenario);
    if(have_one)
    {
        RunSpec s;
        s.seed = one;
        s.max_steps = opt_max_steps;
        s.verbose = verbose;
        int v = run(s, sc);
        printf("seed %lu verdict %d class %s hash %016lx steps %lu switches %lu entries %u choices %u\n%s\n%s\n", one, v, res->cls, res->hash, res->steps, res->switches, res->n_entries, res->n_choices, res->msg, res->sample);
        return v == V_FAIL ? 1 : 0;
    }
    if(determinism)
    {
        uint64_t bad = 0;
        for(uint64_t k = 0; k < count; ++k)
        {
            RunSpec s;
            s.seed = first + k * stride;
            s.max_steps = opt_max_steps;
            run(s, sc);
            uint64_t h = res->hash, n = res->steps;
            int v = res->verdict;
            Case c = capture(s.seed);
            run(s, sc);
            bool same = h == res->hash && n == res->steps && v == res->verdict;
            run(c.spec(), sc);
            bool rsame = h == res->hash && n == res->steps && v == res->verdict;
            printf("%lu %016lx %lu %d %s %s\n", s.seed, h, n, v, same ? "same" : "DIFFERENT", rsame ? "replay-same" : "REPLAY-DIFFERENT");
            bad += !same + !rsame;
        }
        return bad ? 1 : 0;
    }

    // ---- batch
    double t0 = wall();
    uint64_t covn = 0, errors = 0, irreproducible = 0;
    std::unordered_map<std::string, uint64_t> others;
    static uint64_t covm[COV_BITS / 64];
    auto count_cov = []
    {
        uint64_t n = 0;
        for(int i = 0; i < COV_BITS / 64; ++i)
            n += __builtin_popcountll(res->cov[i]);
        return n;
    };
    uint64_t runs = 0, ok = 0, discarded = 0, nontriv = 0, steps = 0, sim_ns = 0, switches = 0, faults[F_COUNT] = {}, probes = 0;
    uint64_t maxsteps = 0;
    uint64_t probe_counts[64] = {};
    std::unordered_set<uint64_t> scheds, distinct_nt;
    std::vector<std::string> samples;
    std::unordered_map<std::string, uint64_t> why;
    std::string vcls, vmsg, vsample, status = "ok";
    uint64_t vseed = 0, det_checked = 0;
    size_t m_entries = 0, m_choices = 0, o_entries = 0, o_choices = 0;
    for(uint64_t k = 0; k < max_runs && wall() - t0 < time_limit; ++k)
    {
        RunSpec s;
        s.seed = first + k * stride;
        s.max_steps = opt_max_steps;
        int v = run(s, sc);
        runs++;
        if(v == V_DISCARD)
        {
            discarded++;
            why[res->msg]++;
            continue;
        }
        if(v == V_CRASHED_SIM)
        {
            // not a run of the program at all
            errors++;
            why[std::string("simulator error: ") + res->msg]++;
            if(errors >= 20 && errors * 2 > runs)
            {
                status = "simulator error";
                vmsg = res->msg;
                vcls = res->cls;
                vseed = s.seed;
                break;
            }
            continue;
        }
        if(v == V_FAIL && !accept.empty() && accept.find("," + std::string(res->cls) + ",") == std::string::npos)
        {
            // breaks another property than the one that is checked
            others[res->cls]++;
            continue;
        }
        if(res->steps > maxsteps)
            maxsteps = res->steps;
        steps += res->steps;
        sim_ns += res->sim_ns;
        switches += res->switches;
        for(int i = 0; i < F_COUNT; ++i)
            faults[i] += res->faults[i];
        probes |= res->probes;
        for(int i = 0; i < 64; ++i)
            probe_counts[i] += res->probes >> i & 1;
        scheds.insert(res->sched_hash);
        if(res->nontrivial)
        {
            nontriv++;
            distinct_nt.insert(res->hash);
        }
        if(v == V_OK)
        {
            ok++;
            if(samples.size() < 3 && res->nontrivial && res->sample[0])
                samples.push_back(std::string("seed ") + std::to_string(s.seed) + ": " + res->sample);
            if(k % 64 == 0)
            {
                uint64_t h = res->hash;
                run(s, sc);
                det_checked++;
                if(h != res->hash)
                {
                    irreproducible++;
                    why["not repeatable, seed " + std::to_string(s.seed)]++;
                }
            }
            continue;
        }
        // violation: gate it, minimise it
        vseed = s.seed;
        vcls = res->cls;
        vmsg = res->msg;
        vsample = res->sample;
        uint64_t h = res->hash;
        Case c = capture(s.seed);
        if(vcls == "hang" && h == 0) // killed from outside: nothing recorded at the end
        {
        }
        run(s, sc);
        bool same = res->verdict == V_FAIL && vcls == res->cls && h == res->hash;
        if(same)
        {
            run(c.spec(), sc);
            same = res->verdict == V_FAIL && vcls == res->cls && h == res->hash;
        }
        if(!same)
        {
            // only what can be repeated exactly is reported
            irreproducible++;
            why["failure not repeatable: " + vcls + ", seed " + std::to_string(s.seed)]++;
            vcls = vmsg = vsample = "";
            vseed = 0;
            continue;
        }
        covn = count_cov();
        memcpy(covm, res->cov, sizeof covm);
        o_entries = c.entries.size();
        o_choices = c.choices.size();
        Case orig = c;
        minimise(c, sc, vcls, min_budget);
        run(c.spec(), sc);
        if(res->verdict != V_FAIL || vcls != res->cls)
        {
            c = orig;
            run(c.spec(), sc);
        }
        vmsg = res->msg;
        vsample = res->sample;
        m_entries = c.entries.size();
        m_choices = 0;
        for(auto x : c.choices)
            m_choices += x != 0;
        if(!replay_out.empty())
            write_replay(replay_out.c_str(), sc, c, vcls.c_str(), vmsg.c_str(), vsample.c_str(), res->hash);
        status = "violation";
        break;
    }
    double el = wall() - t0;
    if(!covn)
    {
        covn = count_cov();
        memcpy(covm, res->cov, sizeof covm);
    }
    if(!sets_out.empty())
    {
        // so that the union over several processes can be counted
        FILE* f = fopen(sets_out.c_str(), "wb");
        uint64_t n[2] = {distinct_nt.size(), scheds.size()};
        fwrite(covm, sizeof covm, 1, f);
        fwrite(n, sizeof n, 1, f);
        for(uint64_t h : distinct_nt)
            fwrite(&h, 8, 1, f);
        for(uint64_t h : scheds)
            fwrite(&h, 8, 1, f);
        fclose(f);
    }
        memcpy(covm, res->cov, sizeof covm);
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\"status\":\"%s\",\"runs\":%lu,\"ok\":%lu,\"discarded\":%lu,\"nontrivial\":%lu,\"distinct_nontrivial\":%zu,\"distinct_schedules\":%zu,\"steps\":%lu,\"max_steps\":%lu,\"switches\":%lu,\"sim_ns\":%lu,\"wall\":%.2f,\"cov_pairs\":%lu,\"determinism_checked\":%lu,", status.c_str(), runs, ok, discarded, nontriv, distinct_nt.size(), scheds.size(), steps, maxsteps, switches, sim_ns, el, covn, det_checked);
    fprintf(f, "\"faults\":{");
    for(int i = 0; i < F_COUNT; ++i)
        fprintf(f, "%s\"%s\":%lu", i ? "," : "", fault_names[i], faults[i]);
    fprintf(f, "},\"probes\":{");
    bool firstp = true;
    for(int i = 0; i < 64; ++i)
        if(probe_counts[i])
        {
            fprintf(f, "%s\"%d\":%lu", firstp ? "" : ",", i, probe_counts[i]);
            firstp = false;
        }
    fprintf(f, "},\"discard_reasons\":{");
    bool fw = true;
    for(auto& w : why)
    {
        fprintf(f, "%s\"%s\":%lu", fw ? "" : ",", json_escape(w.first.c_str()).c_str(), w.second);
        fw = false;
    }
    fprintf(f, "},\"simulator_errors\":%lu,\"irreproducible\":%lu,\"other_classes\":{", errors, irreproducible);
    fw = true;
    for(auto& w : others)
    {
        fprintf(f, "%s\"%s\":%lu", fw ? "" : ",", json_escape(w.first.c_str()).c_str(), w.second);
        fw = false;
    }
    fprintf(f, "},\"rule\":\"%s\",\"samples\":[", json_escape(sc->rule).c_str());
    for(size_t i = 0; i < samples.size(); ++i)
        fprintf(f, "%s\"%s\"", i ? "," : "", json_escape(samples[i].c_str()).c_str());
    fprintf(f, "],\"seed\":%lu,\"class\":\"%s\",\"message\":\"%s\",\"case\":\"%s\",\"entries\":[%zu,%zu],\"choices\":[%zu,%zu]}\n", vseed, json_escape(vcls.c_str()).c_str(), json_escape(vmsg.c_str()).c_str(), json_escape(vsample.c_str()).c_str(), o_entries, m_entries, o_choices, m_choices);
    if(f != stdout)
        fclose(f);
    return status == "ok" ? 0 : status == "violation" ? 1 : 3;
}
