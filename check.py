#!/usr/bin/env python3
"""Decide one property of redGrapes by deterministic simulation with fault injection.

  check.py ID [--tier quick|thorough]     build from /repo's working tree, search, report
  check.py --replay FILE [--verbose]      build what the replay file was found with, run it again
  check.py --determinism ID [N]           run N seeds twice and once from their recorded schedule, compare
  check.py --build                        build everything (used once after checkout)

Exit 0: the property held on everything explored.  Exit 1: VIOLATION line.  Anything else: no answer.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REDGRAPES_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
NCPU = len(os.sched_getaffinity(0))

# ---------------------------------------------------------------- what is built
COMMON = ['-std=c++17', '-g', '-fno-pie', '-DSPDLOG_FMT_EXTERNAL', '-DSPDLOG_COMPILED_LIB',
          # as with gcc, which the project is built with: producers of threads that have ended are used again
          '-DMOODYCAMEL_CPP11_THREAD_LOCAL_SUPPORTED']
SIMULATED = COMMON + ['-O1', '-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0', '-w',
                      '-DSPDLOG_ACTIVE_LEVEL=SPDLOG_LEVEL_OFF', '-include', ROOT + '/sim/config/weak_cas.hpp',
                      '-I' + ROOT + '/sim/config', '-I' + ROOT + '/sim/mock', '-I' + REPO,
                      '-I' + REPO + '/share/thirdParty/cameron314/concurrentqueue/include']
PLAIN = COMMON + ['-O2', '-w']
LINK = ['-no-pie', '-rdynamic', '-g', '-lboost_context', '-lspdlog', '-lfmt', '-lhwloc', '-lpthread', '-ldl',
        '-Wl,--wrap=_ZN9redGrapes6memory13BumpAllocator8allocateEm',
        '-Wl,--wrap=_ZN9redGrapes6memory13BumpAllocator10deallocateENS0_5BlockE']
VARIANTS = {
    # the sizes redGrapes ships with
    'default': [],
    # small pieces of the concurrent lists: their borders are met all the time
    'small': ['-DREDGRAPES_RUL_CHUNKSIZE=2', '-DREDGRAPES_EVENT_FOLLOWER_LIST_CHUNKSIZE=2'],
    # the optional wake-up of a second worker for every new task
    'next': ['-DREDGRAPES_EMPLACE_NOTIFY_NEXT=1', '-DREDGRAPES_RUL_CHUNKSIZE=3', '-DREDGRAPES_EVENT_FOLLOWER_LIST_CHUNKSIZE=4'],
    # everything is logged (into nothing), workers do not steal, assertions are compiled out
    'trace': ['-USPDLOG_ACTIVE_LEVEL', '-DSPDLOG_ACTIVE_LEVEL=SPDLOG_LEVEL_TRACE', '-DENABLE_WORKSTEALING=0', '-DNDEBUG',
              '-DREDGRAPES_RUL_CHUNKSIZE=2', '-DREDGRAPES_EVENT_FOLLOWER_LIST_CHUNKSIZE=2'],
    'small3': ['-DREDGRAPES_RUL_CHUNKSIZE=3', '-DREDGRAPES_EVENT_FOLLOWER_LIST_CHUNKSIZE=4'],
}
OPTIONAL = {'trace'}
# harness unit -> (source, extra flags)
UNITS = {
    'prog': ('sim/harness/prog.cpp', []),
    'mpi': ('sim/harness/mpi.cpp', []),
    'm01': ('sim/harness/micro.cpp', ['-DMICRO_C01']),
    'm12': ('sim/harness/micro.cpp', ['-DMICRO_C12']),
    'm13': ('sim/harness/micro.cpp', ['-DMICRO_C13']),
    'm14': ('sim/harness/micro.cpp', ['-DMICRO_C14']),
    'm15': ('sim/harness/micro.cpp', ['-DMICRO_C15']),
    'm16': ('sim/harness/micro.cpp', ['-DMICRO_C16']),
}
SLOW_TO_COMPILE = ['prog', 'm13', 'mpi', 'm12']
SCENARIO_UNIT = {'C01E': 'm01', 'C12': 'm12', 'C12W': 'm12', 'C13': 'm13', 'C14': 'm14', 'C15': 'm15', 'C15B': 'm15',
                 'C16': 'm16', 'C16L': 'm16', 'C18': 'mpi'}  # all others: prog
MAX_STEPS = {'C12P': 10000000, 'C16L': 10000000, 'C27D': 20000000, 'C21D': 20000000}

# ---------------------------------------------------------------- what decides which property
FATAL = ('use-after-free out-of-bounds crash os-double-free os-free-len os-bad-free livelock deadlock hang assert '
         'abort terminate lost')
ORDER = 'order-body order-child order-event overlap value'
RUNS = 'twice lost invented args'
FUT = 'future-early future-value'
HB = 'hb-order hb-future hb-barrier hb-event hb-lifetime'
RESUME = 'resume resume-early'
BAR = 'barrier-early'
LIFE = 'lifetime hb-lifetime leak'
ALL = None  # every class of the scenario belongs to the property
D, S, S3, N, T = 'default', 'small', 'small3', 'next', 'trace'
# property -> (jobs: (scenario, variant, weight), accepted classes)
CHECKS = {
    'C01': ([('C01', S, 4), ('C01', D, 1), ('C01E', S, 2), ('C01E', D, 1)], ' '.join([ORDER, RUNS, FUT, BAR, 'spurious', FATAL])),
    'C02': ([('C02', S, 5), ('C02', D, 2)], ' '.join([RUNS, RESUME, FATAL])),
    'C03': ([('C03', S, 5), ('C03', D, 2), ('C03', N, 1), ('C03', T, 1), ('C03W', S, 1)], ' '.join(['lost threads', RESUME, FATAL])),
    'C04': ([('C04', S, 5), ('C04', D, 2)], ' '.join([BAR, 'hb-barrier threads order-child order-event', RUNS, FATAL])),
    'C05': ([('C05', S, 5), ('C05', D, 2)], ' '.join([FUT, 'hb-future args', LIFE, RESUME, BAR, FATAL])),
    'C06': ([('C06', S, 5), ('C06', D, 2)], ' '.join([ORDER, RUNS, BAR, LIFE, 'context', FATAL])),
    'C07': ([('C07', S, 5), ('C07', D, 2)], ' '.join([ORDER, RUNS, BAR, RESUME, 'hb-event', LIFE, FATAL])),
    'C08': ([('C08', S, 5), ('C08', D, 2)], ' '.join([RESUME, RUNS, ORDER, FUT, 'context hb-event hb-future', LIFE, FATAL])),
    'C09': ([('C09', S, 5), ('C09', D, 2), ('C09R', S, 2)], ' '.join(['demote-accepted demote-refused', ORDER, RUNS, FUT, LIFE, FATAL])),
    'C10': ([('C10', S, 5), ('C10', D, 2)], ' '.join(['lost', FATAL])),
    'C11': ([('C11', S, 4), ('C11', D, 2), ('C11', S3, 1), ('C11', T, 1)], ' '.join([LIFE, 'args old-memory', FATAL])),
    'C12': ([('C12', D, 3), ('C12W', D, 1), ('C12P', S, 3)], ALL),
    'C13': ([('C13', D, 1)], ALL),
    'C14': ([('C14', D, 1)], ALL),
    'C15': ([('C15', D, 1), ('C15B', D, 2)], ALL),
    'C16': ([('C16', D, 3), ('C16L', D, 1), ('C16P', S, 4), ('C03W', S, 1)], ' '.join([RUNS, 'order-list not-linearizable unbounded push-failed', LIFE, FATAL])),
    'C17': ([('C17', S, 4), ('C17M', S, 4)], ALL),
    'C18': ([('C18', S, 1)], ALL),
    'C19': ([('C19', S, 5), ('C19', D, 2)], ' '.join([HB, 'value', FATAL])),
    'C20': ([('C20', S, 5), ('C20', D, 2)], ' '.join([ORDER, RUNS, BAR, FUT, FATAL])),
    'C21': ([('C21', S, 4), ('C21', D, 2), ('C21M', S, 2), ('C21D', S, 1)], ' '.join(['context invented order-child', FATAL])),
    'C22': ([('C22', S, 5), ('C22', D, 2), ('C03W', S, 1)], ALL),
    'C23': ([('C23', S, 5), ('C23', D, 2)], ALL),
    'C24': ([('C24', S, 5), ('C24', D, 2)], ' '.join([ORDER, RUNS, FUT, 'demote-accepted demote-refused', FATAL])),
    'C25': ([('C25', S, 1)], ' '.join(['guard guard-refused', ORDER, RUNS, FATAL])),
    'C27': ([('C27', S, 5), ('C27', D, 2), ('C27D', S, 1)], ' '.join(['child-accepted demote-accepted demote-refused', ORDER, RUNS, FATAL])),
}
REAL = ('all of redGrapes/ except dispatch/cuda and dispatch/cupla (compiled from the working tree with clang, '
        'thread-sanitizer instrumentation bound to the simulator), moodycamel::ConcurrentQueue, Boost.Context stacks, '
        'libstdc++ containers, std::thread/mutex/condition_variable/shared_ptr')
STUB = ('pthread threads, mutexes, condition variables, sleeping and clocks; the memory ordering of atomics; malloc; '
        'hwloc topology, binding and memory calls; logging switched off')
STUB_MPI = '; the MPI library (sim/mock/mpi.h): requests complete when, in which batches and in which order the simulator chooses'


class Fail(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


_files = {}


def file_hash(p):
    if p not in _files:
        try:
            with open(p, 'rb') as f:
                _files[p] = sha(f.read())
        except OSError:
            _files[p] = 'none'
    return _files[p]


def deps_of(dfile):
    with open(dfile) as f:
        t = f.read().replace('\\\n', ' ')
    return [d for d in t.split(':', 1)[1].split() if not d.startswith(('/usr/', '/lib/'))]


def compile_one(src, obj, flags):
    """compile unless the object is up to date by the contents of everything it includes"""
    keyf, depf = obj + '.key', obj + '.d'
    base = sha(' '.join(flags), src)
    try:
        with open(keyf) as f:
            old = f.read()
        if os.path.exists(obj) and old == sha(base, *[d + file_hash(d) for d in deps_of(depf)]):
            return old, None
    except OSError:
        pass
    for attempt in range(3):
        r = subprocess.run(['clang++'] + flags + ['-MD', '-MF', depf, '-c', src, '-o', obj + '.tmp'], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if 'error:' in r.stdout or r.returncode == 0:
            break  # otherwise the compiler itself was ended
    if r.returncode:
        return None, r.stdout or 'the compiler ended with %d' % r.returncode
    os.rename(obj + '.tmp', obj)
    key = sha(base, *[d + file_hash(d) for d in deps_of(depf)])
    with open(keyf, 'w') as f:
        f.write(key)
    return key, None


def repo_sources():
    r = []
    for d, _, fs in os.walk(REPO + '/redGrapes'):
        if '/cuda' in d or '/cupla' in d:
            continue
        r += [os.path.join(d, f) for f in fs if f.endswith('.cpp')]
    return sorted(r)


def build(wanted):
    """wanted: set of (variant, frozenset of units); returns {(variant, units): (binary, missing units)}"""
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + '/lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        jobs = {}
        for variant, units in wanted:
            vd = BUILD + '/obj/' + variant
            os.makedirs(vd, exist_ok=True)
            for u in units:
                jobs[vd + '/' + u + '.o'] = (ROOT + '/' + UNITS[u][0], SIMULATED + VARIANTS[variant] + UNITS[u][1])
            for s in repo_sources():
                jobs[vd + '/' + os.path.relpath(s, REPO).replace('/', '_') + '.o'] = (s, SIMULATED + VARIANTS[variant])
        os.makedirs(BUILD + '/obj/rt', exist_ok=True)
        rt = []
        for f in ('rt', 'mem', 'driver', 'harness/model'):
            o = BUILD + '/obj/rt/' + os.path.basename(f) + '.o'
            rt.append(o)
            jobs[o] = (ROOT + '/sim/' + f + '.cpp', PLAIN)

        def prio(o):
            b = os.path.basename(o)[:-2]
            return SLOW_TO_COMPILE.index(b) if b in SLOW_TO_COMPILE else 50 + (b.startswith('redGrapes_'))

        keys, errs = {}, {}
        with cf.ThreadPoolExecutor(NCPU) as ex:
            fs = {ex.submit(compile_one, jobs[o][0], o, jobs[o][1]): o for o in sorted(jobs, key=prio)}
            for f in cf.as_completed(fs):
                o = fs[f]
                keys[o], errs[o] = f.result()
        # a way to build redGrapes that nothing tests may be broken without harm
        broken = {v for v, _ in wanted if v in OPTIONAL and any(errs[o] for o in jobs if o.startswith(BUILD + '/obj/' + v + '/'))}
        unit_objs = {BUILD + '/obj/' + v + '/' + u + '.o' for v, us in wanted for u in us}
        for o in jobs:
            if errs[o] and o not in unit_objs and o.split('/')[-2] not in broken:
                raise Fail('cannot compile %s:\n%s' % (jobs[o][0], errs[o][-3000:]))
        res = {}
        for variant, units in wanted:
            vd = BUILD + '/obj/' + variant
            if variant in broken:
                print('note: variant %s does not compile and is left out' % variant)
                res[(variant, units)] = (None, list(units))
                continue
            missing = [u for u in units if errs[vd + '/' + u + '.o']]
            if len(missing) == len(units):
                raise Fail('cannot compile the harness %s:\n%s' % (missing, errs[vd + '/' + missing[0] + '.o'][-3000:]))
            objs = rt + [vd + '/' + u + '.o' for u in sorted(units) if u not in missing]
            objs += [o for o in sorted(jobs) if o.startswith(vd + '/redGrapes_')]
            h = sha(*[o + keys[o] for o in objs], ' '.join(LINK))
            binary = BUILD + '/bin/sim-' + variant + '-' + h
            if not os.path.exists(binary):
                os.makedirs(BUILD + '/bin', exist_ok=True)
                r = subprocess.run(['clang++'] + objs + ['-o', binary + '.tmp'] + LINK, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    raise Fail('cannot link:\n' + r.stdout[-3000:])
                os.rename(binary + '.tmp', binary)
            os.utime(binary)
            for u in missing:
                print('note: harness %s does not compile against this tree and is left out:\n%s' % (u, errs[vd + '/' + u + '.o'][:600]))
            res[(variant, units)] = (binary, missing)
        # keep the disk small
        old = sorted((os.path.getmtime(BUILD + '/bin/' + f), f) for f in os.listdir(BUILD + '/bin'))
        for _, f in old[:-40]:
            os.remove(BUILD + '/bin/' + f)
        return res


def unit_of(scenario):
    return SCENARIO_UNIT.get(scenario, 'prog')


def needed(jobs):
    w = {}
    for s, v, _ in jobs:
        w.setdefault(v, set()).add(unit_of(s))
    return {(v, frozenset(us)) for v, us in w.items()}


def assign(jobs, n):
    """n processes over the jobs by weight, each job at least one if possible"""
    tot = sum(w for _, _, w in jobs)
    cnt = [max(1, int(n * w / tot)) for _, _, w in jobs]
    i = 0
    while sum(cnt) < n:
        k = max(range(len(jobs)), key=lambda j: jobs[j][2] / tot - cnt[j] / n)
        cnt[k] += 1
        i += 1
    return cnt


def known_findings(pid):
    r = []
    try:
        with open(ROOT + '/known_findings.txt') as f:
            for l in f:
                m = re.match(r'known: property=(\S+) class=(\S+) match=/(.*)/ (.*)', l)
                if m and m.group(1) == pid:
                    r.append((m.group(2), m.group(3), m.group(4)))
    except OSError:
        pass
    return r


def check(pid, tier, seed):
    t0 = time.time()
    jobs, accept = CHECKS[pid]
    search = float(os.environ.get('VERIF_SEARCH_S', 40 if tier == 'quick' else 760))
    mini = 15 if tier == 'quick' else 60
    bins = build(needed(jobs))
    t_build = time.time() - t0
    binary = {}
    for (v, us), (b, missing) in bins.items():
        for u in us:
            if u not in missing:
                binary[(v, u)] = b
    jobs = [j for j in jobs if (j[1], unit_of(j[0])) in binary]
    cnt = assign(jobs, max(NCPU, len(jobs)))
    work = BUILD + '/work/%s-%d' % (pid, os.getpid())
    os.makedirs(work, exist_ok=True)
    os.makedirs(ROOT + '/replays', exist_ok=True)
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    procs = []
    for (s, v, _), n in zip(jobs, cnt):
        base = int(sha(seed, s, v), 16) % 10**12 * 1000000 + 1
        for k in range(n):
            w = '%s/%d' % (work, len(procs))
            cmd = [binary[(v, unit_of(s))], '--scenario', s, '--seeds', str(base + k), str(n), '--time', str(search),
                   '--minimise', str(mini), '--cpu', str(len(procs)), '--out', w + '.json', '--replay-out', w + '.replay',
                   '--sets-out', w + '.sets']
            if accept is not None:
                cmd += ['--accept', ','.join(accept.split())]
            if s in MAX_STEPS:
                cmd += ['--max-steps', str(MAX_STEPS[s])]
            p = subprocess.Popen(cmd, stdout=open(w + '.log', 'w'), stderr=subprocess.STDOUT)
            procs.append(dict(p=p, w=w, s=s, v=v, bin=cmd[0]))
    deadline = time.time() + search + mini + 120
    violation = None
    problems = []
    known = known_findings(pid)
    seen_known = set()
    while any(q['p'].poll() is None for q in procs) and time.time() < deadline:
        time.sleep(0.1)
        for q in procs:
            rc = q['p'].poll()
            if rc is None or q.get('done'):
                continue
            q['done'] = True
            if rc == 1 and not violation:
                d = json.load(open(q['w'] + '.json'))
                k = next((k for k in known if k[0] == d['class'] and re.search(k[1], d['message'])), None)
                if k:
                    seen_known.add(k)
                    continue
                r = subprocess.run([q['bin'], '--replay', q['w'] + '.replay'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   text=True, errors='replace')
                if r.returncode == 1 and 'REPRODUCED' in r.stdout.split('\n'):
                    violation = (q, d)
                else:
                    problems.append('a violation of %s (seed %s, class %s) could not be reproduced by its replay file'
                                    % (q['s'], d['seed'], d['class']))
        if violation:
            break
    for q in procs:
        if q['p'].poll() is None:
            if not violation:
                problems.append('%s did not end in time' % q['s'])
            q['p'].kill()
            q['p'].wait()
    # ------------------------------------------------ evidence
    tot = {}
    faults, probes, why, per, other = {}, {}, {}, {}, {}
    samples, rules = [], []
    nt, sched = set(), set()
    covs = {}
    sim_wall = 0
    for q in procs:
        try:
            d = json.load(open(q['w'] + '.json'))
        except (OSError, ValueError):
            if not violation:
                problems.append('no result of %s: %s' % (q['s'], open(q['w'] + '.log', errors='replace').read()[-500:]))
            continue
        if d['status'] == 'simulator error':
            problems.append('%s: %s %s' % (q['s'], d['class'], d['message']))
        for k in ('runs', 'ok', 'discarded', 'nontrivial', 'steps', 'switches', 'sim_ns', 'determinism_checked', 'irreproducible',
                  'simulator_errors'):
            tot[k] = tot.get(k, 0) + d[k]
        tot['max_steps'] = max(tot.get('max_steps', 0), d['max_steps'])
        sim_wall += d['wall']
        for name, agg in (('faults', faults), ('probes', probes), ('discard_reasons', why), ('other_classes', other)):
            for k, n in d[name].items():
                agg[k] = agg.get(k, 0) + n
        e = per.setdefault('%s/%s' % (q['s'], q['v']), dict(processes=0, runs=0))
        e['processes'] += 1
        e['runs'] += d['runs']
        if len(samples) < 8:
            samples += ['%s (%s sizes) %s' % (q['s'], q['v'], x) for x in d['samples'][:2]]
        if d['rule'] not in rules:
            rules.append(d['rule'])
        try:
            raw = open(q['w'] + '.sets', 'rb').read()
            nb = (1 << 18) // 8
            a, b = struct.unpack('<QQ', raw[nb:nb + 16])
            hs = struct.unpack('<%dQ' % (a + b), raw[nb + 16:nb + 16 + 8 * (a + b)])
            # the same hash in two scenarios is a coincidence
            nt.update((q['s'], q['v'], h) for h in hs[:a])
            sched.update((q['s'], q['v'], h) for h in hs[a:])
            covs[q['bin']] = covs.get(q['bin'], 0) | int.from_bytes(raw[:nb], 'little')
        except (OSError, struct.error):
            pass
    wall = time.time() - t0
    evaluations = tot.get('runs', 0) - tot.get('discarded', 0) - tot.get('simulator_errors', 0)
    cov = dict(
        evaluations=evaluations,
        distinct_nontrivial=len(nt),
        rule='Each case is one seed: it fixes the generated program, the configuration, every scheduling decision and every fault. '
             'A case is non-trivial if ' + '; or '.join(rules) + '. Two are distinct if the hashes over all their events (choices, '
             'scheduling decisions, faults, observations) differ.',
        samples=samples or ['none'],
        cases_discarded=tot.get('discarded', 0),
        discard_reasons=why,
        runs_per_hour=round(evaluations / max(sim_wall / max(1, len(procs)), 0.01) * 3600),
        seeds='%d consecutive seeds per scenario and variant, derived from VERIF_SEED=%d' % (tot.get('runs', 0), seed),
        scheduling_points=tot.get('steps', 0),
        longest_run_in_points=tot.get('max_steps', 0),
        context_switches=tot.get('switches', 0),
        simulated_seconds=round(tot.get('sim_ns', 0) / 1e9, 3),
        faults_injected=faults,
        distinct_schedules=len(sched),
        distinct_preemption_pairs=sum(bin(c).count('1') for c in covs.values()),
        preemption_pair_meaning='distinct pairs (code address where a thread was switched away, code address where the next one continued), 18 bit hash',
        rare_events=probes,
        runs_repeated_to_check_determinism=tot.get('determinism_checked', 0),
        runs_not_repeatable=tot.get('irreproducible', 0),
        simulator_errors=tot.get('simulator_errors', 0),
        violations_of_other_properties_seen=other,
        scenarios=per,
        real_components=REAL,
        stubbed_components=STUB + (STUB_MPI if any(unit_of(j[0]) == 'mpi' for j in jobs) else ''),
        build_seconds=round(t_build, 1),
    )
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=['interleavings are sequentially consistent except for delayed visibility of relaxed and release stores',
                           'scheduling points are the instrumented memory accesses and synchronisation calls of redGrapes and the harness'],
              wall_s=round(wall, 2), violations=1 if violation else 0)
    with open(ROOT + '/evidence/%s.json' % pid, 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    rc = 0
    if violation:
        q, d = violation
        path = ROOT + '/replays/%s-%s-%s.replay' % (pid, q['s'], d['seed'])
        with open(q['w'] + '.replay') as f:
            t = f.read()
        with open(path, 'w') as f:
            f.write(t.replace('\n', '\nproperty %s\nvariant %s\n' % (pid, q['v']), 1))
        print('%s: %s' % (d['class'], d['message']))
        print('case: %s' % d['case'])
        print('seed %s; schedule and fault entries %d, minimised to %d; choices %d, minimised to %d that are not 0'
              % (d['seed'], d['entries'][0], d['entries'][1], d['choices'][0], d['choices'][1]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    elif evaluations == 0 or problems:
        for p in problems:
            print('problem: ' + p)
        if evaluations == 0 or any('did not end' in p or 'no result' in p or 'reproduced' in p for p in problems):
            rc = 2
    print('%s %s: %d runs, %d distinct non-trivial, %d schedules, %.1f s (build %.1f s)%s'
          % (pid, tier, evaluations, len(nt), len(sched), wall, t_build, '' if rc else ', property held'))
    shutil.rmtree(work, ignore_errors=True)
    return rc


def main():
    a = sys.argv[1:]
    if not a or a[0] in ('-h', '--help'):
        print(__doc__)
        return 2
    try:
        if a[0] == '--build':
            w = {}
            for jobs, _ in CHECKS.values():
                for v, us in needed(jobs):
                    w.setdefault(v, set()).update(us)
            if len(a) > 1:
                w = {a[1]: w[a[1]]}
            for (v, us), (b, m) in build({(v, frozenset(us)) for v, us in w.items()}).items():
                print(v, b)
            return 0
        if a[0] == '--replay':
            t = open(a[1]).read()
            s = re.search(r'^scenario (\S+)', t, re.M).group(1)
            m = re.search(r'^variant (\S+)', t, re.M)
            pid = re.search(r'^property (\S+)', t, re.M)
            w = {x for x in needed(CHECKS[pid.group(1)][0]) if x[0] == m.group(1)} if pid and m else {('small', frozenset([unit_of(s)]))}
            (b, _), = build(w).values()
            return subprocess.run([b, '--replay'] + a[1:]).returncode
        if a[0] == '--determinism':
            pid, n = a[1], a[2] if len(a) > 2 else '200'
            rc = 0
            jobs = CHECKS[pid][0]
            bins = build(needed(jobs))
            for s, v, _ in jobs:
                b = [b for (vv, us), (b, _) in bins.items() if vv == v and unit_of(s) in us][0]
                r = subprocess.run([b, '--scenario', s, '--determinism', '1', '1', n], stdout=subprocess.PIPE, text=True)
                bad = [l for l in r.stdout.split('\n') if 'DIFFERENT' in l]
                print(s, v, n, 'seeds, differences:', len(bad), bad[:3])
                rc |= bool(bad)
            return rc
        pid = a[0]
        tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
        return check(pid, tier, int(os.environ.get('VERIF_SEED', '1')))
    except Fail as e:
        print('check: ' + str(e))
        return 2


sys.exit(main())
