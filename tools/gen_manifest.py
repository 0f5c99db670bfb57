#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'deterministic simulation with fault injection: seeded search over schedules, generated programs and faults, checked against '
ORACLE = {
 'C01': 'a sequential reference execution and pairwise order/overlap invariants; event graphs driven directly',
 'C02': 'an exactly-once ledger of task executions',
 'C03': 'bounded progress once faults stop (deadlock and livelock detection)',
 'C04': 'the set of unfinished descendants at each return of barrier/finalize',
 'C05': 'the results and completion times of the reference model',
 'C06': 'the nesting tree of the reference model',
 'C07': 'the event ledger of the reference model',
 'C08': 'a ledger of waits and resumes with canaries on the waiting stacks',
 'C09': 'the time-varying access sets of the reference model',
 'C10': 'rendezvous programs that only end if no superfluous order exists',
 'C11': 'lifetime tracking of every closure, argument, result and cell plus quarantine of all released memory',
 'C12': 'an interval map of live blocks, a model of the system memory and bounds on memory held over long runs',
 'C13': 'an interval history of pushes, removals and visits',
 'C14': 'a notification ledger',
 'C15': 'mutual exclusion and linearizability against a sequential bit set',
 'C16': 'per-producer order, exactly-once and emptiness of the recorded history',
 'C17': 'the expected sub-scheduler of each task plus the whole program oracle',
 'C18': 'a simulated message layer that knows what each request must return',
 'C19': 'vector clocks of the library\'s own synchronisation',
 'C20': 'pairwise order consistency over all shared resources',
 'C21': 'the expected context at sampled points of every task',
 'C22': 'the program oracle over several rounds, thread count and system memory',
 'C24': 'a second definition of conflict and coverage in the reference model: order, overlap, superfluous order and accepted changes of generated programs',
 'C25': 'the areas of the reference model, probed through the guards inside of simulated tasks',
 'C27': 'coverage of access lists in the reference model, with children that must be refused',
 'C23': 'the program oracle with refused calls: reported, rolled back, rest unaffected',
}
checks = []
for p in sorted(ORACLE):
    checks.append(dict(
        property=p,
        quick_cmd='python3 check.py %s --tier quick' % p,
        thorough_cmd='python3 check.py %s --tier thorough' % p,
        evidence_file='evidence/%s.json' % p,
        technique=T + ORACLE[p],
        level='exploration',
        level_note='Real redGrapes code of the working tree runs under a simulator that owns every thread switch, clock, wake-up, weak compare-exchange, '
                   'memory and binding call; each seed is one exactly repeatable execution. Holds for everything explored, no more. '
                   'Trusts the simulator (sim/), the oracle (sim/harness/) and clang\'s instrumentation; sequentially consistent interleavings plus delayed stores.'))
m = dict(version=1, setup_cmd='python3 check.py --build', checks=checks,
         hooks=dict(guard='REDGRAPES_CONDVAR_TIMEOUT, REDGRAPES_ALLOC_CHUNKSIZE, REDGRAPES_RUL_CHUNKSIZE, REDGRAPES_EVENT_FOLLOWER_LIST_CHUNKSIZE (existing configuration macros; no hook was added)',
                    enable='check.py compiles /repo with -fsanitize=thread and links the simulator instead of the thread sanitizer runtime; the macros are set in sim/config/redGrapes_config.hpp and on the command line',
                    source_commits=[]),
         not_applicable=[
           dict(property='C26', reason='dispatch/cuda and dispatch/cupla do not compile at this commit (they call task->run() on a reference and use members of Task that no longer exist) and no accelerator or its headers are installed; there is no running code to simulate.')],
         notes='See DESIGN.md. One command per property; VERIF_SEED selects the seeds, VERIF_SEARCH_S overrides the search time. Replay: python3 check.py --replay FILE.')
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
