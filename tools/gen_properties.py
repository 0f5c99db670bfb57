#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)."""
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=observe or [],state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],hook_needed=None)))
R='redGrapes/'
SCHED='every thread interleaving of the creating thread and 1..5 workers, stalls, spurious wake-ups and spurious CAS failures included'
prop('C01','Conflicting tasks run in submission order and never overlap',
 'Of two tasks created in the same task space whose declared accesses to a shared resource conflict (one writes, or atomic operations of different kinds, on overlapping areas), the one created first has finished before the other starts. Hence any program of tasks produces exactly the values its sequential execution in creation order would produce, and it always runs to completion.',
 ['programs','schedules','inputs'],'all task programs over IO- and field-resources, all access modes and areas, '+SCHED,
 'The random-graph test samples one fixed program under whatever schedule the OS happens to give; order bugs need a worker to initialise, finish or remove a task in a window of a few instructions.',
 [R+'task/property/graph.cpp',R+'resource/resource_user.cpp',R+'task/task_space.cpp',R+'scheduler/event.cpp',R+'util/chunked_list.hpp',R+'resource/access/io.hpp',R+'resource/access/combine.hpp'],
 [('backward scan of the resource user list under the list lock',R+'task/property/graph.cpp init_graph'),('event state counter and follower notification',R+'scheduler/event.cpp notify'),('removal from user list only after the post event',R+'task/property/graph.cpp delete_from_resources')],
 ['start and end of every task body','values read and written by task bodies'],
 [('users','tasks using a resource, in creation order',R+'resource/resource.hpp'),('state','number of incoming edges of an event',R+'scheduler/event.hpp')])
prop('C02','Every task body runs exactly once',
 'Each task that was submitted, explicitly or by dropping its builder, has its function invoked exactly once with the arguments it was created with, and by the time the program is finalized none was lost, run twice or run concurrently with itself. This holds also for tasks that move between workers by stealing or that pause and resume.',
 ['programs','schedules'],'all task programs and '+SCHED,
 'A double activation or a lost task needs two threads to notify, steal or emplace the same task at the same moment; the tests only count results of one schedule.',
 [R+'scheduler/event.cpp',R+'scheduler/default_scheduler.cpp',R+'dispatch/thread/worker.cpp',R+'dispatch/thread/execute.cpp',R+'task/queue.hpp'],
 [('claimed flag and the 2->1 transition activate a task once',R+'scheduler/event.cpp notify'),('queues hand an element to one consumer',R+'task/queue.hpp'),('stealing',R+'scheduler/default_scheduler.cpp')],
 ['invocation counter per task'])
prop('C03','The system always makes progress: no lost wake-up, no deadlock',
 'Whenever submitted work exists that can run, some worker eventually runs it, and once all work is done every waiting thread is released. So after faults and stalls stop, every program whose own dependencies are acyclic terminates: no thread sleeps forever and no task remains queued.',
 ['programs','schedules','fault_sequences','configurations'],'all task programs, 1..72 workers on 1..4 processing units, busy-wait limits from 0 upward, '+SCHED,
 'Lost wake-ups sit in windows between a worker deciding to sleep and another thread handing it work; with the default busy-wait of two million iterations the tests practically never sleep at all.',
 [R+'dispatch/thread/worker.cpp',R+'dispatch/thread/worker_pool.cpp',R+'scheduler/default_scheduler.cpp',R+'sync/cv.cpp',R+'util/bitfield.hpp',R+'scheduler/event.cpp'],
 [('worker state published before waiting, queue re-checked after',R+'dispatch/thread/worker.cpp work_loop'),('wake after enqueue',R+'dispatch/thread/worker.hpp emplace_task'),('wake_all when the last task is freed',R+'task/task_space.cpp free_task')],
 ['all threads blocked while work is outstanding','no task finishes within the step budget under a fair schedule'])
prop('C04','barrier() and finalize() wait for every task and descendant',
 'When barrier() or finalize() returns to the main thread, every task created before the call, including all descendants those tasks created at any depth, has finished, and everything those tasks wrote is visible to the caller. Both calls do return once that is the case, also while the caller still holds futures it has not read.',
 ['programs','schedules'],'all task programs with barriers at arbitrary points, nested tasks, pending futures, '+SCHED,
 'Returning early needs the counter to touch zero while a child or a paused task is still alive, which depends on the order in which a worker frees the parent and submits the child.',
 [R+'redGrapes.cpp',R+'task/task_space.cpp',R+'scheduler/event.cpp',R+'task/property/graph.cpp'],
 [('task counter of the root space',R+'task/task_space.hpp task_count'),('wake of the main thread',R+'task/task_space.cpp free_task')],
 ['task states when barrier returns'])
prop('C05','A future delivers its task\'s result exactly, once it exists',
 'get() on the future returned for a task returns exactly the value its function returned, with everything the task wrote before visible, and returns only after the function has returned; is_ready() is never true before that and stays true afterwards. A future may be moved, read late or dropped unread at any moment, relative to the task\'s execution, without affecting any result or blocking the program.',
 ['programs','schedules'],'all result types used, futures read from main and from tasks, dropped or moved at any point, '+SCHED,
 'Tests read futures from the main thread in one order; the races are between result notification, task removal and the reader on another thread.',
 [R+'task/future.hpp',R+'task/task.hpp',R+'scheduler/event.cpp',R+'redGrapes.cpp'],
 [('result-set and result-get events',R+'task/task.hpp run'),('removal countdown keeps the task until both sides are done',R+'scheduler/event.cpp notify')],
 ['value returned by get()','is_ready() over time'])
prop('C06','A task counts as finished only after all its descendants finished',
 'A task that creates child tasks is considered finished only when its own function and all its children, recursively, have finished: no task that depends on it, in any space, starts before that, and its task object stays alive until then. Children obey the ordering rules among themselves while running concurrently with unrelated work.',
 ['programs','schedules'],'all trees of nested tasks up to depth 4, children waiting or not, '+SCHED,
 'The parent must reach its end while a child has been submitted but not yet picked up; the existing nesting test always waits on its child inside the parent.',
 [R+'task/task_space.cpp',R+'task/property/graph.cpp',R+'scheduler/event.cpp',R+'redGrapes.cpp'],
 [('edge from the post event of a child to the post event of its parent',R+'task/property/graph.cpp'),('child scan stops at the parent entry',R+'task/property/graph.cpp init_graph')],
 ['start of a successor versus end of descendants of its predecessor'])
prop('C07','A task with external events stays unfinished until all of them fire',
 'If a running task creates external events, the task is finished, its dependents start and barriers release only after every one of those events has been notified, whichever thread (another task, main or an application thread) notifies it and however early or late that happens. Notifying is never lost: once all are notified and the function returned, the dependents do run.',
 ['programs','schedules','fault_sequences'],'any number of events per task, delivered from tasks, main and foreign threads, before or after the task body ends, delayed, batched and reordered, '+SCHED,
 'No test uses create_event; the interesting orders race the notification against the end of the body and against the dependents being attached.',
 [R+'redGrapes.cpp',R+'task/property/graph.cpp',R+'scheduler/event.cpp',R+'scheduler/default_scheduler.cpp'],
 [('external event holds an edge to the post event',R+'task/property/graph.cpp make_event'),('notify from arbitrary threads',R+'scheduler/event.cpp notify')],
 ['start of dependents versus notification of events'])
prop('C08','A yielding task resumes exactly once, after its event, with its state',
 'A task with stack switching that waits for an event (or another task\'s future) continues exactly once and only after that event has been reached, possibly on a different worker, with its local variables, its identity as current task and its position in the program unchanged. While it waits its worker is free to run other tasks, so a program in which the awaited event depends on other tasks still completes even with a single worker. A task without stack switching that waits keeps its worker until then and likewise goes on once.',
 ['programs','schedules'],'all programs of yielding tasks, any number of yields per task, event reached before, during or after the switch, '+SCHED,
 'The race window between publishing the continuation and the event firing is a few instructions; one test yields once.',
 [R+'task/task_base.hpp',R+'dispatch/thread/execute.cpp',R+'task/property/graph.hpp',R+'redGrapes.cpp',R+'scheduler/event.cpp'],
 [('pre event re-armed as follower of the awaited event',R+'task/property/graph.hpp sg_pause'),('continuations resume/yield',R+'task/task_base.hpp'),('execute_task loop',R+'dispatch/thread/execute.cpp')],
 ['resume count and stack cookies per yield'])
prop('C09','Access demotion releases exactly what was given up',
 'After a running task reduces its declared accesses with update_properties, tasks that only conflicted with the part given up may start before it ends, tasks that still conflict start only after it ends, and all other ordering stays as declared. A patch that would extend the accesses beyond the declared ones is rejected with an exception; a permitted one is not.',
 ['programs','schedules','inputs'],'all sequences of demotions (write to read, removal, several resources), successors attached before, during or after the update, '+SCHED,
 'No passing test calls update_properties; the follower list is edited while other workers append to it.',
 [R+'task/property/resource.hpp',R+'task/property/graph.cpp',R+'resource/resource_user.cpp',R+'util/chunked_list.hpp',R+'redGrapes.cpp'],
 [('subset check on the patched access list',R+'task/property/resource.hpp apply_patch'),('re-evaluation of outgoing edges',R+'task/property/graph.cpp update_graph')],
 ['start of successors relative to demotion and end','exception or not'])
prop('C10','Tasks that do not conflict never wait for each other',
 'Tasks of the same space that share no conflicting access (different resources, both reading, same atomic operation, disjoint areas) are independent: each can start and finish while the other is still unfinished, even if one waits inside for the other. No ordering is added that the declared accesses and nesting do not require.',
 ['programs','schedules','inputs'],'all pairs of non-conflicting accesses embedded in larger programs, one of the two paused until the other has finished, '+SCHED,
 'A false dependency only costs time in the tests; only a program where one task waits for an unrelated one turns it into a failure.',
 [R+'task/property/graph.cpp',R+'resource/resource_user.cpp',R+'resource/access/io.hpp',R+'resource/access/area.hpp',R+'resource/access/combine.hpp',R+'resource/resource.hpp'],
 [('pairwise access check before adding an edge',R+'resource/resource_user.cpp is_serial')],
 ['completion of a program that waits for an independent task'])
prop('C11','Tasks, closures, results and resources live exactly as long as needed',
 'The function object, captured values, result and bookkeeping of a task are each destroyed exactly once, never while the task, a dependent, a future or another worker still uses them, and none is left when the runtime has been finalized and its handles are gone. No memory belonging to a task or resource is read or written after it has been released.',
 ['programs','schedules'],'all task programs, futures dropped or read late, resources going out of scope early, memory reused immediately or never, '+SCHED,
 'Use after free needs a worker to touch a task another worker just freed; the bump allocators hide it from the tests because the memory stays mapped.',
 [R+'scheduler/event.cpp',R+'task/task_space.cpp',R+'task/future.hpp',R+'util/chunked_list.hpp',R+'util/atomic_list.hpp',R+'memory/allocator.hpp'],
 [('removal countdown',R+'scheduler/event.cpp notify'),('reference counts in list items',R+'util/chunked_list.hpp'),('shared_ptr chunks',R+'util/atomic_list.hpp')],
 ['shadow state of every instrumented access','constructor/destructor counts of captured tracers'])
prop('C12','The arena allocator hands out disjoint memory and takes it back',
 'Blocks handed out by the arena allocator to any number of concurrently allocating and releasing threads are at least as large as requested, never overlap a live block, and lie inside memory obtained from the system; a request that can never be satisfied fails cleanly instead of hanging. Memory of exhausted arena pieces whose blocks were all released goes back to the system with its true size, and what the runtime keeps on the heap for tasks goes with them, so a long-running program with bounded live data uses bounded memory.',
 ['inputs','schedules','histories','configurations'],'all sequences of allocate and release of sizes up to and beyond the piece size, from up to 4 threads, '+SCHED,
 'No test exercises the allocator directly; overlap and premature release need an allocation racing with the release of the last block.',
 [R+'memory/chunked_bump_alloc.hpp',R+'memory/bump_allocator.cpp',R+'memory/bump_allocator.hpp',R+'util/atomic_list.hpp',R+'memory/hwloc_alloc.hpp',R+'memory/allocator.cpp'],
 [('atomic decrement of the next address and live count',R+'memory/bump_allocator.cpp'),('erase of a full, empty piece',R+'memory/chunked_bump_alloc.hpp deallocate')],
 ['address ranges of live blocks','bytes obtained from and returned to the system'])
prop('C13','The concurrent list neither loses, repeats nor resurrects elements',
 'With any number of threads pushing, removing and iterating at once, an element whose push completed before an iteration began and that is not removed until after it ended is visited exactly once, elements are visited newest first, and an element whose removal completed before the iteration began is never visited. The element stays intact while an iterator refers to it and is destroyed exactly once after removal.',
 ['schedules','histories','inputs'],'all short concurrent histories of push, remove, erase, iterate over chunk boundaries, '+SCHED,
 'The list test runs one thread with one chunk size; skip offsets and chunk reclamation only go wrong when removal, iteration and pushing interleave.',
 [R+'util/chunked_list.hpp',R+'util/atomic_list.hpp'],
 [('slot reservation by fetch_add',R+'util/chunked_list.hpp push'),('skip offsets',R+'util/chunked_list.hpp remove'),('item reference counts',R+'util/chunked_list.hpp acquire/release')],
 ['visited sequence of every iteration'])
prop('C14','A notification to a sleeping or about-to-sleep waiter is never lost',
 'If notify() is called on a condition flag after its waiter last returned from wait(), the current or next wait() returns, no matter where in the waiter\'s spin-then-sleep sequence the call lands; and wait() never returns without a notification since the previous return. This holds for any number of concurrent notifiers and any busy-wait limit.',
 ['schedules','configurations'],'any number of notifiers, busy-wait limits 0..n, spurious wake-ups of the underlying condition variable, '+SCHED,
 'The existing test notifies after a sleep of real time, i.e. one position in the sequence.',
 [R+'sync/cv.cpp',R+'sync/cv.hpp'],
 [('flag test under the mutex before sleeping',R+'sync/cv.cpp wait'),('flag cleared before notify_all under the mutex',R+'sync/cv.cpp notify')],
 ['returns of wait() versus notify() calls'])
prop('C15','Locks exclude and the worker-state set is exact',
 'At most one thread at a time is inside a section guarded by the library\'s spin lock, and every thread that asks for it eventually enters. The concurrent worker-state set returns for every update exactly the previous state of that worker, for every worker index, so that of several threads claiming one available worker exactly one succeeds; a search visits only workers that are in the requested state and finds one if one stays in it.',
 ['schedules','inputs','configurations'],'1..130 workers, all concurrent histories of set, get and search, '+SCHED,
 'Tests never run with more than a handful of workers and never race two claims.',
 [R+'sync/spinlock.hpp',R+'util/bitfield.hpp',R+'dispatch/thread/worker_pool.hpp',R+'dispatch/thread/worker_pool.cpp'],
 [('compare-exchange on the lock flag',R+'sync/spinlock.hpp'),('fetch_or / fetch_and on 64-bit words',R+'util/bitfield.hpp')],
 ['history of set/get/probe results'])
prop('C16','Task queues neither lose, duplicate nor invent tasks',
 'Every task pushed into a worker queue by any thread is taken out exactly once by some thread, in per-producer order, and a pop that follows a completed push, with no other pop in between, does not come back empty. Stealing by other workers keeps this true.',
 ['schedules','histories'],'up to 3 producers and 3 consumers with stealing, '+SCHED,
 'Queues are only used indirectly by the tests and never contended on purpose.',
 [R+'task/queue.hpp',R+'task/queue.cpp',R+'scheduler/default_scheduler.cpp','share/thirdParty/cameron314/concurrentqueue/include/moodycamel/concurrentqueue.h'],
 [('lock-free multi-producer multi-consumer queue',R+'task/queue.hpp')],
 ['multiset of pushed and popped tasks'])
prop('C17','Tasks only run on a scheduler that supports all their tags',
 'With a tag-matching scheduler, each task is run by the first registered sub-scheduler whose tags include all tags the task requires, both when it is first submitted and each time it becomes ready or resumes; ordering, results and completion are those of the same program without tags. A task no scheduler supports is refused with an exception when submitted and does not run.',
 ['programs','schedules','configurations'],'all assignments of tag sets to two or three sub-schedulers and tasks, including a scheduler polled by the main thread, '+SCHED,
 'No passing test uses scheduling tags.',
 [R+'scheduler/tag_match.hpp',R+'scheduler/tag_match_property.hpp',R+'scheduler/scheduler.hpp',R+'dispatch/thread/worker.cpp'],
 [('superset test on tag bitsets',R+'scheduler/tag_match.hpp get_matching_scheduler')],
 ['executing thread of every task body'])
prop('C18','Waiting for an MPI request returns that request\'s status, once done',
 'A task that waits for a message request through the request pool resumes exactly once, only after that request has completed, and receives the status of exactly that request, however many requests are outstanding and in whatever order or batches they complete. Polling never drops, repeats or confuses requests, and other tasks keep running meanwhile.',
 ['schedules','fault_sequences','histories'],'1..8 concurrent requests, completions delayed, reordered and batched, requests added between polls, '+SCHED,
 'There is no MPI test at all and a real MPI completes in a fixed order on one host.',
 [R+'dispatch/mpi/request_pool.hpp',R+'redGrapes.cpp',R+'scheduler/event.cpp',R+'dispatch/thread/execute.cpp'],
 [('index bookkeeping after Testsome',R+'dispatch/mpi/request_pool.hpp poll'),('event per request',R+'dispatch/mpi/request_pool.hpp get_status')],
 ['status returned versus status delivered by the simulated network'])
prop('C19','What a task wrote is visible to whatever is ordered after it',
 'Everything done before a task was submitted happens before its function starts; everything a task did happens before any task ordered after it starts, before a reader of its future returns, before a task waiting for an event it notified resumes, and before barrier() returns. The ordering is established by the library\'s own synchronisation (in the sense of the C++ memory model) without help from the application.',
 ['programs','schedules'],'all ordered pairs in all task programs, '+SCHED+'; happens-before computed from the memory orders the code actually uses',
 'On x86 a weakened memory order compiles to the same instructions, so no execution of the tests can show it.',
 [R+'scheduler/event.cpp',R+'task/future.hpp',R+'sync/cv.cpp',R+'sync/spinlock.hpp',R+'task/queue.hpp',R+'util/chunked_list.hpp'],
 [('sequentially consistent event counters',R+'scheduler/event.hpp state'),('acquire/release in locks and flags',R+'sync/spinlock.hpp')],
 ['vector clocks at task start, task end, future read, barrier return'])
prop('C20','Several threads may create tasks at the same time',
 'When several tasks of the same parent space are created concurrently by different threads, each conflicting pair is still ordered one way or the other consistently on all resources they share, tasks of one creating thread keep that thread\'s order, and all of them run exactly once. Each of these threads, not only the one that started the runtime, can read futures and wait in barriers, with the guarantees those give to the main thread. No combination of concurrent creations and waits deadlocks.',
 ['programs','schedules'],'2..4 creating threads that also read futures, poll and drop them and wait in barriers, tasks over 1..3 shared resources named in any order, '+SCHED,
 'All tests create tasks of a space from a single thread.',
 [R+'task/task_space.cpp',R+'task/property/graph.cpp',R+'util/chunked_list.hpp',R+'redGrapes.hpp'],
 [('insertion into the user lists of all resources of a task',R+'task/task_space.cpp submit')],
 ['execution history per resource and creator'])
prop('C21','Code inside a task sees its own task context, wherever it runs',
 'At every moment of a task\'s execution, also after waiting and after moving to another worker or while other tasks ran on the same worker in between, the current task, its backtrace of ancestors, its nesting depth and its child space are those of that task; outside of tasks there is none. New tasks created at that moment become children of that task and of no other.',
 ['programs','schedules'],'all nestings and yield patterns, '+SCHED,
 'Tests check the depth once in a non-yielding task.',
 [R+'redGrapes.cpp',R+'dispatch/thread/execute.cpp',R+'task/task_base.hpp',R+'redGrapes.hpp'],
 [('thread-local current task set around execution',R+'dispatch/thread/execute.cpp')],
 ['backtrace, scope_depth, create_event sampled inside bodies'])
prop('C22','The runtime can be started, finalized and started again',
 'init(), use and finalize() can be repeated in one process with any numbers of workers, with or without work, and each round behaves like the first: finalize() returns with all worker threads ended and joined, and the next round runs its tasks correctly. Memory obtained for earlier rounds is returned.',
 ['histories','schedules','configurations'],'1..4 rounds, 1..72 workers on 1..4 processing units, rounds without tasks, rounds run by a thread other than the one that constructed the context, '+SCHED,
 'Each test initialises once per process.',
 [R+'redGrapes.cpp',R+'dispatch/thread/worker_pool.cpp',R+'dispatch/thread/worker.cpp',R+'redGrapes.hpp'],
 [('stop flag and wake',R+'dispatch/thread/worker.cpp stop'),('pool replaced by init',R+'redGrapes.cpp init')],
 ['live threads and system memory after finalize'])
prop('C23','Failing system calls degrade service, never correctness',
 'If the operating system refuses to bind threads or memory, programs run with the same results; if it refuses memory to a call that creates a task, an event or a resource or that changes the accesses of the running task, that call reports it by an exception and has no other effect (the task in question does not run, the accesses stay as they were), and everything created before or afterwards still completes correctly; if it refuses threads or memory to init(), that call reports it by an exception, leaves no thread behind and can be repeated. No refusal leads to a crash, a hang or memory corruption.',
 ['fault_sequences','programs','schedules'],'any pattern of failing cpu binding, memory binding, memory allocation and thread creation calls during init(), creation of tasks, events and resources, and changes of accesses, '+SCHED,
 'Tests never see a failing system call.',
 [R+'memory/hwloc_alloc.hpp',R+'util/atomic_list.hpp',R+'memory/chunked_bump_alloc.hpp',R+'memory/allocator.hpp',R+'dispatch/thread/worker.cpp',R+'task/task_builder.hpp'],
 [('out of memory check',R+'task/task_builder.hpp'),('warning on bind failure',R+'dispatch/thread/worker.cpp')],
 ['outcome of programs under injected failures'])
prop('C24','Access policies relate accesses as documented',
 'For every pair of accesses to a resource, of every access policy and combination of policies, two tasks are ordered exactly if the documented relation says that the accesses conflict: reads commute, equal atomic operations commute, everything else on overlapping areas conflicts; accesses combined with "or" conflict if any of their parts conflict, those combined with "and" only if all do. A task may change an access into another one exactly if every part of the old one allows at least the same as that of the new one.',
 ['inputs','programs','schedules'],'all pairs of modes and non-empty areas in up to 3 dimensions, and/or combinations of them, '+SCHED,'The unit tests sample a few pairs.',
 [R+'resource/access/io.hpp',R+'resource/access/area.hpp',R+'resource/access/combine.hpp',R+'resource/access/field.hpp',R+'resource/resource.hpp'],
 [('relations used for dependencies',R+'resource/resource_user.cpp is_serial'),('relations used for changes',R+'resource/resource_user.cpp is_superset')],
 ['order and overlap of tasks','which tasks can wait for each other','acceptance of update_properties'])
prop('C25','Field guards never reach outside their area',
 'Through the guard of an area of a field only elements inside that area can be reached, anything else is refused with an exception, and a sub-area is never larger than the area it was taken from. Tasks that hold guards of disjoint areas can therefore run at the same time without touching the same element.',
 ['inputs','programs','schedules'],'all areas and indices in 1 to 3 dimensions incl. open, empty and overflowing ones, nested sub-areas, inside of concurrent tasks','Not covered by tests.',
 [R+'resource/fieldresource.hpp'],[('bounds check',R+'resource/fieldresource.hpp get'),('sub-area check',R+'resource/fieldresource.hpp make_area')],['exception or element'])
prop('C26','GPU streams preserve task order',
 'Tasks dispatched to accelerator streams are ordered by their dependencies and their completion events are never lost or confused.',
 ['schedules'],'all orders of stream completion','No accelerator in the test environment.',
 [R+'dispatch/cuda/scheduler.hpp',R+'dispatch/cuda/event_pool.hpp',R+'dispatch/cupla/scheduler.hpp'],[('stream dispatcher',R+'dispatch/cuda/scheduler.hpp')],['order of kernel completion'])
prop('C27','Child tasks never get more access than their parent has',
 'A task that is created inside of another task may use only what its parent currently holds: every access it declares must be covered by one of the parent\'s accesses (after all changes the parent made to them), or belong to a resource that was created in an inner scope. Anything else is refused when the child is submitted and never runs; a child that stays within the accesses of its parent is never refused.',
 ['programs','inputs','schedules'],'all nested programs up to depth 3 with up to 4 accesses per child, and chains of tasks nested up to 320 deep, any number of them covered, after any sequence of access changes of the parent; all access policies; resources of all scopes; '+SCHED,
 'Tests create only children that are permitted. A child that slips through makes the order of all tasks of the outer space void: nothing orders it against tasks that conflict with the additional access.',
 [R+'task/task_space.cpp',R+'resource/resource_user.cpp',R+'resource/resource.hpp',R+'resource/access/io.hpp',R+'resource/access/area.hpp',R+'resource/access/combine.hpp'],
 [('subset check at submission',R+'task/task_space.cpp submit'),('coverage of access lists and scopes',R+'resource/resource_user.cpp is_superset_of')],
 ['submission refused (assertion or exception) or child runs'])
import sys
for p in P: print(json.dumps(p))
