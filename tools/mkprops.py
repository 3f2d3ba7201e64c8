#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording has one source)."""
import json, pathlib
I='include/libfork/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[I+f for f in files],state=state or [],mechanism=[dict(name=a,where=I+b) for a,b in mech],observe_at=observe,hook_needed=hook)))

prop('C01','Work-stealing deque delivers every item exactly once under concurrency',
 'With one owner pushing and popping and any number of thieves stealing concurrently, every item that was pushed is obtained exactly once (by a pop or a steal) or is still in the deque; nothing is lost, duplicated or invented, and this also holds while the buffer is being grown. The value obtained is the value pushed, whatever a thief stole is visible to it together with everything the owner wrote before pushing, and no data race occurs. A pop or steal reports "empty" only if the deque really could have been empty.',
 ['schedules','inputs'],'every interleaving and every weak-memory (C++ memory model) behaviour of the owner and the thieves, for all item values; bounded by the number of operations per thread',
 'tests run a handful of OS schedules on x86 (TSO) hardware; they cannot reach most interleavings around the last element or a resize, nor any behaviour that only a weaker memory model allows',
 ['core/ext/deque.hpp','core/impl/atomics.hpp'],[('pop/steal race on the last item decided by one compare-exchange, with full fences','core/ext/deque.hpp'),('publication of items and of grown buffers','core/ext/deque.hpp'),('full fence','core/impl/atomics.hpp')],
 ['return values of push/pop/steal','memory accesses of the two threads'])
prop('C02','Deque is LIFO for its owner, FIFO for thieves, and grows without loss',
 'For every history of operations that do not overlap in time, a pop returns the most recently pushed remaining item, a steal returns the oldest remaining item, and both report emptiness exactly when there is nothing left. The reported size, emptiness and capacity always agree with that abstract queue, and growing (at any starting capacity and at any position of the items inside the buffer) preserves contents and order. Requesting an initial capacity gives a deque with at least that usable capacity, and all memory is released on destruction.',
 ['histories','inputs'],'every sequence of push/pop/steal/size/empty/capacity up to the stated length, every item value, small initial capacities with wrap-around',
 'tests push ascending integers in a few fixed patterns and never compare against an abstract queue over arbitrary histories',
 ['core/ext/deque.hpp'],[('ring buffer indexing and resize','core/ext/deque.hpp'),('push/pop/steal/size','core/ext/deque.hpp')],['return values of the deque operations','allocations outstanding at the end'])
prop('C03','Submission list hands over every submitted task exactly once, in order',
 'Tasks submitted to a worker concurrently by any threads are all delivered exactly once to that worker, and tasks submitted by the same thread are delivered in the order submitted. Submission never loses or duplicates an entry when it overlaps another submission or the worker taking the list, and the worker sees everything the submitter wrote before submitting. Iterating a taken list visits each entry once even if visiting an entry invalidates it.',
 ['schedules','histories'],'every interleaving and weak-memory behaviour of up to two producers and the consumer; every non-overlapping history up to the stated length',
 'tests use a few threads on x86 and count entries; the windows are a few instructions wide and weak orderings never show',
 ['core/ext/list.hpp','core/ext/context.hpp'],[('push by compare-exchange loop','core/ext/list.hpp'),('take-all exchange and reversal','core/ext/list.hpp'),('worker submission/take','core/ext/context.hpp')],['lists returned to the worker','entries visited'])
prop('C04','A join resumes the task exactly once, after all its children',
 'When children of a task finish on other workers while the task itself reaches its join, exactly one of the workers continues the task past the join: never none, never two. It does so only after every forked child has finished, and everything the children wrote is visible to the continuation without a data race. The worker that continues the task owns the memory the task runs on from that point, and no other worker touches it.',
 ['schedules'],'every interleaving and weak-memory behaviour of one joining worker and up to two finishing children on other workers, whichever subset had already finished',
 'the race is between two atomic operations; tests on x86 hardware see almost always the same winner and cannot see missing acquire/release ordering',
 ['core/impl/awaitables.hpp','core/impl/promise.hpp','core/impl/frame.hpp'],[('join counter protocol of the joining task','core/impl/awaitables.hpp'),('child completion','core/impl/promise.hpp'),('counter reset and steal counting','core/impl/frame.hpp')],['which worker receives the task to resume','happens-before between child writes and continuation'])
prop('C05','Parallel results equal serial results whatever is stolen',
 'A fork-join task graph computes, for every input, the same results as running the same program serially, no matter which continuations are stolen, by which worker, when they are resumed and who finishes last. Every forked or called task runs exactly once and the code after a join runs exactly once. Values are returned to the right place for every supported kind of return (by value, by reference, ignored, to a user-provided location).',
 ['schedules','inputs','programs'],'a family of small fork/call/join programs with symbolic inputs; every pattern of steals/resumptions at task boundaries on up to three workers',
 'tests compute fib and similar with whatever schedule the machine happens to produce; most steal patterns of small graphs never occur',
 ['core/impl/promise.hpp','core/impl/awaitables.hpp','core/control_flow.hpp','core/impl/combinate.hpp','core/impl/return.hpp','core/ext/resume.hpp'],[('fork/call/join awaitables','core/impl/awaitables.hpp'),('final suspend hand-off','core/impl/promise.hpp'),('stealing and resuming','core/ext/resume.hpp')],['results written by tasks','number of executions of each task body'])
prop('C06','Task memory blocks never overlap, keep their contents and are all returned',
 'On a worker\'s task stack, for every history of last-in-first-out allocations and deallocations of arbitrary sizes, each live block is suitably aligned, at least as large as asked for, disjoint from every other live block, and is not touched by later operations. The stack reports empty exactly when nothing is allocated, keeps a bounded amount of cached memory, and frees all memory when destroyed. Handing a stack over (release, re-adopt, move, swap) preserves live blocks.',
 ['histories','inputs'],'every sequence of allocate/deallocate/release/adopt/swap up to the stated length with symbolic block sizes around every size boundary',
 'tests allocate fixed sizes through recursive coroutines; the boundary sizes and orders at which a block lands on a new or cached segment are not explored',
 ['core/impl/stack.hpp'],[('segment allocation and growth','core/impl/stack.hpp'),('deallocate / caching','core/impl/stack.hpp'),('release and adoption','core/impl/stack.hpp')],['addresses of blocks','contents of blocks','heap allocations outstanding'])
prop('C07','No task memory leaks, double frees or dangling use under any steal pattern',
 'Whatever is stolen and wherever tasks finish, every task frame and every stack segment is released exactly once, no worker uses memory after it was released or that it has handed to another worker, and each worker is left with an empty usable stack when its work is finished. After the program has finished all memory has been returned.',
 ['schedules','programs'],'the same family of programs and steal patterns as C05, including deep recursion that spills onto new segments and joins that move a stack to another worker',
 'sanitizer runs of the tests only see the schedules that happened; ownership moves between workers only in particular steal/finish orders',
 ['core/impl/promise.hpp','core/impl/awaitables.hpp','core/impl/stack.hpp','core/ext/resume.hpp','core/ext/tls.hpp'],[('stack release on lost join','core/impl/promise.hpp'),('stack adoption on won join','core/impl/awaitables.hpp'),('adoption on resume of submitted work','core/ext/resume.hpp')],['heap allocations and frees','accesses to freed memory'])
prop('C08','Exceptions reach the right join or caller exactly once, after all siblings',
 'If a forked or called child exits by an exception, the parent receives exactly one of the thrown exceptions at its next join (or at the call when it asked for eager propagation), after all forked siblings have finished; with no exception thrown none is received. The exception received is one that was thrown by a child of that scope, the others are discarded without leaks, and the task can go on to use later fork-join scopes normally. An exception that leaves the root is delivered to whoever waits for the result.',
 ['schedules','inputs'],'every subset of children throwing, every choice of call/fork and of the throwing values, every steal pattern at task boundaries on up to three workers; concurrent capture under the memory model',
 'tests throw from one place in a few programs; combinations of several throwing children with steals are timing dependent',
 ['core/impl/frame.hpp','core/impl/awaitables.hpp','core/impl/promise.hpp','core/sync_wait.hpp'],[('first exception wins capture','core/impl/frame.hpp'),('rethrow at join','core/impl/awaitables.hpp'),('eager propagation','core/impl/awaitables.hpp')],['exceptions caught by user code','live exception objects at the end'])
prop('C09','Explicitly rescheduled tasks continue once, on the requested worker',
 'A task that asks to continue on another worker resumes exactly once, on that worker, with its state intact; if it is already there it continues without suspending. Work left behind on the original worker is still executed, and later joins still wait for all children, whichever order the workers run in.',
 ['schedules','programs'],'small programs that reschedule themselves at each point of a fork-join scope, every order of the workers\' steps at task boundaries on up to three workers, symbolic choice of destination',
 'tests move tasks between pools with whatever timing occurs and check only the final value',
 ['core/scheduler.hpp','core/impl/awaitables.hpp','core/ext/resume.hpp','core/ext/context.hpp'],[('resume-on awaitable','core/scheduler.hpp'),('context switch and self stealing','core/impl/awaitables.hpp'),('resume of submitted handles','core/ext/resume.hpp')],['worker identity after the switch','results','allocations'])
prop('C10','Stack-allocated arrays inside tasks are valid, disjoint and released',
 'Memory a task requests on its own stack holds the requested number of correctly constructed and aligned elements, is disjoint from frames of its children and from other such requests, and keeps its contents until it is released, even if the task is stolen or resumed by another worker in between. Each element is constructed and destroyed exactly once, and if an element constructor throws the already constructed ones are destroyed and the memory is returned.',
 ['schedules','inputs'],'symbolic element counts and contents, constructors that throw at a symbolic index, steal patterns at task boundaries',
 'tests allocate a few fixed sizes; segment boundaries, throwing constructors and steals in between are not combined',
 ['core/co_alloc.hpp','core/impl/awaitables.hpp','core/impl/stack.hpp'],[('allocation awaitable','core/impl/awaitables.hpp'),('owning handle','core/co_alloc.hpp')],['element addresses and values','construct/destroy counts'])
prop('C11','Waiting for submitted work yields its result or exception exactly once',
 'Submitting a task and waiting returns exactly the value it returned or rethrows exactly the exception it threw, and everything the task wrote is visible to the waiter. A future gives its result once: misuse (using an empty or already consumed one, waiting from a worker) is reported by the documented exception and never by undefined behaviour; a future that is destroyed waits for the task and a detached one neither blocks nor leaks. The shared state is destroyed exactly once, after both the worker and the waiter are done with it.',
 ['schedules','histories','inputs'],'every sequence of future operations up to the stated length, before/after completion; every interleaving and weak-memory behaviour of completion against waiting and detaching; value, void and throwing tasks',
 'tests exercise a few orders; the order of completion against get/wait/detach/destruction is timing dependent',
 ['core/sync_wait.hpp','core/impl/promise.hpp','core/exceptions.hpp'],[('future state machine','core/sync_wait.hpp'),('completion signal at root final suspend','core/impl/promise.hpp')],['values/exceptions returned','lifetime of shared state'])
prop('C12','Deferred-construction result holders never leak, double-destroy or mix states',
 'A delayed-construction holder is empty until given a value (or, where supported, an exception), then yields exactly that value or rethrows exactly that exception. For every permitted sequence of operations the contained object is constructed once and destroyed once, and a failing construction leaves the holder empty. This holds for objects, references, void and trivially or non-trivially destructible types.',
 ['histories','inputs'],'every permitted operation sequence up to the stated length over the supported kinds of contained type, symbolic values and throwing constructors',
 'tests check single operations on a couple of types',
 ['core/eventually.hpp','core/impl/manual_lifetime.hpp','core/impl/return.hpp'],[('state tracking','core/eventually.hpp'),('manual lifetime','core/impl/manual_lifetime.hpp')],['values/exceptions read','construct/destroy counts'])
prop('C13','The event counter never loses a wake-up and never wakes spuriously',
 'A thread that announces it will wait, re-checks its condition and then waits is always woken if a notification is issued after its announcement, for every interleaving, number of waiters and number of earlier notifications (including when the internal counters wrap around). A waiter returns only after a notification issued after its announcement, and cancelling an announcement leaves the counter as if it had never been made. Writes made before the notification are visible to the woken thread\'s re-check.',
 ['schedules','inputs','histories'],'every interleaving and weak-memory behaviour of up to two waiters and a notifier; every starting counter state',
 'a lost wake-up needs a window of a few instructions or a counter wrap-around after 2^32 notifications',
 ['schedule/ext/event_count.hpp'],[('epoch/waiter packed word','schedule/ext/event_count.hpp'),('prepare/cancel/wait/notify','schedule/ext/event_count.hpp')],['threads blocked at quiescence','return from await'])
prop('C14','Sleeping workers: submitted or stealable work is never left with everyone asleep',
 'In a pool whose idle workers sleep, whenever a task has been submitted or is available to steal, some worker is awake or is woken to look for it: there is no reachable state in which work remains and every worker able to run it is asleep. When a pool is told to stop every sleeping worker wakes up and terminates.',
 ['schedules'],'every interleaving of the sleep/wake decisions of two or three workers against submission, stealing and shutdown, with up to the stated number of preemptions',
 'the windows between the checks are a few instructions; a stuck pool shows in tests only as a rare hang',
 ['schedule/lazy_pool.hpp','schedule/ext/event_count.hpp'],[('thief/active counters and work-sleep protocol','schedule/lazy_pool.hpp'),('notify on submission and on becoming active','schedule/lazy_pool.hpp')],['set of blocked workers and outstanding work at quiescence'])
prop('C15','Pools run every submitted task exactly once and shut down cleanly',
 'Each of the schedulers (single worker, busy, lazy) runs every task submitted to it before its destruction (and not submitting further work once it is being destroyed) exactly once, with the right result or exception, for every interleaving of the submitters, the workers and the destructor. Destroying a pool, including one that was moved from or assigned over, terminates, joins all its workers and releases all memory, and constructing a pool either gives the requested number of working workers or reports failure.',
 ['schedules','configurations'],'pools of up to three workers, up to two submitted tasks, every interleaving of submitters and workers at synchronisation operations up to the stated number of preemptions',
 'tests submit and wait under one or two natural timings; submission racing with shutdown or start-up is rarely exercised',
 ['schedule/busy_pool.hpp','schedule/lazy_pool.hpp','schedule/unit_pool.hpp','schedule/impl/numa_context.hpp','core/ext/tls.hpp'],[('worker loops','schedule/busy_pool.hpp'),('worker loop','schedule/lazy_pool.hpp'),('worker loop','schedule/unit_pool.hpp')],['results of submitted tasks','termination of destructor','allocations'])
prop('C16','Parallel for-each visits each element exactly once',
 'For every length, chunk size and steal pattern, the parallel for-each applies the function (through the projection, if given) exactly once to each element of the range and to nothing else, and returns after all applications are finished. It accepts both plain functions and task functions, iterators with sentinels and whole ranges. If an application throws, one of the thrown exceptions is delivered to the caller after all started work is finished.',
 ['inputs','schedules'],'every length and chunk size up to the stated bounds, every steal pattern at task boundaries, symbolic throwing position',
 'tests use a few lengths/chunks and uniform data; boundary relations between length, chunk and split points combined with steals are not enumerated',
 ['algorithm/for_each.hpp','algorithm/lift.hpp','algorithm/constraints.hpp'],[('recursive splitting','algorithm/for_each.hpp')],['application count per element'])
prop('C17','Parallel map writes exactly f(element) to each output position',
 'For every length, chunk size and steal pattern, the parallel map stores, for each position and only there, the function applied once to the (projected) input element, including when output and input are the same range. It accepts plain and task functions. If an application throws, one of the thrown exceptions is delivered to the caller after all started work is finished.',
 ['inputs','schedules'],'every length and chunk size up to the stated bounds, symbolic element values, every steal pattern at task boundaries',
 'tests use a few lengths/chunks; see C16',
 ['algorithm/map.hpp','algorithm/lift.hpp','algorithm/constraints.hpp'],[('recursive splitting','algorithm/map.hpp')],['output contents','application counts'])
prop('C18','Parallel fold equals the sequential fold for every associative operation',
 'For every length, chunk size and steal pattern, the parallel fold with an associative (not necessarily commutative) operation returns exactly the left-to-right fold of the projected elements, each element being used exactly once and in order; for an empty range it reports absence of a value. It accepts plain and task functions for operation and projection, and an exception from either is delivered to the caller.',
 ['inputs','schedules'],'every length and chunk size up to the stated bounds, symbolic element values under a free associative (string-concatenation-like) operation, every steal pattern at task boundaries',
 'tests sum integers: commutativity hides re-ordering, and few lengths/chunks are tried',
 ['algorithm/fold.hpp','algorithm/lift.hpp','algorithm/constraints.hpp'],[('recursive splitting','algorithm/fold.hpp')],['returned value'])
prop('C19','Parallel scan equals the sequential inclusive scan under every steal pattern',
 'For every length, chunk size and steal pattern, the parallel scan with an associative (not necessarily commutative) operation writes to each output position exactly the fold of all (projected) elements up to and including it, also when output and input are the same range. Each projection is applied as documented and nothing outside the output range is written. An exception from the operation is delivered to the caller.',
 ['inputs','schedules'],'every length and chunk size up to the stated bounds, symbolic values under a free associative operation, every steal pattern at task boundaries (the algorithm takes different paths depending on what was stolen)',
 'which of the internal code paths run depends on which continuations are stolen, which tests do not control',
 ['algorithm/scan.hpp','algorithm/lift.hpp','algorithm/constraints.hpp'],[('up-sweep with scan/fold choice depending on steals','algorithm/scan.hpp'),('down-sweep','algorithm/scan.hpp')],['output contents'])
prop('C20','Random engine implements the published generator and its jumps',
 'From every one of the 2^256 states the engine returns the output of, and moves to the successor state given by, the published xoshiro256** generator; seeding from a word sequence, copying and default construction give the documented state. A (long) jump is equivalent to the documented number of single steps (2^128, 2^192).',
 ['inputs'],'all 256-bit states symbolically for the step; all states for the jumps via linearity of the engine over GF(2)',
 'tests only check that two engines produce different numbers; a wrong constant or shift still yields plausible numbers',
 ['schedule/ext/random.hpp'],[('step','schedule/ext/random.hpp'),('jump polynomial','schedule/ext/random.hpp')],['output words','state after a step'])
prop('C21','Steal-victim tables cover all other workers and never a worker itself',
 'For every assignment of workers to hardware nodes, each worker\'s view of the pool contains itself first and every other worker exactly once grouped by non-decreasing distance, so that every worker can eventually steal from every other one. A steal attempt never targets the worker itself, always terminates, works when there is nobody to steal from, and obtains work from whichever victim has some. Splitting a topology over n workers gives exactly n placements.',
 ['configurations','inputs'],'all placements of up to four workers on up to the stated number of nodes, every outcome of the random choices',
 'tests run on the one machine topology available (usually a single node)',
 ['schedule/ext/numa.hpp','schedule/impl/numa_context.hpp'],[('distribution of workers by distance','schedule/ext/numa.hpp'),('victim selection','schedule/impl/numa_context.hpp')],['neighbour lists','result of steal attempts'])
prop('C22','Worker registration is checked and leaves no residue',
 'A thread that registers as a worker can obtain its context and stack until it unregisters; registering twice, unregistering when not registered or unregistering a foreign context is reported by an exception and changes nothing. If registration fails for lack of resources the failure is reported and the thread is left unregistered. After unregistering all the resources are released and the thread can register again.',
 ['histories','fault_sequences'],'every sequence of register/unregister/query up to the stated length, allocation failing at any point',
 'tests never register twice, mismatch contexts or make allocation fail',
 ['core/ext/tls.hpp','core/ext/context.hpp'],[('init/finalize','core/ext/tls.hpp')],['exceptions thrown','allocations outstanding','queries of worker state'])
prop('C23','Plain and task functions are interchangeable when called or lifted',
 'Awaiting a wrapped callable returns the callable\'s result (value or reference) or its exception, identically whether it is a plain function or a task function and whatever was stolen meanwhile. Lifting a plain function to a task calls it exactly once with the given arguments, and arguments/results are forwarded without extra copies of move-only values.',
 ['inputs','schedules'],'symbolic arguments, throwing or not, plain/task callables, value/reference/void results, steal patterns at task boundaries',
 'tests check single values',
 ['core/just.hpp','algorithm/lift.hpp','core/control_flow.hpp','core/impl/combinate.hpp'],[('immediate invocation wrapper','core/just.hpp'),('lift','algorithm/lift.hpp')],['values/exceptions returned','call counts'])
prop('C24','Scope-exit actions run exactly once',
 'A deferred action runs exactly once when its scope is left, by return, exception or completion, in reverse order of declaration, and inside a task also when the task is suspended, stolen or resumed elsewhere before leaving the scope.',
 ['inputs','schedules'],'every way of leaving the scope and steal pattern in a small task with several deferred actions',
 'tests leave the scope in one way only',
 ['core/defer.hpp'],[('scope guard','core/defer.hpp')],['order and number of executions'])
prop('C25','The amalgamated single header behaves like the header tree',
 'A program compiled against the amalgamated single header has the same behaviour as one compiled against the header tree: every guarantee of the library that holds with one holds with the other.',
 ['programs','inputs','schedules'],'the programs of the harnesses of all other properties, with all their symbolic inputs and schedules',
 'one smoke test includes the single header; nothing compares the two',
 ['../../single_header/libfork.hpp','../../tools/make_single_header.cpp'],[('generation of the single header','../../tools/make_single_header.cpp')],['assertions and reached behaviours of the same program compiled with either'])
prop('C26','Parallel memory use is bounded by workers times serial use',
 'The stack memory held by a computation on P workers never exceeds a constant times P times the memory of its serial execution.',
 ['schedules','programs'],'all programs, all numbers of workers, all schedules',
 'over all programs and schedules; the tests measure no memory, and an accumulation shows only under particular repeated steals',
 ['core/impl/stack.hpp','core/impl/promise.hpp'],[('continuation stealing with segmented stacks','core/impl/promise.hpp')],['bytes of task memory held'])
out=pathlib.Path(__file__).resolve().parent.parent/'properties.jsonl'
for p in P:
    p['anchors']['files']=[f.replace('include/libfork/../../','') for f in p['anchors']['files']]
    for m in p['anchors']['mechanism']: m['where']=m['where'].replace('include/libfork/../../.legacy_or_tools','single_header').replace('include/libfork/../../','')
out.write_text('\n'.join(json.dumps(p) for p in P)+'\n')
import re
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
    n=len(re.findall(r'[.!?](\s|$)',p['statement'])); assert n<=3,(p['id'],n)
print(len(P))
