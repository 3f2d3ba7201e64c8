"""Configurations of every check: harness, defines, bounds, labels that have to be reached."""
CONFIGS = {}
LEVEL = {}
OUTSIDE = {}
def add(pid, name, src, defs=(), expect=('end',), bounds='', tier='quick', **kw):
    CONFIGS.setdefault(pid, []).append(dict(name=name, src=src, defs=list(defs), expect=list(expect), bounds=bounds, tier=tier, **kw))

FJ = 'other workers run at task boundaries (start of a task, after each fork/call/join), %s workers, <=%s steals, <=%s preemptions; '
def fj(pid, name, src, nw, steals, pre, defs=(), expect=('end',), bounds='', **kw):
    add(pid, name, src, [f'NW={nw}', f'STEALS={steals}', f'PRE={pre}'] + list(defs), expect, FJ % (nw, steals, pre) + bounds, **kw)
S = ['no steal', 'one steal', 'two steals']
# ---- C05
fj('C05', 'fib2', 'c05_fib.cpp', 3, 4, 6, ['NMAX=3'], ['one steal', 'two steals', 'end'], 'fib(n), symbolic n<=3')
fj('C05', 'tree2', 'c05_tree.cpp', 2, 2, 3, ['DEPTH=2', 'MAXC=2'], S + ['end'], 'all trees of depth 2 with <=2 children per task, each forked or called')
fj('C05', 'scopes', 'c05_tree.cpp', 3, 4, 6, ['DEPTH=1', 'MAXC=2', 'SCOPES=2'], S + ['three steals', 'end'], 'two consecutive fork-join scopes of <=2 children')
fj('C05', 'wide', 'c05_tree.cpp', 3, 3, 6, ['DEPTH=1', 'MAXC=3'], S + ['three steals', 'end'], 'one scope of <=3 children')
for sub in ('', ' SUB'): fj('C05', 'args' + sub.strip().lower().replace('sub', '_sub'), 'c05_args.cpp', 2, 2, 3, ('DEPTH=2' + sub).split(), S + ['lvalue', 'temporary', 'const', 'end'], 'task functions with state (copied, moved, const, reached through self), arguments by value, reference and move, recursion of depth 2, symbolic values')
fj('C05', 'rets', 'c05_rets.cpp', 3, 3, 6, [], ['value', 'reference', 'object', 'void', 'unique_ptr', 'optional', 'ignored', 'converted', 'braces', 'local', 'wider', 'try_eventually', 'end'], 'one child of every return kind, forked or called, with or without a sibling, symbolic values')
fj('C05', 'rets_sub', 'c05_rets.cpp', 2, 2, 3, ['SUB'], ['value', 'reference', 'object', 'void', 'unique_ptr', 'optional', 'ignored', 'converted', 'braces', 'local', 'wider', 'try_eventually', 'end'], 'one child of every return kind, forked or called, with or without a sibling, symbolic values; bound with [] instead of ()')
fj('C05', 'deep', 'c05_tree.cpp', 3, 3, 6, ['DEPTH=3', 'MAXC=2', 'KIND=1'], S + ['three steals', 'end'], 'trees of depth 3', tier='thorough')
fj('C05', 'tree3', 'c05_tree.cpp', 3, 3, 5, ['DEPTH=2', 'MAXC=2'], S + ['three steals', 'end'], 'all trees of depth 2', tier='thorough')
# ---- C07
fj('C07', 'spill', 'c05_tree.cpp', 3, 3, 5, ['DEPTH=2', 'MAXC=2', 'KIND=1', 'PAD=2000'], S + ['three steals', 'end', 'several segments'], 'frames larger than half a segment, so that every second frame needs a new segment')
fj('C07', 'chain', 'c05_tree.cpp', 3, 3, 5, ['DEPTH=3', 'MAXC=1', 'PAD=2000'], S + ['three steals', 'end', 'several segments'], 'chains of 4 large frames, forked or called')
fj('C07', 'huge', 'c05_tree.cpp', 2, 2, 3, ['DEPTH=2', 'MAXC=2', 'KIND=1', 'PAD=40000'], S + ['end', 'several segments'], 'frames larger than ten initial segments')
fj('C07', 'small', 'c05_tree.cpp', 2, 2, 3, ['DEPTH=2', 'MAXC=2'], S + ['end'], 'small frames on one segment')
fj('C07', 'scopes', 'c05_tree.cpp', 3, 4, 6, ['DEPTH=1', 'MAXC=2', 'SCOPES=2', 'PAD=1500'], S + ['three steals', 'end'], 'consecutive scopes')
fj('C07', 'oom', 'c05_tree.cpp', 2, 2, 2, ['DEPTH=2', 'MAXC=2', 'PAD=2000', 'OOM'], S + ['end', 'several segments', 'child not created'], 'frames of which every second needs a new segment; the allocation of one child may fail')
fj('C07', 'oom3', 'c05_tree.cpp', 3, 3, 4, ['DEPTH=2', 'MAXC=2', 'KIND=1', 'PAD=2000', 'OOM'], S + ['end', 'several segments', 'child not created'], 'as oom', tier='thorough')
fj('C07', 'spill3', 'c05_tree.cpp', 3, 4, 6, ['DEPTH=2', 'MAXC=2', 'PAD=2000'], S + ['three steals', 'end', 'several segments'], 'as spill, all fork/call combinations', tier='thorough')

# ---- C02
DQ = 'non-overlapping operations on a deque: push, pop, steal, size, empty, capacity, symbolic items; '
def dq(name, d, bounds, extra=(), **kw): add('C02', name, 'c02_deque.cpp', d.split(), ['end', 'pop on empty', 'popped', 'steal on empty', 'stolen'] + list(extra), DQ + bounds, **kw)
dq('mixed', 'CAP=0', 'initial capacity 1, 2 or 4', ['grown'])
dq('cap1', 'CAP=1 OPS=8', 'initial capacity 1, 8 operations', ['grown', 'grown twice'])
dq('wrap', 'CAP=2 OPS=7 KIND=1 PREFIX=3', 'initial capacity 2, positions shifted by up to 3, 7 operations, other item type', ['grown'])
dq('kind2', 'KIND=2', 'other item type'); dq('kind3', 'KIND=3 CAP=2', 'other item type')
dq('oom', 'OOM=2 OPS=5', 'any one or two of the allocations fail, construction included', ['out of memory', 'construction failed'], nflags=['-DVP_OOM'])
dq('far', 'FAR CAP=2 OPS=5 PREFIX=0', 'any position of the buffer: any number < 2^62 of earlier operations', ['any position', 'grown'])
add('C02', 'many', 'c02_deque.cpp', ['MANY=150', 'CAP=1', 'OPS=3', 'PREFIX=0'], ['end', 'popped', 'stolen', 'grown'], DQ + '150 pushes with steals in between, 50 pops, then 3 operations')
dq('long', 'CAP=4 OPS=10 PREFIX=0', 'initial capacity 4, 10 operations', ['grown'], tier='thorough')
OUTSIDE['C02'] = 'longer histories, larger capacities, item types beyond the four kinds (pointer, integer, small aggregate, byte)'
# ---- C06
STK = 'operation sequences on segmented stacks: allocate, free in reverse order, hand over, move, swap; '
def stk(name, d, bounds, extra=(), **kw): add('C06', name, 'c06_stack.cpp', d.split(), ['end'] + list(extra), STK + bounds, **kw)
stk('sizes', 'OPS=4', '4 operations, symbolic sizes', ['segment cached'])
stk('hand', 'OPS=4 HAND=1 BITS=13', '4 operations, symbolic sizes < 8192', ['segment cached', 'handed over', 'moved', 'swapped'])
stk('touch', 'OPS=6 CLASSES=1 TOUCH=1', '6 operations, sizes from boundary classes, contents checked', ['segment cached'])
stk('touch7', 'OPS=7 CLASSES=1 TOUCH=1', '7 operations, sizes from boundary classes, contents checked', ['segment cached'])
stk('touchhand', 'OPS=4 HAND=1 CLASSES=1 TOUCH=1', '4 operations, contents checked', ['handed over', 'moved', 'swapped'])
stk('huge', 'OPS=3 HUGE_=1', 'sizes up to 2^63', [])
stk('oom', 'OPS=4 OOM=2 HAND=1 BITS=13', 'any one of the allocations fails', ['out of memory'], nflags=['-DVP_OOM'])
stk('oomtouch', 'OPS=4 TOUCH=1 OOM=3 CLASSES=1', 'any one of the allocations fails, contents checked', ['out of memory'], nflags=['-DVP_OOM'])
stk('five', 'OPS=5 BITS=13', '5 operations', ['segment cached'], tier='thorough')
stk('wide', 'OPS=4 BITS=16', 'sizes < 65536', ['segment cached'], tier='thorough')
OUTSIDE['C06'] = 'longer sequences; more than two stacks'
# ---- C12
for k in range(8):
    for e in (0, 1):
        if k == 3 and e == 0: continue
        add('C12', f'kind{k}{"t" if e else ""}', 'c12_eventually.cpp', [f'KIND={k}', f'EXC={e}', 'OPS=6'], ['end'] + (['value'] if k != 3 else []) + (['exception'] if e else []), f'every permitted sequence of <=6 operations on contained type kind {k}' + (', with exception storage' if e else ''))
add('C12', 'manual', 'c12_manual.cpp', [], ['end'], 'manual_lifetime of trivial, non-trivial and throwing types')
OUTSIDE['C12'] = 'contained types beyond the eight kinds (integer, reference, void, move-only, throwing, ...), longer sequences'

# ---- C16..C19: the parallel algorithms
AL = ['full length', 'empty', 'no steal', 'one steal', 'end']
def alg(pid, name, src, opts, nmax, nw=2, steals=3, pre=3, extra=(), **kw):
    o = dict(x.split('=') for x in opts.split())
    what = ', '.join([{'0': 'iterators and chunk size', '1': 'iterators', '2': 'range and chunk size', '3': 'range'}[o.get('FORM', '0')],
        'task operation' if o.get('ASYNC') == '1' else 'plain operation', {'0': 'no projection', '1': 'plain projection', '2': 'task projection'}[o.get('PROJ', '0')]]
        + (['any subset of the operations throws'] if 'THROW' in o else []) + (['any one of the first 64 copies of the function objects throws'] if 'COPYTHROW' in o else []) + (['output = input'] if o.get('INPLACE') else []))
    fj(pid, name, src, nw, steals, pre, [f'NMAX={nmax}'] + opts.split(), AL + list(extra), f'symbolic length 0..{nmax}, ' + ('chunk size 1..%d, ' % (nmax + 1) if o.get('FORM', '0') in '02' else '') + 'symbolic elements; ' + what, **kw)
for pid, src in (('C16', 'c16_for_each.cpp'), ('C17', 'c17_map.cpp'), ('C18', 'c18_fold.cpp'), ('C19', 'c19_scan.cpp')):
    ip = pid in ('C17', 'C19'); fs = pid in ('C18', 'C19'); big = 6
    alg(pid, 'iter_chunk', src, 'FORM=0', big + 1)
    alg(pid, 'iter', src, 'FORM=1 PROJ=1', big)
    alg(pid, 'range_chunk', src, 'FORM=2 PROJ=1 ASYNC=1' + (' INPLACE=1' if ip else ''), big if not ip else 5, extra=['two steals'])
    alg(pid, 'range', src, 'FORM=3 PROJ=2 ASYNC=1', 5, extra=['two steals'])
    if ip: alg(pid, 'inplace', src, 'FORM=1 INPLACE=1', big)
    alg(pid, 'task', src, 'FORM=1 ASYNC=1', big)
    alg(pid, 'taskproj', src, 'FORM=0 PROJ=2', 5, extra=['two steals'])
    alg(pid, 'throw_chunk', src, 'FORM=0 THROW=1 ASYNC=1 PROJ=2', 3 if pid == 'C17' else 5, extra=['exception'])
    alg(pid, 'throw', src, 'FORM=1 THROW=1 PROJ=1' + (' INPLACE=1' if ip else ''), 3 if pid == 'C17' else 5, extra=['exception'])
    alg(pid, 'throw_task', src, 'FORM=1 THROW=1 ASYNC=1', 4, extra=['exception'])
    alg(pid, 'throw_plain', src, 'FORM=2 THROW=1', 4, extra=['exception'])
    alg(pid, 'copy_chunk', src, 'FORM=0 COPYTHROW=6', 5, extra=['exception', 'submission failed'])
    alg(pid, 'copy', src, 'FORM=1 COPYTHROW=6 PROJ=1 ASYNC=1', 4, extra=['exception', 'submission failed'])
    alg(pid, 'copy_range_chunk', src, 'FORM=2 COPYTHROW=6 PROJ=1', 4, 2, 1, 2, extra=['exception', 'submission failed'])
    alg(pid, 'copy_range', src, 'FORM=3 COPYTHROW=6', 4, extra=['exception', 'submission failed'])
    alg(pid, 'three_workers', src, 'FORM=1 PROJ=1', 4 if pid == 'C17' else 5, 3, 3, 4, extra=['two steals'])
    alg(pid, 'three_workers_chunk', src, 'FORM=0 PROJ=1 ASYNC=1', 7, 3, 3, 4, extra=['two steals'], tier='thorough')
    alg(pid, 'three_workers_throw', src, 'FORM=0 THROW=1 PROJ=2 ASYNC=1', 4, 3, 3, 4, extra=['two steals', 'exception'], tier='thorough')
    alg(pid, 'long', src, 'FORM=1', 8, 2, 4, 5, tier='thorough')
    OUTSIDE[pid] = 'longer ranges, other iterator and value types (bounded to random access iterators over arrays), more workers or steals than stated'

OUTSIDE['C05'] = OUTSIDE['C07'] = 'more workers, steals or preemptions than stated; other program shapes'

# ---- C08
X = ['exception at join', 'root exception', 'end']
def thr(name, d, bounds, extra=(), nw=2, steals=2, pre=3, **kw): fj('C08', name, 'c08_throw.cpp', nw, steals, pre, d.split(), X + list(extra), 'any subset of the tasks throws; ' + bounds, **kw)
thr('kinds', 'KINDS=6', 'one scope of <=2 children, each forked, called, called eager, forked sync, or forked/called into an exception holder', S + ['one of several', 'eager', 'held exception'])
thr('scopes', 'SCOPES=2', 'two consecutive scopes of <=2 children', S + ['one of several'], steals=3)
thr('tree', 'DEPTH=2 MAXC=2 KINDS=1', 'trees of depth 2', ['no steal', 'one steal', 'one of several'], steals=1)
thr('chain', 'DEPTH=2 MAXC=1 KINDS=6', 'chains of depth 2, all dispatch kinds', S + ['eager', 'held exception'])
thr('outside', 'FIRSTKIND=6 KINDS=2', 'call eager_throw_outside / fork sync_outside first', ['no steal', 'eager'])
fj('C08', 'held', 'c08_throw.cpp', 2, 2, 3, ['FIRSTKIND=4', 'KINDS=2'], ['root exception', 'end', 'held exception', 'no steal', 'one steal'], 'any subset of the tasks throws; children whose exceptions are held by the result holder')
thr('stash', 'STASH=1 KINDS=4', 'the parent stashes an exception too', ['one of several', 'no steal', 'one steal', 'two steals'], nw=3, steals=2, pre=5)
thr('outside_sub', 'FIRSTKIND=6 KINDS=2 SUB', 'as outside, bound with []', ['no steal', 'eager'])
thr('chain_sub', 'DEPTH=2 MAXC=1 KINDS=6 SUB', 'as chain, bound with []', S + ['eager', 'held exception'])
thr('three_workers', 'KINDS=4', 'one scope of <=2 children', S, nw=3, steals=3, pre=6)
thr('wide', 'MAXC=3 KINDS=2', 'one scope of <=3 children', S + ['one of several'], nw=3, steals=3, pre=4)
thr('wide4', 'MAXC=3 KINDS=4', 'one scope of <=3 children', S + ['one of several', 'eager'], nw=3, steals=2, pre=4)
thr('scopes6', 'KINDS=6 SCOPES=2', 'two scopes, all dispatch kinds', S + ['one of several', 'eager', 'held exception'], tier='thorough')
OUTSIDE['C08'] = 'more workers, steals or preemptions than stated; other program shapes'
# ---- C09
def sw(name, d, bounds, extra=(), nw=2, steals=2, pre=3, **kw): fj('C09', name, 'c09_switch.cpp', nw, steals, pre, d.split(), ['already there', 'moved', 'end'] + list(extra), 'tasks switch to any worker at any point; ' + bounds, **kw)
sw('two', '', 'one scope of <=2 children', ['no steal', 'one steal', 'no switch', 'one switch'])
sw('three', 'SWITCHES=2 MAXC=1', 'two switches, three workers', ['no steal', 'one steal', 'two switches'], nw=3)
sw('three2', 'SWITCHES=2 MAXC=2', 'two switches, three workers, two children', ['no steal', 'one steal', 'two switches'], nw=3, steals=1, pre=4)
sw('many', 'SWITCHES=3', 'three switches', ['no steal', 'one steal', 'two switches'])
sw('chain', 'DEPTH=2 SWITCHES=2 MAXC=1', 'chains of depth 2', ['no steal', 'one steal', 'two switches'])
sw('pad', 'PAD=2000 SWITCHES=2', 'frames that need a segment of their own', ['no steal', 'one steal', 'two switches'])
sw('own', 'OWN=1 MAXC=1', 'user-written awaitable that submits the task itself', ['no steal', 'one steal', 'one switch'], nw=3)
sw('own2', 'OWN=1 MAXC=2 SWITCHES=2', 'user-written awaitable that submits the task itself', ['no steal', 'one steal', 'two switches'])
sw('wide', 'MAXC=3', 'one scope of <=3 children', ['no steal', 'one steal', 'one switch'])
sw('tree', 'DEPTH=2 SWITCHES=1 MAXC=2', 'trees of depth 2', ['no steal', 'one steal', 'one switch'], steals=1, pre=2, tier='thorough')
OUTSIDE['C09'] = 'more workers, steals, switches or preemptions than stated; other awaitables than the resume_on one and one user-written'
# ---- C10
def cn(name, d, bounds, extra=(), nw=2, steals=2, pre=3, **kw): fj('C10', name, 'c10_conew.cpp', nw, steals, pre, d.split(), ['end'] + list(extra), 'symbolic numbers of elements; ' + bounds, **kw)
E = ['elements', 'no elements', 'nested', 'no steal']
cn('tracked', 'KIND=0 MAXN=1', 'elements with construction and destruction tracked; any constructor may throw', E + ['one steal', 'constructor threw'])
cn('wide', 'KIND=1 MAXN=2', 'over-aligned elements', E + ['one steal'], steals=1)
cn('odd', 'KIND=2 SCALE=60 MAXN=2', 'odd-sized elements, counts up to 120', E + ['one steal'], steals=1)
cn('bytes', 'KIND=3 SCALE=1500 MAXN=1', 'bytes, requests larger than the segment', E + ['one steal'], steals=1)
for k in range(4): cn(f'huge{k}', f'HUGE_=1 DEPTH=0 KIND={k}', 'any 64-bit count, also impossible ones', ['out of memory'], nw=1)
OUTSIDE['C10'] = 'more requests, deeper nesting, element kinds beyond the four'
# ---- C11
for k, t in enumerate(('integer', 'reference', 'void', 'move-only', 'user-defined')):
    add('C11', f'kind{k}', 'c11_future.cpp', [f'KIND={k}', 'OPS=5'], ['end', 'value', 'exception', 'broken', 'empty', 'detached', 'moved', 'destroyed', 'refused in worker'], f'result type: {t}; <=5 operations on two futures')
add('C11', 'fail', 'c11_future.cpp', ['KIND=0', 'FAIL=1'], ['end', 'refused'], 'the scheduler refuses the submission by an exception')
add('C11', 'fail4', 'c11_future.cpp', ['KIND=4', 'FAIL=1'], ['end', 'refused'], 'the scheduler refuses the submission by an exception')
add('C11', 'defer', 'c11_future.cpp', ['KIND=0', 'DEFER=1'], ['end', 'detached early', 'value'], 'the task runs after the future is returned')
add('C11', 'oom', 'c11_future.cpp', ['KIND=0', 'OOM=2'], ['end', 'out of memory', 'value'], 'any one of the allocations fails', nflags=['-DVP_OOM'])
add('C11', 'oom4', 'c11_future.cpp', ['KIND=4', 'OOM=2'], ['end', 'out of memory', 'value'], 'any one of the allocations fails', nflags=['-DVP_OOM'])
OUTSIDE['C11'] = 'longer sequences of operations; result types beyond the five kinds'
# ---- C20
add('C20', 'step', 'c20_random.cpp', ['PART=0'], ['end'], 'step, seeding, copying, default construction: every one of the 2^256 states, no bound')
add('C20', 'jump', 'c20_random.cpp', ['PART=1'], ['end'], 'jump: all 2^256 states (linear over GF(2), decided on the term for every state)')
add('C20', 'long_jump', 'c20_random.cpp', ['PART=2'], ['end'], 'long_jump: all 2^256 states')
OUTSIDE['C20'] = 'nothing in the state space: every state is covered; the reference is the published C source and its characteristic polynomial'
# ---- C22
W = ['registered', 'registered twice', 'unregistered', 'foreign refused', 'unregistered refused', 'end']
add('C22', 'ops4', 'c22_worker.cpp', ['OPS=4'], W, 'every sequence of 4 operations of two threads')
add('C22', 'ops5', 'c22_worker.cpp', ['OPS=5'], W, 'every sequence of 5 operations of two threads')
add('C22', 'oom', 'c22_worker.cpp', ['OPS=4', 'OOM=1'], W + ['out of memory'], 'any one of the allocations fails', nflags=['-DVP_OOM'])
add('C22', 'oom2', 'c22_worker.cpp', ['OPS=3', 'OOM=2'], ['end', 'out of memory'], 'any two of the allocations fail', nflags=['-DVP_OOM'])
OUTSIDE['C22'] = 'longer sequences, more than two threads'
# ---- C23, C24
for k in range(5): fj('C23', f'kind{k}', 'c23_just.cpp', 2, 2, 3, [f'KIND={k}'], ['end', 'value', 'exception', 'no steal', 'one steal', 'two steals'], f'callable kind {k} (plain and task functions, values, references, void, move-only)')
for k in (0, 1, 3): fj('C23', f'sub{k}', 'c23_just.cpp', 2, 2, 3, [f'KIND={k}', 'SUB'], ['end', 'value', 'exception', 'no steal', 'one steal', 'two steals'], f'callable kind {k} (plain and task functions, values, references, void, move-only), bound with []')
for n in (2, 3): fj('C24', f'workers{n}', 'c24_defer.cpp', n, 2, 3, [], ['end', 'plain', 'by exception', 'task by exception', 'no steal', 'one steal'], 'scopes left by return, exception or completion, several actions')
OUTSIDE['C23'] = 'callables beyond the five kinds'
OUTSIDE['C24'] = 'program shapes beyond the harness'
# ---- C21
def nu(name, d, bounds, extra=(), **kw): add('C21', name, 'c21_numa.cpp', d.split(), ['end'] + list(extra), bounds, **kw)
TP = 'machine with two packages, with or without a cache level, memory at packages or root, four processing units; every placement of %d workers; both strategies'
for n in (1, 2, 3, 4): nu(f'place{n}', f'HW=1 NWRK={n}', TP % n, ['two distances'] if n > 2 else [])
nu('fail', 'HW=1 NWRK=2 FAIL=1', 'any one kind of hwloc call fails', ['failure reported'])
for n in (1, 4): nu(f'nohwloc{n}', f'HW=0 NWRK={n}', f'without hwloc, {n} workers')
VS = 'any subset of the workers holds one task, any two-level placement around the thief, arbitrary random choices for the first %d draws of each attempt (round robin afterwards)'
for n, p in ((1, 2), (2, 2), (3, 2), (4, 1)): add('C21', f'steal{n}', 'c21_steal.cpp', [f'NWRK={n}', f'PICKS={p}'], ['end', 'nothing to steal'] + (['stolen'] if n > 1 else []), f'{n} workers; ' + VS % p)
add('C21', 'steal3x3', 'c21_steal.cpp', ['NWRK=3', 'PICKS=3'], ['end', 'nothing to steal', 'stolen'], '3 workers; ' + VS % 3, tier='thorough')
OUTSIDE['C21'] = 'more than four workers, deeper machine topologies, real cpusets (hwloc itself is modelled)'

# ---- C01 (axiomatic: every execution the C++ memory model allows)
AXT = 'symbolic execution of the LLVM IR of the real headers, all executions of the C++ memory model (RC11) encoded axiomatically and decided by z3 (bounded)'
AXO = 'reading one\'s own future (load buffering, which RC11 excludes); counterexamples are solver models of an execution and are reported with their events, they are not replayed natively; '
TECH = {}
TECH['C01'] = AXT
DQA = 'one owner, %d thief/thieves with %d steal(s) each, %d item(s) before, initial capacity %d, owner: %s; '
def da(name, pre, cap, ops, thieves=1, steals=1, d='', extra='', expect=(), **kw):
    add('C01', name, 'c01_deque.cpp', [f'PRE={pre}', f'CAP={cap}', f'OPSTR="{ops}"', f'THIEVES={thieves}', f'STEALS={steals}'] + d.split(), ['end', 'stolen', 'popped'][:2 if 'p' not in ops + '?' * 0 and '?' not in ops else 3] + list(expect), DQA % (thieves, steals, pre, cap, ops) + 'P push, p pop, ? either; ' + extra, native=False, **kw)
LO = ['lost', 'pop on empty']
da('one', 1, 2, 'p', expect=LO[1:] + ['lost'])
da('two', 1, 2, 'p', 2, expect=LO)
da('pushpop', 0, 2, 'Pp')
da('last2', 2, 2, 'pp', 1, 2)
da('last3', 3, 4, 'pp', 2, expect=LO)
da('thieves3', 2, 2, 'pp', 3, d='NOPAY', expect=LO)
da('grow', 1, 1, 'P', expect=['left'])
da('growpop', 1, 1, 'Pp')
da('grow2', 2, 2, 'pPP', 2, d='NOPAY', expect=['left', 'lost'])
da('shift', 2, 2, 'Ppp', d='SHIFT=2', extra='positions shifted by 2')
da('choice', 1, 4, '???')
da('gcc', 1, 2, 'p', 2, d='GCCFENCE PTR', extra='the full fence other compilers use, pointer items', expect=LO)
da('wrap', 2, 2, 'pP', 1, 2, expect=['left', 'lost'])
da('choicegrow', 1, 1, '???', d='NOPAY', expect=['left', 'lost'], tier='thorough')
da('growtwice', 1, 1, 'PPp', 1, 2, d='NOPAY', expect=['left'], tier='thorough')
da('last3x3', 3, 4, 'pp', 1, 3, d='NOPAY', expect=LO, tier='thorough')
OUTSIDE['C01'] = AXO + 'more thieves, operations, items or growth steps than stated; item types other than 64-bit integers and pointers'

# ---- C03
TECH['C03'] = AXT
def li(name, prods, pushes, takes, d='', spin=3, **kw):
    add('C03', name, 'c03_list.cpp', [f'PRODS={prods}', f'PUSHES={pushes}', f'TAKES={takes}'] + d.split(), ['end', 'taken during', 'none taken during', 'all taken during'], f'{prods} producer(s) submitting {pushes} entries each, the owner takes the list {takes} time(s) meanwhile, each entry is destroyed when visited; {d}', native=False, args=[f'--ax-spin={spin}'], **kw)
li('two', 2, 1, 1, spin=5)
li('take2', 2, 1, 2)
li('order', 1, 2, 2)
li('order2', 2, 2, 1, 'LESS=1')
li('context', 2, 1, 2, 'KIND=1')
li('three', 3, 1, 1)
li('order3', 1, 3, 2, tier='thorough', spin=4)
li('spin', 2, 1, 2, spin=8, tier='thorough')
li('context2', 1, 2, 2, 'KIND=1', tier='thorough')
OUTSIDE['C03'] = AXO + 'more producers, entries and takes than stated; executions in which one compare-exchange is retried more often than the bound (--ax-spin); entries whose address is reused while the list holds a stale pointer to it'

# ---- C04
TECH['C04'] = AXT
def jo(name, kids, d='', bounds='', **kw):
    add('C04', name, 'c04_join.cpp', [f'KIDS={kids}'] + d.split(), ['end', 'task continues', 'first child continues'] + (['other child continues'] if kids > 1 else []), f'{kids} outstanding children, each finishing on its own worker, against the join of the task; any number of children finished before (< 2^32); ' + bounds, native=False, **kw)
jo('one', 1); jo('two', 2); jo('three', 3)
jo('away2', 2, 'FIRST=0', 'nobody holds the stack of the task')
jo('throw1', 2, 'THROW=2', 'one child throws'); jo('throw2', 2, 'THROW=3 READY=0', 'both children throw')
jo('many', 1, 'MANY=66000', 'counters brought to 66000 through the interface')
jo('throw2r', 2, 'THROW=3', 'both children throw', tier='thorough')
jo('away3', 3, 'FIRST=0', 'nobody holds the stack of the task', tier='thorough')
jo('four', 4, 'READY=0', tier='thorough')
OUTSIDE['C04'] = AXO + 'more than three outstanding children (four in the thorough tier); the surrounding coroutines (the protocol functions final_await_suspend, join_awaitable and frame are driven directly on a frame; whole programs are covered at task-boundary interleaving by C05, C07, C08)'

# ---- C13
TECH['C13'] = AXT
def ev(name, d, bounds, spin=4, exp=('end',), **kw): add('C13', name, 'c13_event.cpp', d.split(), list(exp), 'any number of notifications before (all 2^32 epochs); ' + bounds, native=False, args=[f'--ax-spin={spin}'], **kw)
WC = ('end', 'waited', 'cancelled')
for n in ('a', 'o', 'aa', 'oa'): ev('one_' + n, f'NOTES="{n}"', f'one waiter, notifications {n} (a notify_all, o notify_one)', exp=WC)
ev('two', 'WAITERS=2', 'two waiters, one notify_all', exp=WC)
ev('parties', 'PARTIES=2 NOTES="o"', 'one waiter, two notifying threads', exp=WC)
ev('parties2', 'PARTIES=2 NOTES="oo"', 'one waiter, two notifying threads, two notifications each', exp=WC)
ev('each2', 'MODE=4 WAITERS=2', 'two waiters, two notify_one once both have announced themselves', exp=WC)
ev('await', 'MODE=1', 'await(condition), one notify_all'); ev('await2', 'MODE=1 WAITERS=2', 'two waiters in await(condition), one notify_all', spin=3)
ev('await_oa', 'MODE=1 NOTES="oa"', 'await(condition), two notifications'); ev('awaitp', 'MODE=1 PARTIES=2 NOTES="o"', 'await(condition), two notifying threads', spin=3)
ev('throw', 'MODE=3 NOTES="aa"', 'await with a condition that may throw', exp=('end', 'threw'), spin=3)
ev('three', 'WAITERS=3', 'three waiters, one notify_all', exp=WC, tier='thorough')
ev('each3', 'MODE=4 WAITERS=3', 'three waiters, three notify_one once all have announced themselves', exp=WC, tier='thorough')
ev('throw2', 'MODE=3 NOTES="aa" WAITERS=2', 'two waiters, conditions that may throw', exp=('end', 'threw'), spin=3, tier='thorough')
OUTSIDE['C13'] = AXO + 'more waiters and notifications than stated; more than 2^32 notifications between an announcement and the wait (the epoch has 32 bits); the kernel side of the wait: a thread that compares equal sleeps until a later notification of that address, as futex does'

# ---- C14, C15: whole pools
TECH['C14'] = TECH['C15'] = 'symbolic execution of the LLVM IR of the real pools with all their threads: every choice of the scheduler is a symbolic variable (bounded preemptions), states that differ only in past choices are merged, z3 decides feasibility and assertions'
PTXT = {0: 'unit_pool', 1: 'busy_pool', 2: 'lazy_pool'}
MTXT = ['a task with a forked child, waited for', 'two tasks submitted one after the other, waited for in reverse', 'a detached task, then destruction', 'nothing submitted', 'a second task once the first is finished (idle workers may sleep)', 'a child that blocks until the rest of its parent was stolen and run', 'a task that moves to a chosen worker', 'move construction and move assignment of pools', 'a child that throws', 'two threads submit', 'two nested blocking children, so that all three workers are needed', 'a task that submits itself again (unit_pool: detached, while the pool is being destroyed)']
def pool(pid, kind, mode, pre, nw=2, extra='', args=(), tier='quick', note=''):
    nm = f"{PTXT[kind][:4]}_{mode}_w{1 if kind == 0 else nw}_p{pre}" + ('s' if 'NOSTART' in extra else '')
    exp = ['waited'] if 'STOP=0' in extra else ['end', 'waited']
    add(pid, nm, 'c15_pool.cpp', [f'POOL={kind}', f'MODE={mode}', f'PRE={pre}', f'NW={nw}', 'LF_VP_STEAL_ATTEMPTS=1'] + extra.split(), exp,
        f'{PTXT[kind]}, {1 if kind == 0 else nw} workers, {MTXT[mode]}; every interleaving at (before, and after writing) atomic operations, waits and wakes with <={pre} preemptions' + note + ' (any number of switches at blocking), every choice of the worker that receives a submission, symbolic arguments', tier=tier, native=False, args=['--alternate-victims'] + (list(args) or ['--preempt-after']))
LZ = ['--preempt=lazy_pool.hpp,numa_context.hpp,intrusive_list.hpp,deque.hpp']
LZT = ', preemptions inside the worker loop of the pool and at the queues and deques, from the submission to the end of the wait'
pool('C14', 2, 5, 2); pool('C14', 2, 4, 1); pool('C14', 2, 3, 2); pool('C14', 2, 1, 1); pool('C14', 2, 2, 2)
pool('C14', 2, 10, 1, 3, 'NOSTART=1 STOP=0', LZ, note=LZT)
pool('C14', 2, 3, 1, 3)
pool('C14', 2, 5, 3, tier='thorough'); pool('C14', 2, 4, 2, tier='thorough'); pool('C14', 2, 9, 1, tier='thorough'); pool('C14', 2, 3, 3, tier='thorough')
pool('C14', 2, 5, 2, 3, 'NOSTART=1 STOP=0', LZ, tier='thorough', note=LZT); pool('C14', 2, 0, 1, 3, tier='thorough'); pool('C14', 2, 10, 2, 3, 'NOSTART=1 STOP=0', LZ, tier='thorough', note=LZT)
for m in (0, 1, 2, 3, 4, 8, 9, 11): pool('C15', 0, m, 2)
for m in (0, 1, 2, 3, 5, 6, 8): pool('C15', 1, m, 1)
for m in (0, 2, 3, 8): pool('C15', 2, m, 2 if m in (2, 3) else 1)
pool('C15', 1, 7, 1); pool('C15', 2, 7, 0); pool('C15', 2, 6, 1); pool('C15', 1, 11, 1, 1); pool('C15', 2, 9, 0); pool('C15', 1, 9, 0); pool('C15', 1, 3, 1, 3); pool('C15', 1, 0, 0, 3); pool('C15', 2, 0, 0, 3); pool('C15', 1, 2, 2, 1); pool('C15', 2, 2, 2, 1)
for k in (1, 2):
    for m in (0, 1, 4, 5, 6, 8): pool('C15', k, m, 2, tier='thorough')
    pool('C15', k, 9, 1, tier='thorough'); pool('C15', k, 0, 1, 3, tier='thorough'); pool('C15', k, 0, 3, tier='thorough')
pool('C15', 2, 7, 1, tier='thorough')
OUTSIDE['C14'] = OUTSIDE['C15'] = 'more workers, tasks and preemptions than stated; weak-memory behaviour of the pools (interleavings are sequentially consistent; the queues, the event counter, the deque and the join protocol have their own checks under the C++ memory model, C01, C03, C04, C13); an idle worker makes one attempt to steal per round instead of many (hook LF_VP_STEAL_ATTEMPTS, /repo 2629d68) and tries its victims in a fixed order; libstdc++\'s spin before a wait looks once; counterexamples are schedules with inputs and are not replayed natively'
# ---- fork-join programs on real threads: worker switches inside the runtime
def afj(pid, name, prog, pre, nw, text, exp=('end', 'waited'), **kw):
    add(pid, name, 'auto_fj.cpp', [f'PROG={prog}', f'PRE={pre}', f'NW={nw}'], list(exp), f'{text}; {nw} workers on threads, every interleaving at (before, and after writing) atomic operations of the runtime with <={pre} preemptions (any number of switches at blocking), symbolic arguments', native=False, args=['--preempt-after'], **kw)
AF = {0: 'two forked children and a call', 1: 'a forked child that forks', 2: 'two consecutive scopes', 3: 'any subset of two forked children throws, then the parent', 4: 'array on the stack of the task, two deferred actions, two forked children', 5: 'three children that move to another worker', 6: 'frames of 1500 bytes, two forked children and a call', 7: 'a loop of three forks', 8: 'a submitted task with a forked child, its future read, waited for and read, dropped or detached'}
for m in (0, 1, 2, 7): afj('C05', f'thr_{m}', m, 2, 2, AF[m])
afj('C05', 'thr_0_w3', 0, 1, 3, AF[0])
for m in (0, 1, 2, 7): afj('C05', f'thr_{m}_w3', m, 2, 3, AF[m], tier='thorough'); afj('C05', f'thr_{m}_p3', m, 3, 2, AF[m], tier='thorough')
TH = ['waited', 'threw', 'value', 'end']
for pid, nm, m, exp in (('C07', 'frames', 6, None), ('C07', 'nested', 1, None), ('C08', 'throw', 3, TH), ('C09', 'move', 5, None), ('C10', 'array', 4, None), ('C24', 'defer', 4, None), ('C11', 'future', 8, ['get', 'wait', 'drop', 'detach', 'waited', 'end'])):
    e = exp or ('end', 'waited')
    afj(pid, 'thr_' + nm, m, 2, 2, AF[m], e); afj(pid, f'thr_{nm}_w3', m, 1, 3, AF[m], e, tier='quick' if m in (8, 6) else 'thorough'); afj(pid, f'thr_{nm}_p3', m, 3, 2, AF[m], e, tier='thorough')
for pid, nm, m, t in (('C16', 'chunk', 9, 'for_each over 4 symbolic elements, chunks of 1'), ('C16', 'plain', 13, 'for_each over 4 symbolic elements'), ('C17', 'chunk', 10, 'map over 4 symbolic elements, chunks of 1'), ('C18', 'chunk', 11, 'fold over 4 symbolic elements with concatenation, chunks of 1'), ('C19', 'chunk', 12, 'scan over 4 symbolic elements with concatenation, chunks of 1'), ('C19', 'task', 14, 'scan over 4 symbolic elements with a task function, chunks of 1')):
    for pre, nw, n in ((2, 2, 4), (1, 3, 4), (3, 2, 3)):
        add(pid, f'thr_{nm}' + ('' if (pre, nw) == (2, 2) else f'_w{nw}_p{pre}'), 'auto_fj.cpp', [f'PROG={m}', f'PRE={pre}', f'NW={nw}', f'LEN={n}'], ['end', 'waited'], f'{t if n == 4 else t.replace("4 sym", "3 sym")}; {nw} workers on threads, every interleaving at (before, and after writing) atomic operations of the runtime with <={pre} preemptions (any number of switches at blocking)', native=False, args=['--preempt-after'], tier='quick' if (pre, nw) == (2, 2) and m not in (13, 14) else 'thorough')
THO = '; the programs with worker switches inside the runtime (configurations thr_*) are sequentially consistent interleavings and few shapes, their counterexamples are schedules and are not replayed natively'
for pid in ('C05', 'C07', 'C08', 'C09', 'C10', 'C11', 'C16', 'C17', 'C18', 'C19', 'C24'): OUTSIDE[pid] += THO
HOOKS = {'guard': 'LF_VP_STEAL_ATTEMPTS', 'enable': '-DLF_VP_STEAL_ATTEMPTS=1 when the harnesses of C14 and C15 are compiled', 'source_commits': ['2629d68']}
# ---- C26
def mem(name, prog, nw, n, period, pad, leaf, text, tier='quick', exp=()):
    add('C26', name, 'c26_memory.cpp', [f'PROG={prog}', f'NW={nw}', f'REPEATS={n}', f'PERIOD={period}', f'PAD={pad}', f'LEAF={leaf}', 'FACTOR=3'], ['no steal', 'a steal per scope', 'end'] + list(exp), f'{text}; {nw} workers, any number of steals and preemptions, every schedule that repeats {period} decisions for ever; heap bytes held at every task boundary <= 3 x workers x what the serial execution held', tier=tier)
SG = ['several segments']
for nm, pr, t in (('scopes', 0, 'scopes one after the other, each with a task that has a scope of its own'), ('move', 3, 'scopes one after the other, the task changing workers after each'), ('throw', 4, 'scopes one after the other with tasks that throw')):
    mem(nm + '_small', pr, 2, 20, 7, 8, 8, t + ', small frames, 20 times'); mem(nm, pr, 2, 20, 7, 2000, 2000, t + ', frames of 2000 bytes, 20 times', exp=SG)
    mem(nm + '_w3', pr, 3, 16, 5, 2000, 2000, t + ', frames of 2000 bytes, 16 times', exp=SG); mem(nm + '_long', pr, 3, 40, 7, 2000, 2000, t + ', frames of 2000 bytes, 40 times', tier='thorough', exp=SG)
mem('deep', 1, 2, 12, 8, 2000, 8, 'a chain of 12 scopes inside each other, frames of 2000 bytes', exp=SG); mem('deep_w3', 1, 3, 10, 5, 2000, 8, 'a chain of 10 scopes inside each other, frames of 2000 bytes', exp=SG)
mem('leaf', 2, 2, 12, 8, 2000, 200000, 'as deep, each level first calling a task with a frame of 200000 bytes', exp=SG)
mem('leaf_w3', 2, 3, 10, 5, 2000, 200000, 'as leaf', exp=SG); mem('deep_long', 1, 3, 30, 7, 2000, 8, 'a chain of 30 scopes', tier='thorough', exp=SG); mem('leaf_long', 2, 3, 30, 7, 2000, 200000, 'as leaf, 30 scopes', tier='thorough', exp=SG)
OUTSIDE['C26'] = 'other programs, schedules that do not repeat themselves, other constants (the bound is 3 x workers x serial, for frames of the sizes stated; for much smaller frames the constant of the statement is larger since a stack has a least size); memory outside the task stacks'
# ---- C25: the same harnesses over the header tree and over the single header
TWINS = {'C01': 'one|last2|grow|pushpop', 'C02': 'mixed|oom', 'C03': 'two|order', 'C04': 'two|throw1', 'C05': 'fib2|rets', 'C06': 'touch|touchhand|huge|oomtouch', 'C07': 'small|chain', 'C08': 'kinds|outside|stash', 'C09': 'two|own', 'C10': 'huge0|huge1',
         'C11': 'kind0|kind2|fail', 'C12': 'kind0t|kind1t|kind2t|kind4t|manual', 'C13': 'one_aa|two|throw', 'C14': 'lazy_3_w2_p2', 'C15': 'unit_2.*|unit_9.*|busy_0_w2.*|busy_2_w1.*|lazy_0_w2.*|lazy_2_w1.*', 'C16': 'iter_chunk|range|throw', 'C17': 'iter_chunk|range|throw', 'C18': 'iter_chunk|range|throw',
         'C19': 'iter_chunk', 'C20': 'step', 'C21': 'place2|nohwloc4|fail|steal2', 'C22': 'ops4|oom2', 'C23': 'kind.*', 'C24': 'workers2'}
import re
for p_, r_ in TWINS.items():
    for d_ in CONFIGS[p_]:
        if d_['tier'] == 'quick':
            t_ = 'quick' if re.fullmatch(r_, d_['name']) else 'thorough'
            CONFIGS.setdefault('C25', []).append(dict(d_, name=p_ + '_' + d_['name'], tier=t_, twin=True))
TECH['C25'] = 'differential symbolic execution: every harness is executed over the header tree and over the single header, z3 decides the assertions for both; a verdict or a reached behaviour that differs is a violation'
OUTSIDE['C25'] = 'behaviour that no harness of the other properties observes; the bounds and limits of the respective configuration'
