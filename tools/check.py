#!/usr/bin/env python3
"""Decide one property: check.py <id> [--only=CONFIG] [--tier=quick|thorough] [--keep]

For every configuration of the property (tools/configs.py):
  1. the harness is compiled against /repo/include with clang to LLVM IR (regenerated on every run),
  2. the engine executes it symbolically; each assertion and each memory access is decided by the solver for all values of
     the symbolic inputs and schedule choices within the bounds,
  3. counterexamples are replayed against the natively compiled harness; sampled completed paths are replayed too and have
     to agree with the engine (same result, same sequence of labels).
Exit 0: held; 1: VIOLATION; 2: no answer.
"""
import json, os, subprocess, sys, time, pathlib, shutil, random, tempfile, re
from concurrent.futures import ThreadPoolExecutor
ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('VP_REPO', '/repo'))
sys.path.insert(0, str(ROOT / 'tools'))
import configs
ENGINE = ROOT / 'build' / 'vpengine'
INC = ['-I' + str(REPO / 'include'), '-I' + str(ROOT / 'harness')]
CLANG = ['clang++', '-std=c++23', '-O1', '-g1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-Wno-everything', '-c']
GXX = ['g++', '-std=c++23', '-O1', '-g1', '-w']
ENV = dict(os.environ, ASAN_OPTIONS='allocator_may_return_null=1:detect_leaks=0:handle_abort=0:alloc_dealloc_mismatch=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=1')

def sh(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, text=True, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        f = lambda x: (x.decode(errors='replace') if isinstance(x, bytes) else x) or ''
        return 'timeout', f(e.stdout), f(e.stderr)

def ensure_engine():
    src = list((ROOT / 'engine').glob('*.cpp')) + list((ROOT / 'engine').glob('*.h'))
    if ENGINE.exists() and all(ENGINE.stat().st_mtime >= s.stat().st_mtime for s in src): return
    rc, o, e = sh(['bash', str(ROOT / 'setup.sh')])
    if rc != 0: print(o, e); print('engine does not build'); sys.exit(2)

def inputs_file(path, inputs):
    with open(path, 'w') as f:
        for n, v in inputs:
            name = n.rsplit(':', 1)[0]
            f.write(f'{name} {int(v, 16) if isinstance(v, str) and v.startswith("0x") else int(v)}\n')

def single_header(work):
    """-> include directory in which every header of the library is the amalgamated single header"""
    d = work / 'single'
    for h in (REPO / 'include').rglob('*.hpp'):
        f = d / h.relative_to(REPO / 'include'); f.parent.mkdir(parents=True, exist_ok=True)
        f.write_text(f'#include "{REPO}/single_header/libfork.hpp"\n')
    return ['-I' + str(d), '-I' + str(ROOT / 'harness')]

class Cfg:
    def __init__(self, d, tier, work, inc=None):
        self.d = d; self.name = d['name'] + ('.single' if inc else ''); self.tier = tier; self.work = work; self.native = None; self.inc = inc or INC
        self.defs = ['-D' + x for x in d.get('defs', [])]
        self.src = ROOT / 'harness' / d['src']
    def build(self):
        bc = self.work / (self.name + '.bc')
        rc, o, e = sh(CLANG + self.inc + self.defs + self.d.get('cflags', []) + [str(self.src), '-o', str(bc)], 300)
        if rc != 0: return 'harness does not compile: ' + (e or '')[-1500:]
        self.bc = bc
    def run(self, jobs, limit):
        out = self.work / (self.name + '.json')
        t = time.time()
        cmd = [str(ENGINE), str(self.bc), f'--out={out}', f'--jobs={jobs}', f'--time={limit}'] + self.d.get('args', [])
        rc, o, e = sh(cmd, limit + 60)
        self.engine_rc = rc
        try: self.res = json.load(open(out))
        except Exception as ex: return f'engine failed (rc {rc}): {(e or "")[-800:]}'
        if self.res['errors'] and not self.res['violations']: return 'engine: ' + '; '.join(self.res['errors'])[:1500]
    def build_native(self):
        if self.native or self.d.get('native', True) is False: return self.native
        # reproduce memory errors with the address sanitizer, uninitialised reads with valgrind
        fl = self.d.get('nflags', [])
        a = self.work / (self.name + '.asan')
        rc, o, e = sh(GXX + self.inc + self.defs + fl + ['-fsanitize=address,undefined', '-fno-sanitize=vptr', '-DVP_ASAN', '-Wl,--wrap=malloc', str(self.src), str(ROOT / 'harness/vp_native.cpp'), '-lpthread', '-o', str(a)], 300)
        if rc != 0: self.nerr = 'native build failed: ' + e[-1500:]; return None
        self.native = a; return a
    def replay(self, inputs, path):
        """-> (kind, detail, labels); kind: end | violation | assume | mismatch"""
        inputs_file(path, inputs)
        rc, o, e = sh([str(self.native)], 30, dict(ENV, VP_REPLAY=str(path)))
        labels = [l[6:] for l in o.splitlines() if l.startswith('REACH ')]
        bad = 'runtime error:' in e or 'ERROR: AddressSanitizer' in e
        if rc == 0 and 'END' in o and not bad: return 'end', '', labels
        if rc == 77: return 'assume', e[-500:], labels
        if rc == 78: return 'mismatch', e[-500:], labels
        return 'violation', f'rc={rc} ' + e[-3000:], labels
    def valgrind(self, path):
        b = self.work / (self.name + '.plain')
        if not b.exists():
            rc, o, e = sh(GXX + self.inc + self.defs + self.d.get('nflags', []) + ['-Wl,--wrap=malloc', str(self.src), str(ROOT / 'harness/vp_native.cpp'), '-lpthread', '-o', str(b)], 300)
            if rc != 0: return False, e[-500:]
        rc, o, e = sh(['valgrind', '-q', '--error-exitcode=99', str(b)], 120, dict(ENV, VP_REPLAY=str(path)))
        return rc == 99, e[-3000:]

def known(pid):
    f = ROOT / 'known_findings.jsonl'; r = []
    if f.exists():
        for l in f.read_text().splitlines():
            if l.strip().startswith('{'):
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'known': r.append(d)
    return r

def main():
    pid = sys.argv[1]
    only = next((a[7:] for a in sys.argv if a.startswith('--only=')), None)
    tier = next((a[7:] for a in sys.argv if a.startswith('--tier=')), os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1')); rnd = random.Random(seed)
    t0 = time.time(); ensure_engine()
    work = pathlib.Path(tempfile.mkdtemp(prefix=f'vp_{pid}_'))
    evd = ROOT / 'evidence'; evd.mkdir(exist_ok=True)
    try: rc = decide(pid, only, tier, seed, rnd, t0, work, evd)
    finally:
        if '--keep' not in sys.argv: shutil.rmtree(work, ignore_errors=True)
        else: print('kept', work)
    sys.exit(rc)

def decide(pid, only, tier, seed, rnd, t0, work, evd):
    todo = [Cfg(d, tier, work) for d in configs.CONFIGS[pid] if (tier == 'thorough' or d.get('tier', 'quick') == 'quick') and not (tier == 'thorough' and d.get('tier') == 'quickonly') and (not only or re.fullmatch(only, d['name']))]
    limit = 420 if tier == 'quick' else 3000
    errors, viol, rows, validated, knowns = [], [], [], 0, []
    par = 4; jobs = 3
    if len(todo) == 1: par, jobs = 1, 8
    elif len(todo) == 2: par, jobs = 2, 4
    single = single_header(work) if any('twin' in c.d for c in todo) else None
    def work_one(c):
        if 'twin' in c.d: # the same harness over the header tree and over the single header
            t = c.tree = Cfg(c.d, tier, work); c.inc = single; c.name += '.single'
            e = t.build() or t.run(jobs, limit)
            if e: return c, 'header tree: ' + e, None
            if t.res['violations'] and c.d.get('native', True) is not False and not t.build_native(): return c, t.nerr, None
        e = c.build()
        if not e: e = c.run(jobs, limit)
        if e: return c, e, None
        r = []
        n = 4 if tier == 'quick' else 12
        reps = [x for x in c.res.get('replays', [])]
        rnd2 = random.Random(seed); rnd2.shuffle(reps)
        if c.res['violations'] or reps:
            if c.d.get('native', True) is not False and not c.build_native(): return c, c.nerr, None
        if c.native:
            for i, x in enumerate(reps[:n]):
                for _ in range(3): # a failure has to be deterministic
                    k, det, labels = c.replay(x['inputs'], work / f'{c.name}.sample{i}.txt')
                    if k == 'end': break
                r.append((k, det, labels, x))
        return c, None, r
    with ThreadPoolExecutor(par) as ex: results = list(ex.map(work_one, todo))
    for c, e, samples in results:
        if e: errors.append(f'{c.name}: {e}'); continue
        R = c.res; differ = c
        if 'twin' in c.d: # what both do, wrong or not, is not a difference
            T = c.tree.res
            if R['violations'] and T['violations']: print(f'{c.name}: the header tree and the single header fail alike'); rows.append((c, R)); continue
            if T['violations']: differ = c.tree
            elif not R['violations'] and sorted(R['reach']) != sorted(T['reach']):
                path = evd / f'{pid}.{c.name}.replay.txt'; inputs_file(path, [])
                viol.append((c.name, {'kind': 'difference', 'msg': f'reached labels: tree {sorted(T["reach"])}, single header {sorted(R["reach"])}', 'where': ''}, path, ''))
        for c, R, v in [(differ, differ.res, v) for v in differ.res['violations']]:
            path = evd / f'{pid}.{c.name}.replay.txt'
            ok, how = True, ''
            if c.native:
                k, det, labels = c.replay(v['inputs'], path)
                if k == 'violation': how = 'reproduced natively: ' + det
                else:
                    ok = False; how = f'native replay ended with {k}: {det}'
                    if k == 'end' and v['kind'] == 'undef':
                        ok, d2 = c.valgrind(path); how = ('reproduced with valgrind: ' if ok else 'not reproduced with valgrind: ') + d2
            else:
                inputs_file(path, v['inputs'])
            with open(path, 'a') as f:
                f.write(f"# property {pid} configuration {c.name}: {v['kind']}: {v['msg']}\n# at {v['where']}\n")
                for s in v['stack']: f.write('#   ' + s + '\n')
                for k2 in v:
                    if k2 not in ('kind', 'msg', 'where', 'stack', 'inputs'): f.write(f'# {k2}: ' + json.dumps(v[k2]) + '\n')
                f.write('# harness: ' + c.d['src'] + ' ' + ' '.join(c.defs) + '\n')
                for l in how.splitlines(): f.write('# ' + l + '\n')
            kf = next((k for k in known(pid) if re.search(k['config'], c.name) and k['kind'] == v['kind'] and k['msg'] in v['msg'] and k['where'] in v['where']), None)
            if kf: knowns.append(kf['what'])
            elif ok: viol.append((c.name, v, path, how))
            else: errors.append(f"{c.name}: counterexample ({v['kind']}: {v['msg']} at {v['where']}) does not reproduce natively: {how[:600]}")
        if differ is not c: rows.append((c, R)); continue
        if not R['violations']:
            miss = [l for l in c.d.get('expect', []) if l not in R['reach']]
            if miss: errors.append(f'{c.name}: labels not reached (vacuous): {miss}')
        for k, det, labels, x in samples or []:
            if k == 'end' and labels == x['labels']: validated += 1
            elif k == 'violation':
                path = evd / f'{pid}.{c.name}.sample.replay.txt'; inputs_file(path, x['inputs'])
                viol.append((c.name, {'kind': 'native', 'msg': 'real code fails on a path', 'where': ''}, path, det))
            elif not R['violations']: errors.append(f'{c.name}: engine and native execution disagree ({k} {det[:300]}): native {labels} engine {x["labels"]}')
        rows.append((c, R))
    tot = lambda k: sum(int(R.get(k, 0)) for _, R in rows)
    fns = {}
    for _, R in rows:
        for f, n in R['functions'].items():
            if 'lf::' in f: fns[f] = fns.get(f, 0) + n
    cov = {
        'states': tot('paths') + tot('forks'), 'transitions': tot('instrs'), 'traces_validated_against_impl': validated,
        'samples': [s for _, R in rows for s in R['samples']][:6],
        'paths': tot('paths'), 'solver_queries': tot('queries') + tot('axQueries'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'), 'queries_unknown': tot('unknown'),
        'solver_seconds': round(sum(R['solverSec'] for _, R in rows), 3), 'assertions_checked': tot('asserts'), 'assertions_decided_by_solver': tot('assertsSolver'),
        'configurations': [{'name': c.name, 'harness': c.d['src'], 'defines': c.d.get('defs', []), 'bounds': c.d.get('bounds', ''), 'paths': int(R['paths']), 'wall_s': round(R['wall'], 2), 'reached': R['reach'], 'ended': R['ended'],
            **({'ax_events': int(R['axEvents']), 'ax_reads': int(R['axReads']), 'ax_writes': int(R['axWrites']), 'ax_queries': int(R['axQueries']), 'ax_rf_candidates': int(R['axRf'])} if R.get('axQueries') else {})} for c, R in rows],
        'functions_encoded': sorted(fns)[:400], 'functions_encoded_count': len(fns),
        'errors': errors, 'outside': configs.OUTSIDE.get(pid, ''),
    }
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': configs.LEVEL.get(pid, 'model_checking'), 'coverage': cov, 'wall_s': round(time.time() - t0, 2)}, open(evd / f'{pid}.json', 'w'), indent=1)
    for k in sorted(set(knowns)): print(f'KNOWN-FINDING: property={pid} {k}')
    for n, v, path, how in viol:
        print(f"[{n}] {v['kind']}: {v['msg']} at {v['where']}"); print('  ' + how[:600].replace('\n', '\n  '))
    if viol:
        print(f'VIOLATION property={pid} replay={viol[0][2]}'); return 1
    for e in errors: print('ERROR', e)
    if errors: return 2
    print(f"{pid}: held on {len(rows)} configurations, {cov['paths']} paths, {cov['solver_queries']} solver queries ({cov['solver_seconds']} s), {validated} paths replayed natively, {time.time() - t0:.1f} s")
    return 0
main()
