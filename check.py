#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of the real code (see DESIGN.md).

  check.py <ID>            run the check (VERIF_TIER=quick|thorough, VERIF_SEED)
  check.py --replay FILE   re-run a saved counterexample natively against /repo
"""
import os, sys, json, time, subprocess, tempfile, shutil, hashlib, re, glob, threading
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
import specs
REPO = os.environ.get('REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
CXX = '/usr/bin/clang++-18'
LINK = '/usr/bin/llvm-link-18'
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
INC = ['-I' + os.path.join(ROOT, 'engine'), '-I' + os.path.join(ROOT, 'harness'), '-I' + os.path.join(ROOT, 'harness/mockasio'), '-I' + os.path.join(REPO, 'include')]
BCFLAGS = ['-O1', '-gline-tables-only', '-std=c++14', '-w', '-emit-llvm', '-c', '-fno-vectorize', '-fno-slp-vectorize', '-fno-jump-tables',
           '-D_GLIBCXX_ASSERTIONS', '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bool,enum,return,unreachable', '-fsanitize-trap=all', '-DSYMX_ENGINE=1']
NFLAGS = {
 'asan': ['-O1', '-g', '-std=c++14', '-w', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
 'plain': ['-O1', '-g', '-std=c++14', '-w', '-D_GLIBCXX_ASSERTIONS'],
 'thr': ['-O0', '-g', '-std=c++14', '-w', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=thread'],
 'athr': ['-O1', '-g', '-std=c++14', '-w', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address', '-fno-omit-frame-pointer'],
}
WRAPS = ['read', 'write', 'select', 'poll', 'pipe', 'pipe2', 'close', 'tcgetattr', 'tcsetattr', 'isatty', 'fcntl']

class CheckError(Exception): pass

def sh(cmd, timeout=600, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf-8', 'replace')

def engine_stamp():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(ROOT, 'engine', '*'))):
        h.update(os.path.basename(f).encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()

def ensure_engine():
    import fcntl
    st = os.path.join(BUILD, 'stamp'); want = engine_stamp()
    def ready(): return os.path.exists(st) and open(st).read() == want and os.path.exists(os.path.join(BUILD, 'symx')) and os.path.exists(os.path.join(BUILD, 'rt.bc'))
    if ready(): return
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk: # checks started together build it once
        fcntl.flock(lk, fcntl.LOCK_EX)
        if ready(): return
        rc, out = sh(['bash', os.path.join(ROOT, 'engine/build.sh'), BUILD], timeout=900)
        if rc != 0: raise CheckError('engine build failed:\n' + out[-3000:])
        open(st, 'w').write(want)

def defs_of(run):
    d = dict(run.get('defs', {}))
    if TIER == 'thorough': d.update(run.get('tdefs', {}))
    return d

class Units:
    """Builds (file, defs) once per kind; thread-safe."""
    def __init__(self, tmp): self.tmp = tmp; self.lock = threading.Lock(); self.futs = {}; self.pool = ThreadPoolExecutor(8)
    def get(self, kind, file, defs, libs=()):
        key = (kind, file, tuple(sorted(defs.items())))
        with self.lock:
            if key not in self.futs: self.futs[key] = self.pool.submit(self._build, key)
            return self.futs[key]
    def _build(self, key):
        kind, file, defs = key
        base = os.path.join(self.tmp, hashlib.sha1(repr(key).encode()).hexdigest()[:12])
        D = ['-D%s=%s' % kv for kv in defs]
        src = os.path.join(ROOT, 'harness', file)
        extra = [f for f in ['posix_model.cpp'] if 'POSIX_MODEL' in dict(defs)]
        if kind == 'bc':
            objs = []
            for i, s in enumerate([src] + [os.path.join(ROOT, 'harness', e) for e in extra]):
                o = base + '.%d.bc' % i
                rc, out = sh([CXX] + BCFLAGS + INC + D + [s, '-o', o])
                if rc != 0: raise CheckError('cannot compile %s for symbolic execution:\n%s' % (s, out[-4000:]))
                objs.append(o)
            rc, out = sh([LINK] + objs + [os.path.join(BUILD, 'rt.bc'), '-o', base + '.bc'])
            if rc != 0: raise CheckError('llvm-link failed:\n' + out[-3000:])
            return base + '.bc'
        fl = NFLAGS[kind]
        lib = ['-rdynamic', '-ldl', '-lpthread']
        if kind in ('thr', 'athr'):
            srcs = [src, os.path.join(ROOT, 'engine/native.cpp')] + [os.path.join(ROOT, 'harness', e) for e in extra]
            objs = []
            for i, s in enumerate(srcs):
                o = base + '.%d.o' % i
                f = fl if i == 0 else NFLAGS['plain']
                rc, out = sh([CXX] + f + INC + D + ['-c', s, '-o', o])
                if rc != 0: raise CheckError('cannot compile %s natively:\n%s' % (s, out[-4000:]))
                objs.append(o)
            o = base + '.baton.o'
            rc, out = sh([CXX, '-O1', '-g', '-std=c++17', '-w', '-fno-builtin'] + (['-DSYMX_TSAN'] if kind == 'thr' else []) + INC + ['-c', os.path.join(ROOT, 'engine/baton.cpp'), '-o', o])
            if rc != 0: raise CheckError('cannot compile baton.cpp:\n' + out[-3000:])
            rc, out = sh([CXX] + (['-fsanitize=address'] if kind == 'athr' else []) + objs + [o, '-o', base + '.exe'] + lib + (['-Wl,' + ','.join('--wrap=' + w for w in WRAPS)] if extra else []))
            if rc != 0: raise CheckError('link failed:\n' + out[-3000:])
            return base + '.exe'
        cmd = [CXX] + fl + INC + D + [src, os.path.join(ROOT, 'engine/native.cpp')] + [os.path.join(ROOT, 'harness', e) for e in extra] + ['-o', base + '.exe'] + lib
        if extra: cmd += ['-Wl,' + ','.join('--wrap=' + w for w in WRAPS)]
        rc, out = sh(cmd)
        if rc != 0: raise CheckError('cannot compile %s natively:\n%s' % (file, out[-4000:]))
        return base + '.exe'

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1:symbolize=0:alloc_dealloc_mismatch=1', UBSAN_OPTIONS='print_stacktrace=0:exitcode=99', LC_ALL='C')
_seq = [0]; _seql = threading.Lock()
def run_native(exe, entry, inputs, tmp, sched=None, valgrind=False, timeout=30, race=False):
    with _seql: _seq[0] += 1; n = _seq[0]
    d = os.path.join(tmp, 'nat%d' % n); os.makedirs(d)
    inf = os.path.join(d, 'in'); outf = os.path.join(d, 'out')
    with open(inf, 'w') as f:
        for k, v in inputs: f.write('%s %d\n' % (k.replace(' ', '_'), v))
    cmd = [exe, entry, inf, outf]
    if sched is not None:
        sf = os.path.join(d, 'sched')
        with open(sf, 'w') as f: f.write('\n'.join(str(x) for x in sched) + '\n')
        cmd.append(sf)
    if valgrind: cmd = ['valgrind', '-q', '--error-exitcode=98', '--leak-check=no', '--track-origins=no'] + cmd; timeout *= 4
    rc, out = sh(cmd, timeout=timeout, env=dict(ENV, SYMX_RACE='1') if race else ENV, cwd=d)
    status, msg, obs, reach = '', '', '', []
    if os.path.exists(outf):
        for l in open(outf, errors='replace'):
            l = l.rstrip('\n')
            if l.startswith('OBS '): obs = l[4:]
            elif l.startswith('REACH '): reach.append(l[6:])
            elif not status: status, _, msg = l.partition(' ')
    shutil.rmtree(d, ignore_errors=True)
    return dict(rc=rc, status=status, msg=msg, obs=obs, reach=reach, out=out)

BADKINDS = {'memory', 'ub', 'assert', 'abort', 'terminate', 'uninit', 'property', 'hang', 'deadlock', 'lock', 'race'}
def native_bad(r):
    """Does a native run show a violation?  returns description or None"""
    if r['rc'] == 42 or r['status'] == 'FAIL': return 'assertion failed: ' + r['msg']
    if r['rc'] == 45 or r['status'] == 'TERMINATE': return 'std::terminate called'
    if r['rc'] == 'timeout': return 'does not terminate'
    if r['rc'] == 99: return 'sanitizer: ' + first_match(r['out'])
    if r['rc'] == 98: return 'valgrind: ' + first_match(r['out'])
    if isinstance(r['rc'], int) and r['rc'] < 0: return 'killed by signal %d: %s' % (-r['rc'], first_match(r['out']))
    if r['rc'] in (132, 133, 134, 136, 139): return 'crashed (%d)' % r['rc']
    if r['rc'] == 0 or r['rc'] in (43, 44): return None
    return None
def first_match(o):
    for l in o.splitlines():
        if 'ERROR:' in l or 'runtime error' in l or 'Assertion' in l or 'uninitialised' in l or 'Invalid' in l: return l.strip()[:300]
    return (o.strip().splitlines() or [''])[0][:300]

def load_known(pid):
    res = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) entry=(\S+) msg="([^"]*)" inputs="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == pid:
                ins = dict(x.split('=') for x in m.group(4).split(',') if x)
                res.append(dict(entry=m.group(2), msg=m.group(3), inputs={k: int(v) for k, v in ins.items()}, text=m.group(5)))
    return res

def match_known(known, entry, err, nat):
    for k in known:
        if k['entry'] == entry and (k['msg'] == err['msg'] or k['msg'] in nat):
            d = dict(map(tuple, err['inputs']))
            if all(d.get(a) == b for a, b in k['inputs'].items()): return k
    return None

def main(pid):
    t0 = time.time()
    prop = specs.PROPS[pid]
    known = load_known(pid)
    ensure_engine()
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='symx-%s-' % pid)
    rdir = os.path.join(BUILD, 'replay', pid)
    shutil.rmtree(rdir, ignore_errors=True)
    try:
        return go(pid, prop, known, tmp, rdir, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def go(pid, prop, known, tmp, rdir, t0):
    U = Units(tmp)
    runs = [r for r in prop['runs'] if not (TIER == 'quick' and r.get('thorough_only'))]
    for r in runs: r['_defs'] = defs_of(r)
    for r in runs: U.get('bc', r['file'], r['_defs'])
    for r in runs: U.get(r.get('native', 'asan'), r['file'], r['_defs'])
    qmax = 240 if TIER == 'quick' else 1500
    EMPTY = lambda: dict(errors=[], samples=[], reach={}, inconclusive={}, steps=0, forks=0, paths=0, asserts=0, asserts_symbolic=0, symbolic_branches=0, sched_points=0, time=0, assert_counts={}, src_functions=[],
                         solver=dict(queries=0, z3_queries=0, sat=0, unsat=0, unknown=0, z3_time=0))
    def engine(r): # a run without an answer is a problem of its own; it does not hide what the other runs find
        try: return engine1(r)
        except CheckError as e: return dict(EMPTY(), failed=str(e))
    def engine1(r):
        bc = U.get('bc', r['file'], r['_defs']).result()
        out = os.path.join(tmp, 'r-%s-%s.json' % (r['entry'], hashlib.sha1(repr(sorted(r['_defs'].items())).encode()).hexdigest()[:8]))
        mt = r.get('ttime' if TIER == 'thorough' else 'qtime', qmax)
        ns = 16 if TIER == 'quick' else 60
        r['_dump'] = out + '.smt2'
        cmd = [os.path.join(BUILD, 'symx'), bc, '--entry', r['entry'], '--out', out, '--max-time', str(mt), '--max-errors', '6', '--samples', str(ns), '--seed', str(SEED), '--max-mem', '6000',
               '--dump', r['_dump'], '--dump-n', '25' if TIER == 'quick' else '400'] + [str(x) for x in r.get('opts', [])] + ([str(x) for x in r.get('topts', [])] if TIER == 'thorough' else [])
        rc, o = sh(cmd, timeout=mt + 180)
        if rc != 0 or not os.path.exists(out): raise CheckError('symbolic execution of %s failed (%s): %s' % (r['entry'], rc, o[-2000:]))
        return json.load(open(out))
    with ThreadPoolExecutor(8) as ex: results = list(ex.map(engine, runs))
    violations, knowns, problems, notes = [], [], [], []
    traces_ok = [0]; samples_out = []; tl = threading.Lock()
    def post(rr):
        r, res = rr
        if 'failed' in res:
            with tl: problems.append(res['failed'])
            return
        kind = r.get('native', 'asan')
        thr = kind == 'thr'
        exe = None
        for e in res['errors']:
            exe = exe or U.get(kind, r['file'], r['_defs']).result()
            nat, how = None, kind
            n = run_native(exe, r['entry'], e['inputs'], tmp, sched=e['sched'] if thr else None, timeout=60, race=e['kind'] == 'race')
            nat = native_bad(n)
            if not nat and thr and e['kind'] != 'race':
                ax = U.get('athr', r['file'], r['_defs']).result(); how = 'athr'
                n = run_native(ax, r['entry'], e['inputs'], tmp, sched=e['sched'])
                nat = native_bad(n)
            if not nat and e['kind'] in ('uninit', 'memory', 'ub') and not thr:
                px = U.get('plain', r['file'], r['_defs']).result(); how = 'valgrind'
                n = run_native(px, r['entry'], e['inputs'], tmp, valgrind=True)
                nat = native_bad(n)
            with tl:
                if not nat:
                    problems.append('%s: engine reports %s "%s" (%s) but the native replay does not show it (exit %s, %s)' % (r['entry'], e['kind'], e['msg'], e['where'], n['rc'], n['status']))
                    notes.append(json.dumps(e)[:2000])
                    continue
                k = match_known(known, r['entry'], e, nat)
                if k: knowns.append(k); continue
                violations.append(dict(run=r, err=e, native=nat, how=how, out=n['out'][-3000:]))
        # conformance: the solver's model of each sampled path, run on the real build, must behave the same
        lim = 16 if TIER == 'quick' else 60
        if res['samples']:
            exe = exe or U.get(kind, r['file'], r['_defs']).result()
            for s in res['samples'][:lim]:
                n = run_native(exe, r['entry'], s['inputs'], tmp, sched=s['sched'] if thr else None)
                b = native_bad(n)
                with tl:
                    if b:
                        e = dict(kind='native', msg=b, where='sampled path', inputs=s['inputs'], sched=s['sched'])
                        k = match_known(known, r['entry'], e, b)
                        if k: knowns.append(k)
                        else: violations.append(dict(run=r, err=e, native=b, how=kind, out=n['out'][-3000:]))
                    elif n['rc'] != 0 or n['obs'] != s['obs']:
                        problems.append('%s: sampled path behaves differently natively (exit %s %s %s)\n  inputs %s\n  engine obs %s\n  native obs %s\n%s' % (r['entry'], n['rc'], n['status'], n['msg'], s['inputs'], s['obs'], n['obs'], n['out'][-500:]))
                    else:
                        traces_ok[0] += 1
                        if len(samples_out) < 12: samples_out.append(dict(entry=r['entry'], inputs=s['inputs'][:24], schedule=s['sched'][:40]))
        missing = [m for m in r.get('reach', []) if not res['reach'].get(m)]
        with tl:
            if missing and not res['errors']: problems.append('%s: never reached: %s (vacuous)' % (r['entry'], ', '.join(missing)))
            for m, c in res['inconclusive'].items(): notes.append('%s: %s (%d)' % (r['entry'], m, c))
            if res['inconclusive'] and not all(m in ('time limit', 'unexplored states', 'path limit', 'memory limit') for m in res['inconclusive']) and not res['errors']:
                problems.append('%s: paths that could not be decided: %s' % (r['entry'], res['inconclusive']))
    def post1(rr):
        try: post(rr)
        except CheckError as e:
            with tl: problems.append(str(e))
    with ThreadPoolExecutor(4) as ex: list(ex.map(post1, zip(runs, results)))
    cvc = dict(queries=0, agree=0, disagree=0, undecided=0)
    def cross(r):
        f = r.get('_dump')
        if not f or not os.path.exists(f): return
        txt = open(f).read()
        exp = re.findall(r'^; expect (\w+)', txt, re.M)
        if not exp: return
        rc, o = sh(['cvc5', '--lang=smt2', '--tlimit-per=5000', f], timeout=40 if TIER == 'quick' else 600)
        got = [l for l in o.splitlines() if l in ('sat', 'unsat', 'unknown')]
        with tl:
            for a, b in zip(exp, got):
                cvc['queries'] += 1
                if b == 'unknown': cvc['undecided'] += 1
                elif a == b: cvc['agree'] += 1
                else: cvc['disagree'] += 1
    with ThreadPoolExecutor(8) as ex: list(ex.map(cross, runs))
    if cvc['disagree']: problems.append('z3 and cvc5 disagree on %d queries' % cvc['disagree'])
    # report
    tot = lambda k: sum(x[k] for x in results)
    fns = {}
    for x in results:
        for f, l, n in x.get('src_functions', []): fns[(f[f.index('/include/cli/') + 1:], l)] = n
    ev = dict(property=pid, tier=TIER, seed=SEED, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(violations),
        coverage=dict(states=tot('steps'), transitions=tot('forks'), traces_validated_against_impl=traces_ok[0], samples=samples_out,
            paths=tot('paths'), exhaustive=not any(x['inconclusive'] for x in results), asserts_checked=tot('asserts'), asserts_over_symbolic_values=tot('asserts_symbolic'),
            symbolic_branches=tot('symbolic_branches'), scheduling_points=tot('sched_points'),
            solver=dict(queries=sum(x['solver']['queries'] for x in results), z3_queries=sum(x['solver']['z3_queries'] for x in results), sat=sum(x['solver']['sat'] for x in results),
                        unsat=sum(x['solver']['unsat'] for x in results), unknown=sum(x['solver']['unknown'] for x in results), z3_seconds=round(sum(x['solver']['z3_time'] for x in results), 2)),
            cvc5_cross_check=cvc,
            functions_encoded=['%s:%d %s' % (f, l, n) for (f, l), n in sorted(fns.items())],
            runs=[dict(harness=r['file'], entry=r['entry'], bounds=r.get('bounds', ''), defines=r['_defs'], paths=x['paths'], instructions=x['steps'], seconds=x['time'], reach=x['reach'], asserts=x['assert_counts'], undecided=x['inconclusive']) for r, x in zip(runs, results)],
            notes=notes[:40]),
        assumptions=prop.get('assumptions', []) + specs.COMMON_ASSUMPTIONS)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for r, x in zip(runs, results):
        print('%-28s paths=%d instr=%d asserts=%d(%d sym) queries=%d z3=%d/%.1fs time=%.1fs %s' % (r['entry'], x['paths'], x['steps'], x['asserts'], x['asserts_symbolic'], x['solver']['queries'], x['solver']['z3_queries'], x['solver']['z3_time'], x['time'], x['inconclusive'] or ''))
    for k in {k['text']: k for k in knowns}.values(): print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    for p in problems: print('PROBLEM ' + p)
    print('cross-check %s; traces validated %d; wall %.1fs' % (cvc, traces_ok[0], time.time() - t0))
    if violations:
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(violations):
            path = os.path.join(rdir, '%d.json' % i)
            with open(path, 'w') as f: json.dump(dict(property=pid, file=v['run']['file'], entry=v['run']['entry'], defs=v['run']['_defs'], native=v['run'].get('native', 'asan'), how=v['how'], error=v['err'], native_result=v['native'], native_output=v['out']), f, indent=1)
            print('  %s: %s: %s at %s | native: %s' % (v['run']['entry'], v['err']['kind'], v['err']['msg'], v['err']['where'], v['native']))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.join(rdir, '0.json')))
        return 1
    if problems: return 2
    return 0

def replay(path):
    d = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix='symx-replay-')
    try:
        U = Units(tmp)
        exe = U.get('plain' if d['how'] == 'valgrind' else d['how'] if d['how'] == 'athr' else d['native'], d['file'], d['defs']).result()
        n = run_native(exe, d['entry'], d['error']['inputs'], tmp, sched=d['error']['sched'] if d['native'] == 'thr' else None, valgrind=d['how'] == 'valgrind', race=d['error']['kind'] == 'race')
        print(json.dumps(d['error'])); print(n['out']); print('native:', n['rc'], n['status'], n['msg'])
        return 1 if native_bad(n) else 0
    finally: shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    try:
        if sys.argv[1] == '--replay': sys.exit(replay(sys.argv[2]))
        sys.exit(main(sys.argv[1]))
    except CheckError as e:
        print('ERROR', e); sys.exit(2)
    except Exception:
        import traceback; traceback.print_exc(); sys.exit(2)
