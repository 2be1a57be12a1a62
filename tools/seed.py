#!/usr/bin/env python3
"""seed.py verify ID... [--no-check] [--no-tests]: confirms planted bugs in a scratch copy of /repo
(patch applies, builds, passes the stable tests, demo 0 without / nonzero with it) and runs the property's check on it."""
import sys, os, json, subprocess, shutil, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, **k)
    return p.returncode, p.stdout.decode('utf-8', 'replace')
def demo(d, repo):
    t = tempfile.mkdtemp(prefix='demo')
    for f in os.listdir(d):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json': shutil.copy(os.path.join(d, f), t)
    try: return sh(['timeout', '300', 'bash', os.path.join(t, 'demo.sh')], cwd=repo)
    finally: shutil.rmtree(t)
def verify(i, check=True, tests=True):
    d = os.path.join(ROOT, 'seeded', i); meta = json.load(open(os.path.join(d, 'meta.json')))
    base = tempfile.mkdtemp(prefix='seed_'); repo = os.path.join(base, 'repo')
    res = []
    try:
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('_build'), symlinks=True)
        r, o = demo(d, repo); res.append('demo0=%s' % r)
        if r != 0: res.append(o[-800:])
        r, o = sh(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')])
        if r: return i, 'PATCH DOES NOT APPLY ' + o
        if tests:
            b = os.path.join(base, 'b')
            r, o = sh('cmake -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCLI_BuildTests=ON -DCLI_UseBoostAsio=ON >/dev/null && ninja -C %s test_suite' % (repo, b, b), shell=True)
            if r: res.append('BUILD FAILS ' + o[-1500:])
            else:
                os.mkdir(os.path.join(base, 'w'))
                r, o = sh([os.path.join(b, 'test/test_suite')], cwd=os.path.join(base, 'w')); res.append('tests=%s' % r)
                if r: res.append(o[-800:])
        r, o = demo(d, repo); res.append('demo1=%s' % r)
        if r == 0: res.append('DEMO PASSES WITH THE PATCH ' + o[-500:])
        if check:
            t = time.time()
            r, o = sh([sys.executable, os.path.join(ROOT, 'check.py'), meta['property']], env=dict(os.environ, REPO=repo, VERIF_TIER=os.environ.get('VERIF_TIER', 'quick')))
            v = [l for l in o.splitlines() if 'VIOLATION' in l]
            res.append('check=%s %s %.0fs %s' % (meta['property'], 'CAUGHT' if r == 1 and v else 'MISSED(%s)' % r, time.time() - t, (v or [o[-600:]])[0]))
    finally: shutil.rmtree(base, ignore_errors=True)
    return i, ' '.join(res)
if __name__ == '__main__':
    a = [x for x in sys.argv[2:] if not x.startswith('--')]
    for i in (a or sorted(os.listdir(os.path.join(ROOT, 'seeded')))):
        print(*verify(i, '--no-check' not in sys.argv, '--no-tests' not in sys.argv), flush=True)
