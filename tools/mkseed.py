"""mkseed.py FILE: FILE defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo=C++ text, needs, breaks)]; writes /verif/seeded/<id>/."""
import sys, os, json, subprocess, shutil, tempfile, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository. Builds the small program beside this file against include/ and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
/usr/bin/g++ -std=c++14 -g %s -I"$repo/include" "$here/demo.cpp" -o "$t/demo" -pthread || exit 98
cd "$t" && timeout 60 ./demo < /dev/null
'''
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    t = tempfile.mkdtemp(); repo = t + '/r'
    shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('_build'), symlinks=True)
    for f, old, new in s['edits']:
        p = os.path.join(repo, f); x = open(p, newline='').read(); crlf = '\r\n' in x
        if crlf: old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
        assert x.count(old) == 1, (s['id'], f, x.count(old))
        open(p, 'w', newline='').write(x.replace(old, new))
    diff = subprocess.run(['git', '-C', repo, 'diff'], stdout=subprocess.PIPE).stdout
    d = os.path.join(ROOT, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO % s.get('flags', '')); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(s['demo'])
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(t)
