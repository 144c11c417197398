#!/usr/bin/env python3
"""Make, confirm and store one planted bug (development tool; no check uses it).

usage: plant.py FILE.py [id ...]        make the bugs FILE.py describes
       plant.py --check id [props...]   run the property's check against a stored bug

FILE.py defines BUGS = {id: dict(property=, needs=, what=, edits=[(file, old, new)], demo=C++ text)}.
A bug is stored only when it builds, passes the repository's tests, and its demonstration
passes on the clean tree and fails on the changed one."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = the repository; exits 0 when the property holds, nonzero when it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 %s -w -I. -I/usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" || exit 3
timeout 120 "$t/demo"
'''
def sh(cmd, cwd=None, to=900, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to, text=True, env=env)
    return p.returncode, p.stdout
def clone(dst):
    sh(f'git clone -q /repo {dst}')
def make(bid, b):
    w = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    r = w + '/r'; out = w + '/out'
    try:
        clone(r); os.makedirs(out)
        for f, old, new in b['edits']:
            p = r + '/HeuristicFlow/src/' + f
            s = open(p).read()
            if s.count(old) != 1: return f'{s.count(old)} matches in {f}: {old[:60]!r}'
            open(p, 'w').write(s.replace(old, new))
        rc, diff = sh('git diff', r)
        removed = 0
        root = '8000f3e'
        files = {f for f, _, _ in b['edits']}
        for f in files:
            rc, d = sh(f'git diff -U0 -- HeuristicFlow/src/{f}', r)
            import re
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', d, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                if n:
                    _, bl = sh(f'git blame -s -l -L {a},{a+n-1} HEAD -- HeuristicFlow/src/{f}', r)
                    rootfull = subprocess.check_output(['git', '-C', r, 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
                    removed += sum(1 for l in bl.splitlines() if rootfull[:30] in l.split()[0].lstrip('^') + ' ' or l.lstrip('^').startswith(rootfull[:38]))
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.cpp', 'w').write(b['demo'])
        open(out + '/demo.sh', 'w').write(DEMO % b.get('flags', '-fopenmp'))
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(out + '/meta.json', 'w'), indent=1)
        rc, o = sh(f'bash {out}/demo.sh', r)
        if rc == 0: return 'demo passes on the changed tree: ' + o[-300:]
        if rc in (3, 124): return f'demo on the changed tree: rc {rc} ' + o[-800:]
        dm = f'rc {rc}: ' + o[-120:].strip()
        rc, o = sh(f'bash {out}/demo.sh', '/repo')
        if rc: return f'demo fails on the clean tree rc {rc}: ' + o[-800:]
        rc, o = sh('cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -g" -DHeu_build_test=ON -DHeu_build_lab=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON && ninja -C _b', r, 1800)
        if rc: return 'build: ' + o[-1500:]
        env = dict(os.environ, OMP_NUM_THREADS='2')
        rc, o = sh('ctest --test-dir _b -j4 --timeout 300', r, 1800, env)
        if '100% tests passed' not in o or ' 0 tests failed out of 15' not in o: return 'tests: ' + o[-900:]
        if not removed: return 'changes no original line'
        d = f'{V}/seeded/{bid}'
        if os.path.exists(d): shutil.rmtree(d)
        shutil.copytree(out, d)
        return 'kept (' + dm.replace('\n', ' ') + ')'
    finally:
        shutil.rmtree(w)
def check(bid, props):
    m = json.load(open(f'{V}/seeded/{bid}/meta.json'))
    w = tempfile.mkdtemp(prefix='plantc.', dir='/tmp')
    r = w + '/r'
    res = []
    try:
        clone(r)
        rc, o = sh(f'git apply {V}/seeded/{bid}/patch.diff', r)
        if rc: return 'does not apply: ' + o
        for p in props or [m['property']]:
            env = dict(os.environ, SIM_REPO=r)
            rc, o = sh(f'python3 {V}/check.py run {p}', V, 1800, env)
            lines = [l for l in o.splitlines() if l.strip()]
            v = [l for l in lines if l.startswith('VIOLATION')]
            det = [l for l in lines if l.startswith('  ')]
            res.append(f'{p} rc={rc} {"CAUGHT" if v else "MISSED"} ' + ' ~ '.join(x.strip()[:110] for x in det[:2]) + ('' if rc in (0, 1) else o[-400:]))
    finally:
        shutil.rmtree(w)
    return '; '.join(res)
if __name__ == '__main__':
    if sys.argv[1] == '--check':
        print(sys.argv[2], check(sys.argv[2], sys.argv[3:]), flush=True)
    else:
        g = {}
        exec(open(sys.argv[1]).read(), g)
        for i in sys.argv[2:] or list(g['BUGS']):
            print(i, make(i, g['BUGS'][i]), flush=True)
