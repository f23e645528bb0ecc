#!/usr/bin/env python3
"""seed.py make SPEC.py [ids]   write seeded/<id>/ from a spec and validate it
seed.py try [ids]            validate every seeded bug again and run its check
Works in the scratch copy /tmp/seed/wt, never in /repo."""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded'); W = '/tmp/seed/wt'
CPP = '''#!/bin/sh
# exit 0: the property holds in this tree
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d) || exit 3; trap 'rm -rf "$t"' EXIT
export OMP_NUM_THREADS=1
g++ -std=c++11 -w -O1 -fopenmp -I/usr/include/hdf5/serial -Ilibvvhd/headers "$d/demo.cpp" -L"$r/_build/libvvhd" -lvvhd -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 -Wl,-rpath,"$r/_build/libvvhd" -o "$t/demo" || exit 3
cd "$t" && ./demo
'''
PY = '''#!/bin/sh
# exit 0: the property holds in this tree
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d) || exit 3; trap 'rm -rf "$t"' EXIT
export OMP_NUM_THREADS=1 PATH="$r/_build/utils/vvflow:$r/_build/utils/vvxtract:$r/_build/utils/vvplot:$r/utils/scripts:$PATH"
cp "$d"/demo* "$t"/; cd "$t" && %s
'''
def sh(cmd, cwd=None, **k): return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def prepare():
    os.makedirs('/tmp/seed', exist_ok=True)
    if not os.path.isdir(W):
        sh('cp -a /repo %s && rm -rf %s/_build' % (W, W))
    sh('git checkout -q -- . && git clean -fdq && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', W)
    for f in ('build', 'test'):
        t = open('/opt/vp/%s.sh' % f).read().replace('/repo', W).replace('/opt/vp/build.sh', '/tmp/seed/build.sh')
        open('/tmp/seed/%s.sh' % f, 'w').write(t)
    r = sh('bash /tmp/seed/build.sh')
    if r.returncode: sys.exit(r.stdout[-2000:])
def validate(ids, checks=True, tests=True):
    prepare()
    ok = []
    for i in ids:
        d = os.path.join(S, i); m = json.load(open(d+'/meta.json'))
        r = sh('sh %s/demo.sh' % d, W)
        line = [i, m['property'], 'clean:%d' % r.returncode]
        if r.returncode: print(r.stdout[-500:])
        r = sh('git apply %s/patch.diff' % d, W)
        if r.returncode: print(i, 'DOES NOT APPLY', r.stdout); continue
        r = sh('bash /tmp/seed/build.sh')
        if r.returncode: line.append('BUILD FAILS'); print(r.stdout[-1500:])
        else:
            if tests:
                sh('bash /tmp/seed/test.sh /tmp/seed/o.json'); o = json.load(open('/tmp/seed/o.json'))
                line.append('tests:%d/%s' % (len(o['passed']), o['failed']))
            r = sh('sh %s/demo.sh' % d, W); line.append('patched:%d' % r.returncode)
            if r.returncode == 0 or r.returncode > 100: print(r.stdout[-500:])
            if checks:
                c = m['property']
                r = sh('VERIF_REPO=%s timeout 900 ./check %s' % (W, c), V); line.append('check:%d %s' % (r.returncode, [l for l in r.stdout.splitlines() if ' case ' in l][:1]))
        sh('git checkout -q -- . && git clean -fdq', W)
        print(*line, flush=True)
    sh('bash /tmp/seed/build.sh')
def make(spec, only):
    prepare()
    ids = []
    for s in runpy.run_path(spec)['SEEDS']:
        if only and s['id'] not in only: continue
        d = os.path.join(S, s['id']); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for f, a, b in s['edits']:
            p = os.path.join(W, f); t = open(p).read()
            if t.count(a) != 1: sys.exit('%s: %d matches of %r' % (s['id'], t.count(a), a))
            open(p, 'w').write(t.replace(a, b))
        open(d+'/patch.diff', 'w').write(sh('git diff', W).stdout)
        sh('git checkout -q -- .', W)
        if 'cpp' in s:
            open(d+'/demo.cpp', 'w').write(s['cpp']); open(d+'/demo.sh', 'w').write(CPP)
        elif 'py' in s:
            open(d+'/demo.py', 'w').write(s['py']); open(d+'/demo.sh', 'w').write(PY % 'python3 demo.py')
        else:
            open(d+'/demo.sh', 'w').write(s['sh'])
        os.chmod(d+'/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d+'/meta.json', 'w'), indent=1)
        ids.append(s['id'])
    validate(ids)
if sys.argv[1] == 'make': make(sys.argv[2], sys.argv[3:])
elif sys.argv[1] == 'try': validate(sys.argv[2:] or sorted(os.listdir(S)))
