"""C02: continuing from a snapshot reproduces the uninterrupted run."""
import os, sys, math, shutil
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbt, problem
from pbt import check, run, num, h5

SKIP = ('time_local', 'time_to_finish')
def flat(x, path, out):
    if isinstance(x, dict):
        for k in sorted(x): 
            if k not in SKIP: flat(x[k], path+'/'+k, out)
    elif isinstance(x, list):
        out[path+'#'] = len(x)
        for i, y in enumerate(x): flat(y, '%s[%d]' % (path, i), out)
    else: out[path] = x
def deviation(a, b, label, tol):
    """largest difference of two trees of numbers; the shape must be the same"""
    fa, fb = {}, {}
    flat(a, '', fa); flat(b, '', fb)
    m = 0.0
    if fa.keys() != fb.keys():
        d = sorted(set(fa) ^ set(fb))
        return math.inf, 'different contents: %s' % d[:3]
    w = ''
    for k in fa:
        x, y = fa[k], fb[k]
        if x == y or (x != x and y != y): continue
        if isinstance(x, float) or isinstance(y, float) or (k[-1] == ']' ):
            e = abs(x-y)/(1+abs(x)+abs(y))
            if not e <= 1: e = math.inf
        else: e = math.inf
        if e > m: m, w = e, '%s: %r and %r' % (k, x, y)
    return m, w

worst = [0.0]
def rundir(d, txt, flags=()):
    with open(d+'/s.lua', 'w') as f: f.write(txt)
    r = run(['vvflow']+list(flags)+['s.lua'], d)
    check(r.rc == 0 and r.err == '', 'exit', 'run failed: %r', r)
def results(d): return {n: h5(d+'/results_q/'+n) for n in sorted(os.listdir(d+'/results_q'))}

def compare(s, ra, rb, sa, sb, names, wantnames, nm, mode, every, k, skip):
    for n in wantnames:
        steps = max(0, names.index(n)-names.index(nm))*every
        tol = 1e-11*10**steps if n >= nm else 0
        tol = min(tol, 1e-6)
        e, w = deviation(ra[n], rb[n], n, tol)
        if n == nm: s.label('re-saved: %s' % ('same bits' if e == 0 else 'differs by rounding'))
        check(e <= tol, 'snapshot', 'continued from %s by %s: snapshot %s differs by %.3g: %s', nm, mode, n, e, w)
    check(len(sb['time']['data']) == len(sa['time']['data'])-skip, 'rows', 'continued from %s: %d rows, uninterrupted: %d', nm, len(sb['time']['data']), len(sa['time']['data'])-skip)
    check(sorted(x for x in sa if x != '/') == sorted(x for x in sb if x != '/'), 'datasets', 'continued from %s: step history has %s, uninterrupted %s', nm, sorted(sb), sorted(sa))
    for c in sa:
        if not isinstance(sa[c], dict) or 'data' not in sa[c]: continue
        for i, x in enumerate(sa[c]['data'][skip:]):
            y = sb[c]['data'][i]
            j = i+skip-k       # steps after the snapshot
            tol = 3e-6 + (min(1e-11*10**max(0, j), 1e-6))
            if j < 0: tol = 0
            e, w = deviation(x, y, c, tol)
            check(e <= tol, 'row:'+c.split('/')[-1], 'continued from %s by %s: row %d of %s differs by %.3g: %s', nm, mode, i, c, e, w)

def at_stop(a):
    return any(abs(a['holder_position'][c]+a['delta_position'][c]-a[l][c]) < 1e-12 for l in ('collision_min', 'collision_max') for c in 'xyo')

def case(s):
    p = problem.generate(s, maxbodies=3, stops=True)
    dt = s.pick([(1, 10), (1, 20), (1, 5), (3, 50)])
    nsteps = s.range(2, 8)
    k0 = s.pick([0, 0, 0, -2, 3])
    every = s.pick([1, 1, 2, 3])
    flags = ['--profile'] if s.flip(0.4) else []
    head = p.lua() + 'S.caption="q"\nS.time="%d/%d"\nS.dt="%d/%d"\nS.dt_save="%d/%d"\n' % (k0*dt[0], dt[1], dt[0], dt[1], dt[0]*every, dt[1])
    fin = lambda k: num((k0+k)*dt[0]/dt[1])
    s.describe('%s steps of %d/%d from %d, save every %d, %s; %s' % (nsteps, dt[0], dt[1], k0, every, flags, p.lua().replace('\n', '; ')))
    A = pbt.scratch()
    rundir(A, head + 'S.finish=%s\nsimulate()\n' % fin(nsteps), flags)
    ra = results(A); sa = h5(A+'/stepdata_q.h5')
    names = sorted(ra)
    if len(names) < 1: raise pbt.Discard()
    mode = s.pick(['cli', 'stopped', 'moved', 'twice'])
    s.label(mode)
    for l in p.labels: s.label(l)
    if p.viscous: s.label('viscous')
    nm = names[s.draw(len(names))]
    if 'stops' in p.labels and s.flip():   # a snapshot of the step in which a body is at its stop
        at = [n for n in names if any(at_stop(b['attrs']) for b in ra[n].values() if isinstance(b, dict) and 'holder_position' in b.get('attrs', {}))]
        if at: nm = at[s.draw(len(at))]; s.label('from a stop')
    a = ra[nm]['/']['time']; k = round(a['value']/a['timescale']*dt[1]/dt[0]) - k0
    B = pbt.scratch()
    if mode in ('cli', 'twice'):
        shutil.rmtree(B); shutil.copytree(A, B)
        for _ in range(2 if mode == 'twice' else 1):
            r = run(['vvflow']+flags+['results_q/'+nm], B)
            check(r.rc == 0 and r.err == '', 'exit', 'continuing failed: %r', r)
    elif mode == 'stopped':
        rundir(B, head + 'S.finish=%s\nsimulate()\n' % fin(k), flags)
        rundir(B, 'S:load("results_q/%s")\nS.finish=%s\nsimulate()\n' % (nm, fin(nsteps)), flags)
    else:
        shutil.copy(A+'/results_q/'+nm, B+'/start.h5')
        r = run(['vvflow']+flags+['start.h5'], B)
        check(r.rc == 0 and r.err == '', 'exit', 'continuing failed: %r', r)
    rb = results(B); sb = h5(B+'/stepdata_q.h5')
    wantnames = [n for n in names if mode != 'moved' or n >= nm]
    check(sorted(rb) == wantnames, 'snapshots', 'snapshots after continuing from %s: %s, uninterrupted: %s', nm, sorted(rb), wantnames)
    # rounding grows with the motion of the vortices
    compare(s, ra, rb, sa, sb, names, wantnames, nm, mode, every, k, skip=k if mode == 'moved' else 0)
    s.nontrivial(nm != names[-1] and (p.nbodies or 'vortices' in p.labels))
SO = os.path.join(pbt.BIN, 'faults.so')
def setup(s, minbodies=0):
    p = problem.generate(s, maxbodies=2, minbodies=minbodies)
    dt = s.pick([(1, 10), (1, 20)]); nsteps = s.range(3, 8); every = s.pick([1, 1, 2])
    head = p.lua() + 'S.caption="q"\nS.dt="%d/%d"\nS.dt_save="%d/%d"\nS.finish=%s\nsimulate()\n' % (dt[0], dt[1], dt[0]*every, dt[1], num(nsteps*dt[0]/dt[1]))
    s.describe('%s steps of %d/%d, save every %d; %s' % (nsteps, dt[0], dt[1], every, p.lua().replace('\n', '; ')))
    A = pbt.scratch(); rundir(A, head)
    return p, dt, nsteps, every, head, A
def killed_computing(s):
    """killed while it computes: the run is continued in place"""
    p, dt, nsteps, every, head, A = setup(s, minbodies=1)
    ra = results(A); sa = h5(A+'/stepdata_q.h5'); names = sorted(ra)
    B = pbt.scratch(); n = s.range(1, nsteps+1)
    open(B+'/s.lua', 'w').write(head)
    r = run(['vvflow', 's.lua'], B, env=dict(LD_PRELOAD=SO, FAULT_SOLVE=str(n)))
    s.describe(' killed at solution %d' % n)
    if r.rc == 0: raise pbt.Discard()
    check(r.rc == 137, 'exit', 'the run ended with %r', r)
    have = sorted(os.listdir(B+'/results_q'))
    if not have: raise pbt.Discard()
    nm = have[-1]
    r = run(['vvflow', 'results_q/'+nm], B)
    check(r.rc == 0 and r.err == '', 'exit', 'killed at solution %d, continuing from %s failed: %r', n, nm, r)
    rb = results(B); sb = h5(B+'/stepdata_q.h5')
    check(sorted(rb) == names, 'snapshots', 'snapshots %s, uninterrupted %s', sorted(rb), names)
    a = ra[nm]['/']['time']; k = round(a['value']/a['timescale']*dt[1]/dt[0])
    compare(s, ra, rb, sa, sb, names, names, nm, 'after a kill', every, k, 0)
    s.nontrivial(nm != names[-1])
def killed_writing(s):
    """killed at a file write: every snapshot but the newest is whole, the newest whole or refused"""
    p, dt, nsteps, every, head, A = setup(s)
    ra = results(A); names = sorted(ra)
    B = pbt.scratch(); n = s.range(1, 30*(nsteps+2))
    open(B+'/s.lua', 'w').write(head)
    s.describe(' killed at write %d' % n)
    r = run(['vvflow', 's.lua'], B, env=dict(LD_PRELOAD=SO, FAULT_WRITE=str(n)))
    if r.rc == 0: raise pbt.Discard()
    check(r.rc == 137, 'exit', 'the run ended with %r', r)
    if not os.path.isdir(B+'/results_q'): raise pbt.Discard()
    have = sorted(os.listdir(B+'/results_q'))
    if not have: raise pbt.Discard()
    whole = have[:-1]
    C = pbt.scratch()
    shutil.copy(B+'/results_q/'+have[-1], C+'/start.h5')
    r = run(['vvflow', 'start.h5'], C)
    if os.path.getsize(C+'/start.h5') == 0: s.label('newest empty')   # an empty file is an empty script
    elif r.rc == 0 and r.err == '': whole = have; s.label('newest whole')
    else:
        check(r.rc > 0 and r.err != '' , 'torn', 'a torn snapshot ends the program with %r', r)
        s.label('newest refused')
    for x in whole:
        e, w = deviation(ra[x], h5(B+'/results_q/'+x), x, 0)
        check(e == 0, 'snapshot', 'killed at write %d: snapshot %s differs by %.3g: %s', n, x, e, w)
    if whole:
        nm = whole[-1]
        if nm != have[-1]:
            C = pbt.scratch()
            shutil.copy(B+'/results_q/'+nm, C+'/start.h5')
            r = run(['vvflow', 'start.h5'], C)
            check(r.rc == 0 and r.err == '', 'exit', 'continuing failed: %r', r)
        rc = results(C)
        want = [x for x in names if x >= nm]
        check(sorted(rc) == want, 'snapshots', 'snapshots %s, uninterrupted %s', sorted(rc), want)
        for x in want:
            e, w = deviation(ra[x], rc[x], x, 0)
            tol = min(1e-11*10**(names.index(x)-names.index(nm)), 1e-6)
            check(e <= tol, 'snapshot', 'continued from %s after a kill: snapshot %s differs by %.3g: %s', nm, x, e, w)
        s.nontrivial(nm != names[-1])
sys.exit(pbt.main('C02', [pbt.Sub('continue', 400, 8000, case), pbt.Sub('killed_computing', 200, 4000, killed_computing), pbt.Sub('killed_writing', 200, 4000, killed_writing)]))
