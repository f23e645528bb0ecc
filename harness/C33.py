"""C33: a run is the stated sequence of stages, each once in every step."""
import math, os
import pbt, problem
from pbt import Sub, main, check, run, num, same, scratch, h5

def numbers(x):
    if isinstance(x, dict): return [v for k in sorted(x) for v in numbers(x[k])]
    if isinstance(x, list): return [v for y in x for v in numbers(y)]
    return [x]
def compare(a, b, tol, n):
    check(sorted(a) == sorted(b), 'contents', 'snapshot %s holds %s instead of %s', n, sorted(b), sorted(a))
    for k in sorted(a):
        A = a[k].get('attrs', {}) if k != '/' else a[k]; B = b[k].get('attrs', {}) if k != '/' else b[k]
        for q in sorted(A):
            if q.startswith('git') or q in ('time_local', 'caption'): continue
            u, v = numbers(A[q]), numbers(B.get(q))
            for x, y in zip(u, v):
                if isinstance(x, float): ok = same(x, y) or abs(x-y) <= tol*(1+abs(x))
                else: ok = x == y
                check(ok, 'state', 'snapshot %s: %s:%s is %r instead of %r', n, k, q, B.get(q), A[q])
            check(len(u) == len(v), 'state', 'snapshot %s: %s:%s is %r instead of %r', n, k, q, B.get(q), A[q])
        if 'data' in a[k]:
            u, v = a[k]['data'], b[k]['data']
            check(len(u) == len(v), 'number', 'snapshot %s: %s has %d rows instead of %d', n, k, len(v), len(u))
            for i, (x, y) in enumerate(zip(u, v)):
                check(all(same(p, q) or abs(p-q) <= tol*(1+abs(p)) for p, q in zip(numbers(x), numbers(y))), 'rows', 'snapshot %s: row %d of %s is %r instead of %r', n, i, k, y, x)

def crowd(s):
    """vortices, some of them close together"""
    L = []; n = s.range(5, 60); w = s.pick([0.2, 0.6, 1.5]); x, y = s.short(2.8, 4), s.short(-1, 1)
    for _ in range(n): L.append('S.vort_list:append({%s,%s,%s})' % (num(x+s.fine(-w, w)), num(y+s.fine(-w, w)), num(s.pick([1, -1, 1])*s.fine(0.001, 0.05))))
    return L

def steps(s):
    heat = s.flip(0.4)
    p = problem.generate(s, maxbodies=3, seg=s.pick([12, 12, 40]), viscous=True if heat else None, minbodies=1 if heat else 0)
    L = list(p.lines)
    if s.flip(0.4): L += crowd(s); p.labels.add('crowd')
    if p.nbodies and s.flip(0.25):     # a body that runs into its stop
        v = 'b%d' % (1+s.draw(p.nbodies))
        L += ['%s.spring_const={0,0,0}' % v, '%s.collision_min={-%s,-0.05,-0.1}' % (v, num(s.short(0.01, 0.1))), '%s.collision_max={%s,0.05,0.1}' % (v, num(s.short(0.01, 0.1))), '%s.bounce=%s' % (v, num(s.pick([0, 0.5, 1]))), '%s.density=%s' % (v, num(s.pick([2, 5])))]
        p.labels.add('stop')
    dt = s.pick([10, 20, 50]); n = s.range(1, 7); every = s.pick([1, 1, 2])
    d = scratch(); os.mkdir(d+'/ref')
    text = 'S.caption="q"\nS.dt="1/%d"\nS.dt_save="%d/%d"\nS.finish=%s\n' % (dt, every, dt, num(n/dt)) + '\n'.join(L)+'\n'
    s.describe('%d steps: %s' % (n, text.replace('\n', '; ')))
    open(d+'/s.lua', 'w').write(text+('S:save("p.h5")\n' if heat else 'S:save("p.h5")\nsimulate()\n'))
    r = run(['vvflow', 's.lua'], d); check(r.rc == 0 and not r.err, 'exit', '%r', r)
    if heat:
        pr = s.pick([1, 0.7, 7]); spec = ['%s,%s' % (s.pick('ttwwin'), num(s.short(-2, 2))) for _ in range(p.nbodies)]
        if s.flip(0.6): spec += ['p,%s,%s,%s' % (num(s.pick([s.short(2.8, 4), round(16+s.short(-0.3, 0.1), 3)])), num(s.short(-1, 1)), num(s.short(-0.5, 0.5))) for _ in range(s.range(1, 8))]
        s.describe(' heat %s %s' % (pr, spec))
        r = run(['vvstep', 'heat', 'p.h5', 'h.h5', num(pr)]+spec, d); check(r.rc == 0, 'exit', '%r', r)
        os.rename(d+'/h.h5', d+'/p.h5')
        r = run(['vvflow', 'p.h5'], d); check(r.rc == 0 and not r.err, 'exit', '%r', r)
        for x in spec: s.label('heat '+x[0])
    q = run(['vvstep', 'p.h5', 'ref', str(n+1)], d); check(q.rc == 0, 'reference', '%r', q)
    for l in p.labels: s.label(l)
    if p.viscous: s.label('viscous')
    names = ['%06d.h5' % i for i in range(0, n+1, every)]
    check(sorted(os.listdir(d+'/results_q')) == names, 'snapshots', 'snapshots %s instead of %s', sorted(os.listdir(d+'/results_q')), names)
    a = h5(['%s/ref/%s' % (d, x) for x in names]); b = h5(['%s/results_q/%s' % (d, x) for x in names])
    for i, x in enumerate(names):
        big = [abs(v) for r in a[i].get('vort', dict(data=[]))['data'] for v in r]
        if any(not v < 1e3 for v in big): break
        compare(a[i], b[i], min(1e-11*10**(i*every), 1e-6), x)
        s.nontrivial(i and (p.nbodies or big))
        if i and a[i].get('heat', dict(data=[]))['data']: s.label('heat particles')

main('C33', [Sub('steps', 500, 12000, steps)])
