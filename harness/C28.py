"""C28: the same run and the same fields with any number of threads, under perturbed schedules; repeated exactly with one."""
import math, os, struct
import pbt, problem
from pbt import Sub, main, check, run, num, same, scratch, h5, lua_str
SO = os.path.join(pbt.BIN, 'omp.so')

def env(s):
    """threads and a schedule"""
    n = s.pick([2, 2, 3, 4, 7, 16]); e = dict(OMP_NUM_THREADS=str(n))
    if s.flip(0.8): e.update(LD_PRELOAD=SO, OMPFUZZ=str(1+s.draw(100000)))
    if s.flip(0.2): e['OMP_SCHEDULE'] = s.pick(['dynamic,1', 'static,1', 'guided'])
    s.label('%d threads' % n); s.label('perturbed' if 'OMPFUZZ' in e else 'plain')
    return e
def amp(rows): return [max([abs(r[i]) for r in rows if r[i] == r[i] and abs(r[i]) < math.inf] or [0]) for i in range(len(rows[0]))]
def near(a, b, tol, what):
    """equal up to rounding, relative to the largest value of the column"""
    if a == b: return
    check(len(a) == len(b), what, '%s has %d rows with one thread and %d with more', what, len(a), len(b))
    if not a: return
    if not isinstance(a[0], list): a = [[v] for v in a]; b = [[v] for v in b]
    m = amp(a)
    for i, (x, y) in enumerate(zip(a, b)):
        check(len(x) == len(y) and all(same(u, v) or abs(u-v) <= tol*k for u, v, k in zip(x, y, m)), what, 'row %d of %s is %s with one thread and %s with more', i, what, x, y)
def flat(v): return [v] if not isinstance(v, dict) else [v[k] for k in sorted(v)]
def compare(a, b, tol, name, exact=False):
    check(sorted(a) == sorted(b), name, '%s holds %s with one thread and %s with more', name, sorted(a), sorted(b))
    for k in a:
        A = a[k].get('attrs', {}) if k != '/' else a[k]; B = b[k].get('attrs', {}) if k != '/' else b[k]
        for q in A:
            if q.startswith('git') or q == 'time_local': continue
            if exact: check(repr(A[q]) == repr(B.get(q)), k, '%s:%s is %r and then %r', k, q, A[q], B.get(q)); continue
            u, v = flat(A[q]), flat(B.get(q))
            if any(isinstance(x, (str, list)) for x in u+v): check(repr(u) == repr(v), k, '%s:%s is %r and %r', k, q, u, v); continue
            m = max([abs(x) for x in u if x == x and abs(x) < math.inf] or [0])
            check(len(u) == len(v) and all(same(x, y) or abs(x-y) <= tol*(m+1e-3) for x, y in zip(u, v)), k, '%s:%s of %s is %r with one thread and %r with more', k, q, name, u, v)
        if 'data' in a[k]:
            if exact: check(repr(a[k]['data']) == repr(b[k]['data']), k, '%s of %s differs', k, name)
            else: near(a[k]['data'], b[k]['data'], tol, '%s of %s' % (k, name))
def files(d): return sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs if f != 's.lua' and f != 'sens')

def crowd(s, lo, hi):
    n = s.range(lo, hi); w = s.short(0.3, 2); x0, y0 = s.short(3.5, 5), s.short(-1, 1); k = s.draw(10**6)
    # cheap repeatable points
    return ['local function R() k=(k*1103515245+12345)%%2147483648; return k/2147483648 end k=%d' % k,
            'for i=1,%d do S.vort_list:append({%s+%s*(R()-0.5),%s+%s*(R()-0.5),0.02*(R()-0.5)}) end' % (n, num(x0), num(w), num(y0), num(w))]
def build(s):
    p = problem.generate(s, maxbodies=3, seg=s.pick([12, 60, 150]))
    lines = list(p.lines)
    if s.flip(0.6): lines += crowd(s, 200, 900); p.labels.add('crowd')
    return p, lines

def runs(s):
    p, L = build(s); n = s.range(1, 3); sens = s.flip(0.4)
    dt = s.pick([10, 20, 50])
    text = ['S.caption="q"', 'S.dt="1/%d"' % dt, 'S.dt_save=S.dt', 'S.finish=%s' % num(n/dt)]
    if s.flip(0.3): text.append('S.dt_profile=S.dt')
    text = '\n'.join(text+L+['simulate()'])+'\n'
    s.describe('%d steps of %s' % (n, ' '.join(sorted(p.labels)))); s.nontrivial()
    for l in p.labels: s.label(l)
    pts = ''.join('%s\t%s\n' % (num(s.fine(-4, 4)), num(s.fine(-4, 4))) for _ in range(s.range(1, 5)))
    def go(e):
        d = scratch(); open(d+'/s.lua', 'w').write(text); open(d+'/sens', 'w').write(pts)
        r = run(['vvflow', 's.lua']+(['--sensors', 'sens'] if sens else []), d, env=e, timeout=120)
        return d, r
    d, r = go({}); check(r.rc == 0, 'exit', '%r', r)
    F = files(d); snaps = [f for f in F if f.endswith('.h5')]
    a = h5([d+'/'+f for f in snaps])
    if any(abs(v[2]) > 1e3 or v[0] != v[0] for x in a for v in x.get('vort', dict(data=[]))['data']): raise pbt.Discard()
    other = [('again', {}, True)] if s.flip(0.3) else []
    other += [('threads', env(s), False) for _ in range(s.range(1, 3))]
    for what, e, exact in other:
        c, q = go(e)
        check((q.rc, q.out, q.err) == (r.rc, r.out, r.err), what, 'with %s the run ends with %r instead of %r', e, q, r)
        check(files(c) == F, what, 'with %s the files are %s instead of %s', e, files(c), F)
        b = h5([c+'/'+f for f in snaps])
        try:
            for i, f in enumerate(snaps): compare(a[i], b[i], 1e-9 if f.startswith('results') else 3e-7, f, exact)
            for f in F:
                if f in snaps: continue
                x, y = open(d+'/'+f).read(), open(c+'/'+f).read()
                if x == y: continue
                check(not exact, what, '%s differs', f)
                x, y = [[[float(w) for w in l.split()] for l in t.splitlines()] for t in (x, y)]
                near(x, y, 2e-5, f)
        except pbt.Fail as E: raise pbt.Fail(what, 'with %s: %s' % (e, E.msg))

def fields(s):
    p, L = build(s); k = s.draw(3)
    if s.flip(0.5): p.labels.add('sinks'); L = list(L)+['S.sink_list:append({%s,%s,%s})' % (num(s.fine(-5, 5)), num(s.fine(-5, 5)), num(s.short(-0.5, 0.5))) for _ in range(s.range(1, 40))]
    text = '\n'.join(['S.caption="q"', 'S.dt="1/20"', 'S.dt_save=S.dt', 'S.finish=%s' % num(k/20)]+L+['simulate()'])+'\n'
    d = scratch(); open(d+'/s.lua', 'w').write(text)
    r = run(['vvflow', 's.lua'], d); check(r.rc == 0, 'exit', '%r', r)
    for l in p.labels: s.label(l)
    snap = d+'/results_q/'+sorted(os.listdir(d+'/results_q'))[-1]
    for _ in range(s.range(1, 3)):
        kind = s.pick(['G', 'P', 'S', 'Ux', 'Uy']); ref = s.pick('ofb' if p.nbodies else 'of')
        nx, ny = s.range(2, 70), s.range(2, 70); x, y = s.fine(-5, 2), s.fine(-5, 2); w = s.fine(1, 8)
        req = [snap, kind[0], num(x), num(y), num(w/max(nx, ny)), str(nx), str(ny), num(s.pick([2, 1, 0.5])), ref, kind[1:] or 'x', 'none']
        gaps = {}
        def go(e, o):
            q = run(['vvfields', d+'/'+o]+req, d, env=e, timeout=120); gaps[o] = open(d+'/'+o+'.gaps').read() if os.path.exists(d+'/'+o+'.gaps') else ''; return q, open(d+'/'+o+'.map', 'rb').read() if os.path.exists(d+'/'+o+'.map') else b''
        s.describe('field %s %dx%d of %s' % (kind, nx, ny, ' '.join(sorted(p.labels)))); s.label('field '+kind[0])
        r, a = go({}, 'one')
        check(r.rc == 0, 'exit', '%r', r)
        q, b = go({}, 'two'); check(b == a and q.out == r.out, 'again', 'the field %s differs when it is computed again', kind)
        s.nontrivial()
        for i in range(s.range(1, 2)):
            e = env(s); q, b = go(e, 'more%d' % i)
            check(q.rc == 0 and len(b) == len(a), 'exit', '%s: %r', e, q)
            check(gaps['more%d' % i] == gaps['one'], 'gaps', 'with %s the cuts of field %s differ', e, kind)
            if a == b: continue
            u = struct.unpack('<%df' % (len(a)//4), a); v = struct.unpack('<%df' % (len(b)//4), b)
            m = max([abs(z) for z in u[nx+1:] if abs(z) < math.inf] or [0])
            bad = [(j, z, t) for j, (z, t) in enumerate(zip(u, v)) if not (same(z, t) or abs(z-t) <= 3e-7*m)]
            check(not bad, 'field', 'with %s values %s of field %s differ', e, bad[:4], kind)
main('C28', [Sub('runs', 150, 4000, runs, races=True), Sub('fields', 200, 5000, fields, races=True)])
