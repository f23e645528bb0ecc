"""C18: the step history records the state of each step. A run that saves a snapshot at every
step is compared, row by row and body by body, with its own snapshots (read as plain HDF5)."""
import os, sys, math, struct
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbt, problem
from pbt import check, run, num, h5

def f32(x):
    try: return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError: return math.copysign(math.inf, x)
def same(a, b): return a == b or (a != a and b != b)
QUANT = [('holder_position', 'holder_position'), ('delta_position', 'delta_position'), ('speed_slae', 'speed_slae'), ('force_hydro', 'force_hydro'), ('force_holder', 'force_holder')]
def names_of(d): return sorted(os.listdir(d+'/results_q'))
def tiny(s, n):
    """many bodies of three corners, each with a motion of its own"""
    o = []
    for i in range(n):
        o += ['b=gen_cylinder{R=0.1,N=3}', 'b:move_r{%d,%d}' % (i % 12, i//12), 'b.holder_vx="%s"' % num((i+1)/1000), 'S.body_list:insert(b)']
    return '\n'.join(o)+'\n'

def case(s):
    many = s.flip(0.03)
    p = problem.generate(s, maxbodies=0 if many else 4)
    n = s.range(90, 120) if many else p.nbodies
    txt = p.lua() + (tiny(s, n) if many else '')
    dt = s.pick([(1, 10), (1, 20), (3, 50), (1, 5)]); steps = s.range(0, 1 if many else 6); k0 = 0 if s.flip(0.7) else s.range(-2, 4)
    prof = s.flip(0.5)
    d = pbt.scratch()
    with open(d+'/s.lua', 'w') as f: f.write(txt+'S.caption="q"\nS.time="%d/%d"\nS.dt="%d/%d"\nS.dt_save=S.dt\nS.finish=%s\nsimulate()\n' % (k0*dt[0], dt[1], dt[0], dt[1], num((k0+steps)*dt[0]/dt[1])))
    s.describe('%d bodies, %d steps of %d/%d from %d, profile %s; %s' % (n, steps, dt[0], dt[1], k0, prof, p.lua().replace('\n', '; ')))
    # an earlier run of another problem under the same caption leaves a file that is taken over
    before = s.flip(0.3)
    if before:
        q = problem.generate(s, maxbodies=3, seg=8)
        with open(d+'/old.lua', 'w') as f: f.write(q.lua()+'S.caption="q"\nS.time=0\nS.dt=0.25\nS.finish=%s\nsimulate()\n' % num(s.range(0, 3)*0.25))
        r = run(['vvflow']+(['--profile'] if s.flip() else [])+['old.lua'], d)
        check(r.rc == 0 and r.err == '', 'exit', 'earlier run: %r', r)
        s.describe(' after a run of another problem: '+q.lua().replace('\n', '; '))
        s.label('over an earlier run')
        for x in names_of(d): os.unlink(d+'/results_q/'+x)
    r = run(['vvflow']+(['--profile'] if prof else [])+['s.lua'], d)
    check(r.rc == 0 and r.err == '', 'exit', 'run: %r', r)
    st = h5(d+'/stepdata_q.h5')
    files = names_of(d)
    snaps = dict((x['/']['time']['value']*dt[1]//x['/']['time']['timescale'], x) for x in h5([d+'/results_q/'+x for x in files]))
    T0 = k0*dt[0]
    times = [x[0] for x in st['time']['data']]
    want = [f32((k0+i)*dt[0]/dt[1]) for i in range(steps+1)]
    start = len(times)-(steps+1)
    check(start >= 0 and times[start:] == want, 'time', 'times of the step history %s, expected %s', times, want)
    groups = sorted((k[:-1] for k in st if k.endswith('/') and k != '/'), key=lambda x: (len(x), x))
    check(groups[:n] == ['body%02d' % i for i in range(n)] and (before or len(groups) == n), 'groups', 'groups %s for %d bodies', groups, n)
    for g in groups[n:]:     # bodies of the earlier run: nothing of them after this run began
        for k in st:
            if k.startswith(g+'/') and k != g+'/': check(len(st[k]['data']) <= start, 'stale', '%s has %d rows, but this run begins at row %d', k, len(st[k]['data']), start)
    wantsets = set('holder_position delta_position speed_slae force_hydro force_holder force_friction'.split())
    for b in range(n):
        g = 'body%02d' % b
        have = set(k.split('/')[1] for k in st if k.startswith(g+'/') and k != g+'/')
        check(wantsets | ({'pressure', 'friction'} if prof else set()) <= have, 'datasets', '%s has %s', g, sorted(have))
        for q in have:
            rows = st[g+'/'+q]['data']
            if q in ('pressure', 'friction') and not prof:
                check(len(rows) <= start, 'stale', '%s/%s of an earlier run has %d rows, but this run begins at row %d', g, q, len(rows), start)
                continue
            check(len(rows) == len(times), 'rows', '%s/%s has %d rows, there are %d times', g, q, len(rows), len(times))
        fr = st[g+'/force_friction']['data']
        for i in range(steps+1):
            k = T0+i*dt[0]
            sn, nx = snaps.get(k), snaps.get(k+dt[0])
            if k >= 0: check(sn is not None, 'snapshot', 'no snapshot at step %d', i)
            if sn is None: continue
            a = sn[g]['attrs']
            for q, m in QUANT:
                row = st[g+'/'+q]['data'][start+i]
                v = [f32(a[m][c]) for c in 'xyo']
                check(len(row) == 3 and all(same(x, y) for x, y in zip(row, v)), q, 'row %d of %s/%s is %s, the snapshot has %s', i, g, q, row, v)
            if nx:
                row = fr[start+i]; v = [f32(nx[g]['attrs']['friction_prev'][c]) for c in 'xyo']
                check(all(same(x, y) for x, y in zip(row, v)), 'force_friction', 'row %d of %s/force_friction is %s, the next snapshot says %s', i, g, row, v)
            fric = sn.get('friction_'+g)
            c = sn[g]['data']
            if 1:
                # friction from its definition
                re = sn['/']['re']; N = len(c)
                F = [0, 0, 0]; sc = [0, 0, 0]; cp = 0; fl = [v[0] if isinstance(v, list) else v for v in fric['data']] if fric else [0]*N
                # the body axis
                ax = [a['holder_position'][k]+a['delta_position'][k] for k in 'xy']
                for j in range(N):
                    x0, y0 = c[j][:2]; x1, y1 = c[(j+1) % N][:2]
                    dx, dy = x1-x0, y1-y0; L = math.hypot(dx, dy)
                    t = fl[j]/(math.pi*re)/L
                    rx, ry = (x0+x1)/2, (y0+y1)/2
                    F[0] -= dx*t; F[1] -= dy*t; sc[0] += abs(dx*t); sc[1] += abs(dy*t); sc[2] += abs(t)*(abs(rx)+abs(ry)+3)*L
                row = fr[start+i]
                for j in range(2): check(abs(row[j]-F[j]) <= 1e-6*(sc[j]+abs(F[j]))+1e-30, 'friction-sum', 'row %d of %s/force_friction is %s, the surface friction sums up to %s', i, g, row, F[:2])
                if prof:
                    pr = st[g+'/pressure']['data'][start+i]; fp = st[g+'/friction']['data'][start+i]
                    check(len(pr) == N and len(fp) == N, 'profile-size', '%s has %d segments, profiles of %d and %d', g, N, len(pr), len(fp))
                    S = dt[0]/dt[1]; m = 0
                    for j in range(N):
                        cp += c[j][2]+c[j][3]; m = max(m, abs(cp), abs(c[j][3]), abs(c[j][2]))
                        check(abs(pr[j]-cp/S) <= 1e-6*(m*N+1e-30)/S, 'pressure', 'row %d of %s/pressure[%d] is %r, expected %r', i, g, j, pr[j], cp/S)
                        f = fl[j]/(math.pi*re)
                        check(abs(fp[j]-f) <= 1e-6*abs(f)+1e-36, 'friction', 'row %d of %s/friction[%d] is %r, expected %r', i, g, j, fp[j], f)
    # what is saved meanwhile makes no difference to the step history
    if s.flip(0.35):
        m = s.range(2, 4); e = pbt.scratch(); s.label('fewer snapshots')
        save = 'S.dt_save="%d/%d"' % (m*dt[0], dt[1]) + ('\nS.dt_profile="%d/%d"' % (s.range(1, 3)*dt[0], dt[1]) if s.flip() else '')
        with open(e+'/s.lua', 'w') as f: f.write(open(d+'/s.lua').read().replace('S.dt_save=S.dt', save))
        r = run(['vvflow']+(['--profile'] if prof else [])+['s.lua'], e)
        check(r.rc == 0 and r.err == '', 'exit', 'run with fewer snapshots: %r', r)
        s2 = h5(e+'/stepdata_q.h5')
        for k in s2:
            if 'data' not in s2[k]: continue
            a, b = s2[k]['data'], st[k]['data'][start:]
            check(len(a) == len(b), 'fewer', 'with %s %s has %d rows instead of %d', save, k, len(a), len(b))
            for i, (x, y) in enumerate(zip(a, b)):
                x, y = [v if isinstance(v, list) else [v] for v in (x, y)]
                check(len(x) == len(y) and all(same(u, v) for u, v in zip(x, y)), 'fewer', 'with %s row %d of %s is %s instead of %s', save, i, k, x, y)
    s.nontrivial(n > 0 and steps > 0)
    for l in p.labels: s.label(l)
    if many: s.label('many bodies')
    if prof: s.label('profile')
sys.exit(pbt.main('C18', [pbt.Sub('rows', 400, 8000, case)]))
