"""C04: output schedule. Random times, steps, schedules and sessions against a model in
exact fractions: which snapshots exist with which time, which rows the step history has."""
import os, sys, math, struct
from fractions import Fraction as Q
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbt
from pbt import check, run, num, h5

def f32(x): return struct.unpack('<f', struct.pack('<f', x))[0]
class T:
    """value/timescale as the program holds it; only the ratio matters for the schedule"""
    def __init__(self, v, ts): self.v, self.ts = v, ts
    @property
    def q(self): return Q(self.v, self.ts)
    def __float__(self): return float(self.v)/float(self.ts)
    def lua(self, s):
        k = s.draw(3)
        if k == 0: return '"%d/%d"' % (self.v, self.ts)
        if k == 1: return '{%d,%d}' % (self.v, self.ts)
        x = self.q
        for e in range(0, 7):
            if (x*10**e).denominator == 1 and abs(x)*10**e < 2**31: return num(float(x))   # such a decimal is taken exactly
        return '"%d/%d"' % (self.v, self.ts)
def tstr(t): return '%d/%d' % (t.v, t.ts)
def gen_ts(s): return s.pick([10, 1, 2, 4, 5, 3, 7, 100, 20, 50, 6, 8, 12, 13, 64, 25, 1000, 30, 9, 250, 128, 11, 77])
def gen_dt(s): return T(s.pick([1, 2, 3, 5, 7, 4]), gen_ts(s))
def gen_save(s, dt):
    k = s.draw(6)
    if k == 0: return T(0, 1)
    if k <= 2: return T(dt.v*s.range(1, 5), dt.ts)
    if k == 3: return T(dt.v*s.range(1, 7), dt.ts*s.range(1, 4))
    if k == 4: return gen_dt(s)
    return T(dt.v, dt.ts*s.range(2, 5))
def gen_t0(s, dt):
    k = s.draw(6)
    if k == 0: return T(0, 1)
    if k == 1: return T(dt.v*s.range(-6, 12), dt.ts)
    if k == 2: return T(s.range(-5, 30), gen_ts(s))
    if k == 3: return T(s.range(-20, 2000), s.pick([1, 10, 100]))
    if k == 4: return T(-dt.v*s.range(1, 5), dt.ts*s.range(1, 3))
    return T(dt.v*s.range(0, 4)+s.range(0, 3), dt.ts)

class Model:
    def __init__(m): m.snaps, m.rows, m.sens = {}, [], []
    def simulate(m, t, dt, dtsave, finish, sensors, label):
        """returns the time after; t is a Fraction"""
        lim = finish+float(dt)/2
        m.rows = m.rows[:next((i for i, r in enumerate(m.rows) if not r < f32(float(t))), len(m.rows))]
        n = 0
        while float(t) < lim:
            if abs(float(t)-lim) < 1e-9*max(1, abs(lim)): raise pbt.Discard()
            if dtsave.v != 0 and (t/dtsave.q).denominator == 1 and t >= 0:
                ix = t/dt.q + Q(1, 2)
                if abs(ix-round(ix)) < Q(1, 10**7): raise pbt.Discard()
                m.snaps['%06d' % math.floor(ix)] = t
            m.rows.append(f32(float(t)))
            if sensors: m.sens.append(t)
            t += dt.q; n += 1
        if abs(float(t)-lim) < 1e-9*max(1, abs(lim)): raise pbt.Discard()
        return t, n

def body_lua(s):
    k = s.draw(4)
    if k == 0: return ''
    o = 'local b=gen_cylinder{R=%s,N=%d}\n' % (num(s.short(0.2, 0.9)), s.range(3, 6))
    if k == 2: o += 'b.holder_vx="%s"\n' % num(s.short(-0.3, 0.3))
    if k == 3: o += 'b.holder_vo="sin(t)"\n'
    return o + 'S.body_list:insert(b)\n'

def history(s):
    d = pbt.scratch()
    cap = s.pick(['q', 'a b', 'run%d', '100%', 'x_y-z', 'ü']) if s.flip(0.7) else ''.join(s.pick(['%', '%', '%%', 'd', 's', 'n', '0', '6', ' ', '.', '-', '*', 'ß']) for _ in range(s.range(1, 8)))
    m = Model()
    npts = s.draw(3)
    pts = [(s.short(-3, 3), s.short(-3, 3)) for _ in range(npts)]
    with open(d+'/sens', 'w') as f: f.write(''.join('%r %r\n' % p for p in pts))
    dt = gen_dt(s); t = gen_t0(s, dt); save = gen_save(s, dt); body = body_lua(s)
    vis = s.flip(0.3); vx = s.short(0, 2, 1)
    nsess = s.range(1, 4); total = 0
    if nsess == 1 and s.flip(0.3): t = T(dt.v*s.range(10**6, 10**8), dt.ts); s.label('late')
    flags_seen = set()
    finish = None
    kept_before = None
    for i in range(nsess):
        kind = 'new' if i == 0 else s.pick(['again', 'cli', 'load', 'twice'])
        names = sorted(m.snaps)
        if kind in ('cli', 'load') and not names: kind = 'again'
        flags = []
        prof = s.flip(0.15)
        if s.flip(0.3): flags.append('--progress')
        usesens = npts > 0 and s.flip(0.6)
        if usesens: flags += s.pick([['-s', 'sens'], ['--sensors', 'sens'], ['--sensors=sens']])
        old = h5(d+'/stepdata_%s.h5' % cap) if i else None
        oldrows = list(m.rows)
        head = 'S.caption=%s\n' % pbt.lua_str(cap)
        def finish_for(t, dt): return float(t) + s.range(0, 10)*float(dt) + s.pick([0, 0, 0.25, -0.25, 0.4, -0.4, 0.01])*float(dt)
        if kind == 'cli':
            # continue: the schedule of the snapshot, unless its finish has passed
            nm = s.pick(names); t = m.snaps[nm]
            at = h5('%s/results_%s/%s.h5' % (d, cap, nm))['/']
            dt = T(at['dt']['value'], at['dt']['timescale']); save = T(at['dt_save']['value'], at['dt_save']['timescale']); finish = at['time_to_finish']
            argv = ['vvflow'] + flags + ['results_%s/%s.h5' % (cap, nm)]
            s.describe('| continue %s ' % nm)
            start = t; t, n = m.simulate(t, dt, save, finish, usesens, s)
        else:
            if kind == 'load':
                nm = s.pick(names); t = m.snaps[nm]
                at = h5('%s/results_%s/%s.h5' % (d, cap, nm))['/']
                dt = T(at['dt']['value'], at['dt']['timescale']); save = T(at['dt_save']['value'], at['dt_save']['timescale'])
                txt = 'S:load(%s)\n' % pbt.lua_str('results_%s/%s.h5' % (cap, nm))
                if s.flip(0.4): dt = gen_dt(s); txt += 'S.dt=%s\n' % dt.lua(s)
                if s.flip(0.4): save = gen_save(s, dt); txt += 'S.dt_save=%s\n' % save.lua(s)
                s.describe('| load %s ' % nm)
            else:
                txt = head + 'S.inf_vx="%s*t"\n' % num(vx)
                if vis: txt += 'S.re=100\n'
                txt += body
                if i:
                    if s.flip(0.5): dt = gen_dt(s)
                    t = gen_t0(s, dt).q if s.flip(0.6) else Q(0)
                    if s.flip(0.5): save = gen_save(s, dt)
                else: t = t.q
                tt = T(t.numerator, t.denominator)
                txt += 'S.time=%s\nS.dt=%s\nS.dt_save=%s\n' % (tt.lua(s), dt.lua(s), save.lua(s))
            start = t
            finish = finish_for(t, dt)
            txt += 'S.finish=%s\nsimulate()\n' % num(finish)
            s.describe('| %s t0=%s dt=%s save=%s finish=%r ' % (kind, t, tstr(dt), tstr(save), finish))
            if float(dt) <= 0: raise pbt.Discard()
            t, n = m.simulate(t, dt, save, finish, usesens, s)
            if kind == 'twice':
                finish = finish_for(t, dt); txt += 'S.finish=%s\nsimulate()\n' % num(finish)
                s.describe('and on to %r ' % finish)
                t, n2 = m.simulate(t, dt, save, finish, usesens, s); n += n2
            with open(d+'/s.lua', 'w') as f: f.write(txt)
            argv = ['vvflow'] + flags + ['s.lua']
        total += n
        s.label(kind)
        r = run(argv, d)
        check(r.rc == 0, 'exit', 'session %d (%s): %r', i, kind, r)
        # snapshots
        rd = d+'/results_'+cap
        have = sorted(os.listdir(rd)) if os.path.isdir(rd) else []
        want = sorted(k+'.h5' for k in m.snaps)
        check(have == want, 'snapshots', 'after session %d (%s): snapshots %s, expected %s', i, kind, have, want)
        for k, fj in zip(sorted(m.snaps), h5([rd+'/'+k+'.h5' for k in sorted(m.snaps)])):
            a = fj['/']['time']
            check(Q(a['value'], a['timescale']) == m.snaps[k], 'snapshot-time', 'snapshot %s holds time %s/%s, expected %s', k, a['value'], a['timescale'], m.snaps[k])
        # step history
        st = h5(d+'/stepdata_%s.h5' % cap)
        check(pbt.txt(st['/'].get('caption')) == cap, 'stepdata', 'caption of the step history is %r', st['/'].get('caption'))
        rows = [x[0] for x in st['time']['data']]
        check(rows == m.rows, 'rows', 'after session %d (%s): step history has times %s, expected %s', i, kind, rows, m.rows)
        for k in st:
            if isinstance(st[k], dict) and 'data' in st[k]:
                check(len(st[k]['data']) == len(m.rows), 'row-count', 'after session %d (%s): %s has %d rows, there are %d times', i, kind, k, len(st[k]['data']), len(m.rows))
                if old and k in old and 'data' in old[k]:
                    keep = next((j for j, x in enumerate(oldrows) if not x < f32(float(start))), len(oldrows))
                    check(str(st[k]['data'][:keep]) == str(old[k]['data'][:keep]), 'kept-rows', 'session %d (%s) changed rows before its start in %s', i, kind, k)
                    if keep: s.label('rows kept')
                    if keep < len(oldrows): s.label('rows dropped')
        # sensors
        p = d+'/velocity_'+cap
        lines = open(p).read().splitlines() if os.path.exists(p) else []
        check(len(lines) == len(m.sens), 'sensors', 'after session %d: %d sensor lines, expected %d', i, len(lines), len(m.sens))
        for l, x in zip(lines, m.sens):
            c = l.split()
            check(len(c) == 1+2*npts and c[0] == '%g' % float(x), 'sensors', 'sensor line %r at time %s with %d points', l, float(x), npts)
            if not body:
                for j in range(npts): check(abs(float(c[1+2*j]) - vx*float(x)) <= 1e-5*abs(vx*float(x))+1e-9 and float(c[2+2*j]) == 0, 'sensor-value', 'sensor line %r, the incoming flow is %r', l, vx*float(x))
    s.nontrivial(total >= 2 and (nsess > 1 or m.snaps))
    if m.snaps: s.label('snapshots')
sys.exit(pbt.main('C04', [pbt.Sub('sessions', 500, 12000, history)]))
