"""C32: sensors record the velocity of the flow."""
import os, sys, math
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbt
from pbt import check, run, num, h5, lua_str, scratch, Sub, main, Discard
from fractions import Fraction
import problem

def spell(s, x):
    k = s.draw(5)
    if k == 0: return repr(x)
    if k == 1: return '%+.17g' % x
    if k == 2: return '%.17e' % x
    if k == 3: return float(x).hex()
    return '%r' % x
def flow(s):
    """an ink source in every sensor: its ink leaves with the velocity that the sensor shows"""
    d = scratch()
    few = s.flip(0.5)
    if few: p = problem.generate(s, maxbodies=1, seg=8, kinds=['cyl', 'par', 'plate'], streaks=False, viscous=False if s.flip(0.7) else None)
    else: p = problem.generate(s, maxbodies=3, seg=30, streaks=False)
    if not few and s.flip(0.5):
        m = s.range(20, 300)
        p.lines.append('for i=1,%d do S.vort_list:append({%s+%s*math.sin(i*1.7),%s*math.cos(i*2.3),0.01*math.sin(i)}) end' % (m, num(s.fine(4, 6)), num(s.fine(0.5, 1.5)), num(s.fine(1, 3))))
    k = s.range(1, 6) if s.draw(8) else s.range(7, 150)
    pts = []
    while len(pts) < k: pts.append((s.fine(-6, 6), s.fine(-6, 6)) if s.flip(0.7) else (s.short(-4, -3), s.short(-3, 3)))
    if s.flip(0.2): pts.append(pts[0]); s.label('a point twice')
    text = ''
    for x, y in pts: text += spell(s, x)+s.pick([' ', '\t', '\n', '   '])+spell(s, y)+s.pick(['\n', '\n', ' ', '\r\n', '\n\n'])
    if s.flip(0.2): text = text.rstrip()
    with open(d+'/points', 'w') as f: f.write(text)
    L = list(p.lines)
    for i, (x, y) in enumerate(pts): L.append('S.streak_source_list:append({%s,%s,%d})' % (num(x), num(y), i+1))
    dt = s.pick([Fraction(1, 20), Fraction(1, 10), Fraction(1, 50), Fraction(3, 40)]); n = s.range(1, 8)
    start = dt*s.pick([0, 0, 0, 5, -2])
    L.append('S.caption="q" S.dt="%d/%d" S.dt_save=S.dt S.dt_streak=S.dt S.time="%d/%d" S.finish=%s simulate()' % (dt.numerator, dt.denominator, start.numerator, start.denominator, num(float(start+dt*n))))
    with open(d+'/s.lua', 'w') as f: f.write('\n'.join(L))
    argv = ['vvflow']+s.pick([['-s', 'points'], ['--sensors', 'points'], ['--sensors=points'], ['--progress', '--sensors=points']])+['s.lua']
    old = s.pick([None, None, None, '', '0 \t1 \t2\n', 'x\n'*s.range(1, 400)])
    if old is not None:
        s.label('an earlier file'); open(d+'/velocity_q', 'w').write(old)
    r = run(argv, d)
    check(r.rc == 0, 'run', '%r', r)
    text = open(d+'/velocity_q').read()
    if old: check(text.startswith(old), 'kept', 'the lines that the file held before are not kept'); text = text[len(old):]
    rows = [l.split() for l in text.splitlines()]
    check(len(rows) == n+1, 'lines', '%d lines of %d steps', len(rows), n+1)
    for i, w in enumerate(rows): check(len(w) == 1+2*len(pts) and w[0] == '%g' % float(start+dt*i), 'lines', 'line %r at time %s with %d points', w, start+dt*i, len(pts))
    names = sorted(os.listdir(d+'/results_q')); snaps = dict()
    for j, x in zip(names, h5([d+'/results_q/'+x for x in names])): t = x['/']['time']; snaps[Fraction(t['value'], t['timescale'])] = x
    s.describe('%d points, %s, %d steps of %s from %s' % (len(pts), ' '.join(sorted(p.labels)), n+1, dt, start))
    if k > 64: s.label('many points')
    seen = 0; dtf = float(dt)
    for i in range(n):
        t = start+dt*i; now, then = snaps.get(t), snaps.get(t+dt)
        if then is None: continue
        ink = then.get('ink', dict(data=[]))['data']
        if any(not math.isfinite(v) for r in ink for v in r): break
        bodies = [b for q, b in then.items() if q.startswith('body')]
        vort = (now or then).get('vort', dict(data=[]))['data']
        segs = [c for q, b in (now or then).items() if q.startswith('body') for c in b['data']]
        allv = [(v[0], v[1], v[2]) for v in vort]+[(c[0], c[1], c[2]) for c in segs]
        box = [(v[0], v[1]) for v in allv]+[(v[0], v[1]) for v in (now or {}).get('ink', dict(data=[]))['data']]+pts
        dl = math.inf if not segs else min(math.hypot(a[0]-b[0], a[1]-b[1]) for q, bb in (now or then).items() if q.startswith('body') for a, b in zip(bb['data'], bb['data'][1:]))
        size = max(max(q[k] for q in box)-min(q[k] for q in box) for k in (0, 1)) if box else 0
        # one leaf of the tree: sums without groups on both sides
        one = now is not None and len(allv) < 15 and len(ink) < 15 and size < 60*dl
        for j, (x, y) in enumerate(pts):
            try: u, v = float(rows[i][1+2*j]), float(rows[i][2+2*j])
            except ValueError: raise pbt.Fail('lines', 'not numbers: %r' % rows[i])
            if not (math.isfinite(u) and math.isfinite(v)): continue
            q = math.hypot(u, v)
            if q > 50: continue
            tol = 1.2e-5*q+1e-7
            if not one:
                if now is None: continue
                # the ink moves with the expansion about its leaf, the sensor with the exact sum of the groups
                tol += 0.03*sum(abs(g)/(2*math.pi*max(1e-3, math.hypot(a-x, b-y))) for a, b, g in allv)
            tx, ty = x+u*dtf, y+v*dtf
            mine = [r for r in ink if r[2] == j+1]
            best = min((math.hypot(r[0]-tx, r[1]-ty) for r in mine), default=math.inf)
            if best/dtf > tol and bodies:
                # ink that meets a body is gone
                lost = len(mine) < sum(1 for r in (now or {}).get('ink', dict(data=[]))['data'] if r[2] == j+1)+1
                if lost: continue
            seen += 1
            check(best/dtf <= tol, 'velocity', 'sensor (%r,%r) at %s shows (%r,%r), its ink left with another velocity (off by %g, tolerance %g)', x, y, t, u, v, best/dtf, tol)
        s.label('exact' if one else 'groups')
    s.nontrivial(seen > 0)

main('C32', [Sub('flow', 600, 15000, flow)])
