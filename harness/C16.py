"""C16: symmetries of whole runs. A random problem is run as it is and transformed (shifted, turned by
right angles, scaled by powers of two, mirrored, seen from a moving frame); the runs must correspond."""
import os, sys, math
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbt
from pbt import check, run, num, h5

class Tr:
    """r -> 2^a * turn^q * mirror r + d;  speeds scale by 2^b;  U: speed of the frame added"""
    def __init__(t, q=0, mirror=False, d=(0, 0), a=0, b=0, U=(0, 0)): t.q, t.m, t.d, t.a, t.b, t.U = q, mirror, d, a, b, U
    def dir(t, x, y):
        if t.m: y = -y
        for _ in range(t.q % 4): x, y = -y, x
        return x, y
    def pos(t, x, y, time=0):
        x, y = t.dir(x, y); L = 2.0**t.a
        return x*L+t.d[0]+t.U[0]*time, y*L+t.d[1]+t.U[1]*time
    def vec(t, x, y, k): x, y = t.dir(x, y); return x*k, y*k
    @property
    def sgn(t): return -1 if t.m else 1
    L = property(lambda t: 2.0**t.a); V = property(lambda t: 2.0**t.b); Tm = property(lambda t: 2.0**(t.a-t.b))

class Ex:
    """A*sin(W*t+P)+C"""
    def __init__(e, A, W, P, C): e.A, e.W, e.P, e.C = A, W, P, C
    def lua(e, k, Tm, add=0):
        if e.A == 0 or k == 0: return '"%s"' % num(e.C*k+add)
        return '"%s*sin(%s*t+%s)+%s"' % (num(e.A*k), num(e.W/Tm), num(e.P), num(e.C*k+add))
def gex(s, amp, still=0.4):
    if s.flip(still): return Ex(0, 1, 0, 0)
    return Ex(0 if s.flip(0.5) else s.short(-amp, amp), s.short(0.5, 4, 1), s.short(0, 3, 1), s.short(-amp, amp))

def polygon(s, uniform):
    n = s.range(5, 12)
    if uniform: rad, a0 = [s.short(0.3, 0.7)]*n, s.fine(0, 6)
    else: r0 = s.short(0.3, 0.6); rad, a0 = [r0*s.fine(0.75, 1.25) for _ in range(n)], s.fine(0, 6)
    return [(rad[i]*math.cos(a0-2*math.pi*i/n), rad[i]*math.sin(a0-2*math.pi*i/n)) for i in range(n)]
def gen(s, uniform=False, springs=True, viscous=None, motion=True):
    P = dict(bodies=[], vort=[], sink=[])
    P['re'] = s.pick([100, 30, 300]) if (s.flip() if viscous is None else viscous) else math.inf
    P['inf'] = (gex(s, 1, 0.1), gex(s, 1)); P['inf_g'] = s.short(-1, 1) if s.flip(0.3) else 0
    P['gravity'] = (s.short(-1, 1), s.short(-1, 1)) if s.flip() else (0, 0)
    P['dt'] = s.pick([(1, 16), (1, 32), (1, 8), (3, 64)])
    for i in range(s.range(1, 3)):
        cx, cy = [(0, 0), (2.2, 0.4), (-0.5, 2.3)][i]; cx += s.fine(-0.2, 0.2); cy += s.fine(-0.2, 0.2)
        b = dict(poly=[(x+cx, y+cy) for x, y in polygon(s, uniform)], axis=(cx+s.fine(-0.1, 0.1), cy+s.fine(-0.1, 0.1)), d=(0, 0, 0), v=(Ex(0, 1, 0, 0),)*3, k=None, root=None, special=0, density=1, slip=None)
        if motion and s.flip(): b['v'] = (gex(s, 0.3), gex(s, 0.3), gex(s, 0.3))
        if springs and s.flip(0.4):
            f = lambda hi: math.inf if s.flip(0.3) else s.short(0, hi)
            b['k'] = (f(30), f(30), f(10)); b['c'] = (s.short(0, 2), s.short(0, 2), s.short(0, 1)); b['density'] = s.pick([1, 2, 5, 1.5])
            if s.flip(): b['d'] = (s.short(-0.1, 0.1), s.short(-0.1, 0.1), s.short(-0.2, 0.2))
            b['sp'] = (s.short(-0.2, 0.2), s.short(-0.2, 0.2), s.short(-0.2, 0.2)) if s.flip() else (0, 0, 0)
        if not uniform and s.flip(0.2): b['special'] = s.range(0, 4)
        if i and s.flip(0.25): b['root'] = s.range(0, i-1)
        if not uniform and s.flip(0.15): b['slip'] = [s.flip(0.3) for _ in b['poly']]
        P['bodies'].append(b)
    for _ in range(s.draw(8)): P['vort'].append((s.fine(3.2, 5), s.fine(-2, 2), s.short(-0.4, 0.4)))
    # all circulation in the flow adds up to nothing: otherwise the first step creates circulation
    # out of nowhere, with an impulse that depends on where the origin is
    total = math.fsum([v[2] for v in P['vort']]+[P['inf_g']])
    if total: P['vort'].append((s.fine(-4, -3), s.fine(2, 3), -total))
    if s.flip(0.3): P['sink'].append((s.fine(-5, -3), s.fine(-2, 2), s.short(-0.5, 0.5)))
    return P
def script(P, t, d, nsteps):
    o = ['S.caption="q"']
    if P['re'] < math.inf: o.append('S.re=%s' % num(P['re']/(t.L*t.V)))
    sc = 2**10    # dt as a fraction with powers of two
    v, ts = P['dt']; e = t.a-t.b
    if e > 0: v *= 2**e
    else: ts *= 2**-e
    o += ['S.dt="%d/%d"' % (v, ts), 'S.dt_save=S.dt', 'S.dt="%d/%d"' % (v, ts), 'S.dt_save="%d/%d"' % (v, ts), 'S.finish=%s' % num(nsteps*v/ts)]
    def pair(ex, U=(0, 0)):
        """lua expressions of a transformed speed: each component of the image is +-one component"""
        x, y = t.dir(1, 0); x2, y2 = t.dir(0, 1)
        ix = (0, x) if abs(x) > .5 else (1, x2); iy = (0, y) if abs(y) > .5 else (1, y2)
        return ex[ix[0]].lua(ix[1]*t.V, t.Tm, U[0]), ex[iy[0]].lua(iy[1]*t.V, t.Tm, U[1])
    x, y = pair(P['inf'], t.U); o += ['S.inf_vx='+x, 'S.inf_vy='+y]
    o.append('S.inf_g=%s' % num(P['inf_g']*t.sgn*t.L*t.V))
    gx, gy = t.vec(*P['gravity'], t.V**2/t.L); o.append('S.gravity={%s,%s}' % (num(gx), num(gy)))
    for i, b in enumerate(P['bodies']):
        c = [t.pos(*p) for p in b['poly']]; sl = b['slip'] or [False]*len(c)
        if t.m: c = [c[(1-j)%len(c)] for j in range(len(c))]   # segment 0 is the one whose equation is given up
        with open('%s/b%d' % (d, i), 'w') as f: f.write(''.join('%r\t%r\t%d\n' % (p[0], p[1], z) for p, z in zip(c, sl)))
        v = 'b%d' % i
        o.append('%s=load_body("b%d")' % (v, i))
        ax = t.pos(*b['axis']); dd = t.vec(b['d'][0], b['d'][1], t.L)
        o.append('%s.holder_pos={%s,%s,0}' % (v, num(ax[0]-dd[0]), num(ax[1]-dd[1])))
        o.append('%s.delta_pos={%s,%s,%s}' % (v, num(dd[0]), num(dd[1]), num(b['d'][2]*t.sgn)))
        U = t.U if b['root'] is None else (0, 0)
        x, y = pair(b['v'][:2], U); o += ['%s.holder_vx=%s' % (v, x), '%s.holder_vy=%s' % (v, y), '%s.holder_vo=%s' % (v, b['v'][2].lua(t.sgn/t.Tm, t.Tm))]
        sp = b.get('sp', (0, 0, 0)); q = t.vec(sp[0], sp[1], t.V)
        if t.U != (0, 0) or b['k']: o.append('%s.speed={%s,%s,%s}' % (v, num(q[0]+t.U[0]), num(q[1]+t.U[1]), num(sp[2]*t.sgn/t.Tm)))
        if b['k']:
            kx, ky = (b['k'][0], b['k'][1]) if t.q % 2 == 0 else (b['k'][1], b['k'][0]); cx, cy = (b['c'][0], b['c'][1]) if t.q % 2 == 0 else (b['c'][1], b['c'][0])
            o.append('%s.spring_const={%s,%s,%s}' % (v, num(kx*t.V**2), num(ky*t.V**2), num(b['k'][2]*t.V**2*t.L**2)))
            o.append('%s.spring_damping={%s,%s,%s}' % (v, num(cx*t.V*t.L), num(cy*t.V*t.L), num(b['c'][2]*t.V*t.L**3)))
        o.append('%s.density=%s' % (v, num(b['density'])))
        if b['special']: o.append('%s.special_segment=%d' % (v, b['special']))
        if b['root'] is not None: o.append('%s.root=b%d' % (v, b['root']))
        o.append('S.body_list:insert(%s)' % v)
    for x, y, g in P['vort']: p = t.pos(x, y); o.append('S.vort_list:append({%s,%s,%s})' % (num(p[0]), num(p[1]), num(g*t.sgn*t.L*t.V)))
    for x, y, g in P['sink']: p = t.pos(x, y); o.append('S.sink_list:append({%s,%s,%s})' % (num(p[0]), num(p[1]), num(g*t.L*t.V)))
    return '\n'.join(o)+'\nsimulate()\n'
def go(P, t, n):
    d = pbt.scratch()
    with open(d+'/s.lua', 'w') as f: f.write(script(P, t, d, n))
    r = run(['vvflow', 's.lua'], d)
    check(r.rc == 0 and r.err == '', 'exit', 'run: %r', r)
    return h5([d+'/results_q/%s' % x for x in sorted(os.listdir(d+'/results_q'))])
def err(a, b, scale): return max([abs(x-y) for x, y in zip(a, b)] or [0])/scale if not any(x != x or y != y for x, y in zip(a, b)) else (0 if [x != x for x in a] == [x != x for x in b] else math.inf)
def text(P): return '%s' % P if False else 're %s dt %s/%s gravity %s inf_g %s; %s; %d vortices, %d sinks' % (P['re'], P['dt'][0], P['dt'][1], P['gravity'], P['inf_g'], '; '.join('body of %d corners%s%s%s' % (len(b['poly']), ' moving' if any(e.A or e.C for e in b['v']) else '', ' springs %s' % (b['k'],) if b['k'] else '', '' if b['root'] is None else ' on body %d' % b['root']) for b in P['bodies']), len(P['vort']), len(P['sink']))
def matched(va, vb):
    """vb in the order of va: removed particles may leave the lists in another order"""
    if all(abs(x[0]-y[0])+abs(x[1]-y[1]) < 1e-3 for x, y in zip(va, vb)): return vb
    rest, out = list(vb), []
    for x in va: out.append(rest.pop(min(range(len(rest)), key=lambda i: abs(x[0]-rest[i][0])+abs(x[1]-rest[i][1]))))
    return out
def compare(s, P, t, A, B, base, lossy=2, forces=0):
    """compares snapshots; lossy=1: only as long as no particle was merged or absorbed in
    either; lossy=2: as long as the same particles were, and most particles correspond in the first
    snapshot where not; solutions of later snapshots depend too much on which particles are left"""
    check(len(A) == len(B), 'length', '%d and %d snapshots', len(A), len(B))
    prev = None; done = 0
    for k in range(len(A)):
        a, b = A[k], B[k]
        va, vb = a.get('vort', dict(data=[]))['data'], b.get('vort', dict(data=[]))['data']
        if prev is not None and lossy == 1 and (len(va) < prev+shed or len(vb) < prev+shed): s.label('particles lost'); break
        tol = base[min(k, len(base)-1)] if type(base) is tuple else base*10**k
        time = a['/']['time']['value']/a['/']['time']['timescale']
        gs = max([abs(v[2]) for v in va]+[0.3])
        vw = [tuple(t.pos(v[0], v[1], time))+(v[2]*t.sgn*t.L*t.V,) for v in va]
        dist = lambda x, y: max(err(x[:2], y[:2], t.L), err(x[2:], y[2:], gs*t.L*t.V))
        odd = 0
        if k and lossy == 2: odd = max(sum(not any(dist(x, y) <= tol for y in q) for x in p) for p, q in [(vw, vb), (vb, vw)])
        if not odd and len(va) != len(vb):
            check(k and lossy == 2, 'count', 'snapshot %d: %d and %d vortices', k, len(va), len(vb)); odd = 1
        if not odd:
            for i, (x, y) in enumerate(zip(vw, matched(vw, vb))): check(dist(x, y) <= tol or k and lossy == 2, 'vortex', 'snapshot %d, vortex %d is %s, expected %s', k, i, y, x)
        if odd:
            check(odd <= 3+0.5*len(va), 'vortices', 'snapshot %d: %d of %d and %d vortices do not correspond: %s and %s', k, odd, len(va), len(vb), vw, vb)
            s.label('lost differently'); break
        for i, bd in enumerate(P['bodies']):
            ga, gb = a['body%02d' % i], b['body%02d' % i]; N = len(bd['poly'])
            ix = (lambda j: j) if not t.m else (lambda j: (1-j) % N)
            for j in range(N):
                p, q = ga['data'][j], gb['data'][ix(j)]
                check(err(t.pos(p[0], p[1], time), q[:2], t.L) <= tol, 'corner', 'snapshot %d, body %d corner %d is %s, expected %s', k, i, j, q[:2], t.pos(p[0], p[1], time))
                if not (k and lossy == 2) and (not t.m or bd['special'] == 0): check(err([p[2]*t.sgn*t.L*t.V], [q[2]], gs*t.L*t.V) <= tol, 'strength', 'snapshot %d, body %d strength %d is %r, expected %r', k, i, j, q[2], p[2]*t.sgn*t.L*t.V)
            x, y = ga['attrs'], gb['attrs']
            root = bd['root'] is not None
            for m, kr, ko in [('delta_position', t.L, 1), ('speed_slae', t.V, 1/t.Tm), ('force_hydro', t.V**2*t.L, t.V**2*t.L**2), ('force_holder', t.V**2*t.L, t.V**2*t.L**2), ('friction_prev', t.V**2*t.L, t.V**2*t.L**2)]:
                if m.startswith('force') and k < forces or k and lossy == 2 and m != 'delta_position': continue
                U = t.U if m == 'speed_slae' else (0, 0)
                w = t.vec(x[m]['x'], x[m]['y'], kr); w = (w[0]+U[0], w[1]+U[1], x[m]['o']*ko*t.sgn); g = (y[m]['x'], y[m]['y'], y[m]['o'])
                sc = 1 if not m.startswith('force') else 1+max(abs(x[m][c]) for c in 'xyo')
                check(err(w[:2], g[:2], kr*sc) <= tol and err(w[2:], g[2:], ko*sc) <= tol, m, 'snapshot %d, body %d %s is %s, expected %s', k, i, m, g, w)
        if max([abs(g[2]) for i in range(len(P['bodies'])) for g in a['body%02d' % i]['data']]) > 30: s.label('blown up'); break
        prev = len(va); done = k+1
        shed = sum(abs(g[2]) >= 1e-10 and not (bd['slip'] and bd['slip'][j]) for i, bd in enumerate(P['bodies']) for j, g in enumerate(a['body%02d' % i]['data']))
    s.nontrivial(done > 1)
    s.label('compared %d' % done)
def exact(s):
    P = gen(s)
    t = Tr(d=(s.short(-3, 3), s.short(-3, 3)) if s.flip(0.6) else (0, 0))
    if s.flip(): t.a, t.b = s.range(-3, 3), s.range(-3, 3)
    n = s.range(1, 6)
    s.describe('%s; %d steps; moved %s, lengths x2^%d, speeds x2^%d' % (text(P), n, t.d, t.a, t.b))
    compare(s, P, t, go(P, Tr(), n), go(P, t, n), 1e-9, lossy=int(t.a != 0 and P['re'] < math.inf))
    s.label('scaled' if t.a or t.b else 'moved'); s.label('inviscid' if P['re'] == math.inf else 'viscous')
def turned(s):
    # far groups of particles are cut along the axes, so results agree up to the error of their approximation
    P = gen(s)
    t = Tr(q=s.range(1, 3), d=(s.short(-3, 3), s.short(-3, 3)) if s.flip(0.6) else (0, 0))
    n = 1
    s.describe('%s; %d steps; turned %d, moved %s' % (text(P), n, t.q, t.d))
    compare(s, P, t, go(P, Tr(), n), go(P, t, n), (1e-6, 6e-3, 3e-2))
    s.label('inviscid' if P['re'] == math.inf else 'viscous')
def mirrored(s):
    P = gen(s, uniform=True)
    t = Tr(mirror=True, q=s.draw(4))
    n = 1
    s.describe('%s; %d steps; mirrored, turned %d' % (text(P), n, t.q))
    compare(s, P, t, go(P, Tr(), n), go(P, t, n), (1e-6, 6e-3, 3e-2))
def frame(s):
    P = gen(s, uniform=True, springs=False)   # bodies start from rest, whatever the frame
    t = Tr(U=(s.short(-1, 1), s.short(-1, 1)))
    n = 1
    P['sink'] = []   # sinks stay where they are
    s.describe('%s; %d steps; frame %s' % (text(P), n, t.U))
    compare(s, P, t, go(P, Tr(), n), go(P, t, n), (1e-8, 1e-2, 3e-2), forces=1)
sys.exit(pbt.main('C16', [pbt.Sub('exact', 400, 8000, exact), pbt.Sub('turned', 200, 4000, turned), pbt.Sub('mirrored', 200, 4000, mirrored), pbt.Sub('frame', 200, 4000, frame)]))
