"""C07: shape generators against independent outlines (straight pieces and arcs as documented)."""
import os, sys, math
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbt
from pbt import check, run, num, h5
PI = math.pi

class Seg:
    def __init__(o, p, q, slip=False, dl=None): o.p, o.q, o.slip, o.dl = p, q, slip, dl; o.len = math.hypot(q[0]-p[0], q[1]-p[1])
    def where(o, x):
        """(distance of x, arclength of the nearest point)"""
        if o.len == 0: return math.hypot(x[0]-o.p[0], x[1]-o.p[1]), 0
        u = ((x[0]-o.p[0])*(o.q[0]-o.p[0])+(x[1]-o.p[1])*(o.q[1]-o.p[1]))/o.len**2; u = min(1, max(0, u))
        return math.hypot(x[0]-o.p[0]-u*(o.q[0]-o.p[0]), x[1]-o.p[1]-u*(o.q[1]-o.p[1])), u*o.len
    ends = property(lambda o: (o.p, o.q))
    area2 = property(lambda o: o.p[0]*o.q[1]-o.p[1]*o.q[0])
class Arc:
    def __init__(o, c, r, a1, a2, slip=False, dl=None): o.c, o.r, o.a1, o.a2, o.slip, o.dl = c, r, a1, a2, slip, dl; o.len = abs(a2-a1)*r
    def at(o, a): return o.c[0]+o.r*math.cos(a), o.c[1]+o.r*math.sin(a)
    def where(o, x):
        d = math.hypot(x[0]-o.c[0], x[1]-o.c[1])
        if o.len == 0: return d, 0
        a = math.atan2(x[1]-o.c[1], x[0]-o.c[0]); lo, hi = min(o.a1, o.a2), max(o.a1, o.a2)
        best = None
        for t in [a+2*PI*k for k in range(-2, 3)]+[lo, hi]:
            t = min(hi, max(lo, t)); y = o.at(t)
            e = math.hypot(x[0]-y[0], x[1]-y[1])
            if best is None or e < best[0]: best = (e, abs(t-o.a1)*o.r)
        return best
    ends = property(lambda o: (o.at(o.a1), o.at(o.a2)))
class Ell:
    """half an ellipse, clockwise"""
    def __init__(o, rx, ry, a1, a2): o.rx, o.ry, o.a1, o.a2, o.slip, o.dl = rx, ry, a1, a2, False, None; o.n = 4000; o.tab = [0]; o.fill(); o.len = o.tab[-1]
    def at(o, a): return o.rx*math.cos(a), o.ry*math.sin(a)
    def fill(o):
        p = o.at(o.a1)
        for i in range(1, o.n+1):
            q = o.at(o.a1+(o.a2-o.a1)*i/o.n); o.tab.append(o.tab[-1]+math.hypot(q[0]-p[0], q[1]-p[1])); p = q
    def where(o, x):
        a = math.atan2(x[1]/o.ry, x[0]/o.rx); d = abs(math.hypot(x[0]/o.rx, x[1]/o.ry)-1)*o.ry
        u = min([(a+2*PI*k-o.a1)/(o.a2-o.a1) for k in range(-2, 3)], key=lambda u: max(0, -u, u-1)); over = max(0, -u, u-1)*abs(o.a2-o.a1)*o.ry; u = min(1, max(0, u))
        i = min(int(u*o.n), o.n-1); return d+over, o.tab[i]+(o.tab[i+1]-o.tab[i])*(u*o.n-i)
    ends = property(lambda o: (o.at(o.a1), o.at(o.a2)))

def f3(s, lo, hi): return s.short(lo, hi)
def pos(s): return s.pick([1, 0.5, 2, 0.1, 10]) if s.flip(0.3) else s.short(0.05, 5)
def cylinder(s):
    R = pos(s); return dict(R=R), [Arc((0, 0), R, 2*PI, 0)], []
def semicyl(s):
    R = pos(s); return dict(R=R), [Seg((0, 0), (R, 0)), Arc((0, 0), R, 2*PI, PI), Seg((-R, 0), (0, 0))], [(R, 0), (-R, 0)]
def ellipse(s):
    Rx = pos(s); Ry = Rx if s.flip(0.15) else round(Rx*s.fine(0.1, 1), 6)
    return dict(Rx=Rx, Ry=Ry), [Ell(Rx, Ry, 2*PI, PI), Ell(Rx, Ry, PI, 0)], []
def parallelogram(s):
    L, H = pos(s), pos(s); d = s.pick([90, 45, 60, 120, 135, 30, 150]) if s.flip(0.5) else s.fine(10, 170)
    x = H/math.tan(d/180*PI)
    v = [(L, 0), (0, 0), (x, H), (L+x, H)]
    return dict(L=L, H=H, d=d), [Seg(v[i], v[(i+1) % 4]) for i in range(4)], v
def plate(s):
    R1, R2 = (0, pos(s)) if s.flip(0.2) else (pos(s), 0) if s.flip(0.2) else (pos(s), pos(s))
    L = abs(R1-R2)*s.short(1.05, 4)+s.short(0.05, 3)
    L = round(L, 4)
    al = math.asin((R2-R1)/L); ph = PI/2+al
    P = lambda c, r, a: (c+r*math.cos(a), r*math.sin(a))
    pc = [Arc((L, 0), R2, 0, -ph), Seg(P(L, R2, -ph), P(0, R1, -ph)), Arc((0, 0), R1, -ph+2*PI, PI), Arc((0, 0), R1, PI, ph), Seg(P(0, R1, ph), P(L, R2, ph)), Arc((L, 0), R2, ph, 0)]
    vs = []
    if R1 == 0: vs.append((0, 0))
    if R2 == 0: vs.append((L, 0))
    return dict(R1=R1, R2=R2, L=L), [p for p in pc if p.len], vs
def savonius(s):
    R = pos(s); h = round(R*s.fine(0.02, 0.9), 6); g = h/2
    return dict(R=R, h=h), [Arc((R, 0), R-g, PI, 2*PI), Arc((2*R, 0), g, PI, 0), Arc((R, 0), R+g, 2*PI, PI), Arc((-R, 0), R-g, 0, PI), Arc((-2*R, 0), g, 2*PI, PI), Arc((-R, 0), R+g, PI, 0)], []
def coarse(s): return s.fine(0.02, 1.45) if s.flip(0.3) else s.fine(0.02, 0.3)
def chamber_gpj(s):
    R0 = pos(s); d = s.pick([0, 0, 30]) if s.flip(0.5) else s.fine(0, 60)
    X0 = f3(s, -3, 3); X1 = X0+pos(s); X2 = X1+pos(s); X3 = X2+pos(s); X1, X2, X3 = round(X1, 6), round(X2, 6), round(X3, 6)
    Y3 = R0+(X3-X2)*math.tan(d*PI/180)
    L = round((X3-X0+R0)*s.fine(1.1, 3), 6); H = round(2*Y3*s.fine(1.1, 3), 6); X4, Y4 = X3-L, H/2
    dln, dls = coarse(s), coarse(s); sc = min(R0, X1-X0, X2-X1, X3-X2); dln, dls = round(dln*sc, 7), round(dls*sc, 7)
    d2 = min(dls, (Y4-Y3)/5)
    v = [(X4, -Y4), (X4, Y4), (X3, Y4), (X3, Y3), (X2, R0), (X1, R0), (X0, R0), (X0, -R0), (X1, -R0), (X2, -R0), (X3, -Y3), (X3, -Y4)]
    sl = [(1, dls), (1, dls), (1, d2), (0, dln), (0, dln), (1, dls), None, (1, dls), (0, dln), (0, dln), (1, d2), (1, dls)]
    pc = [Arc((X0, 0), R0, PI/2, 3*PI/2, True, dls) if sl[i] is None else Seg(v[i], v[(i+1) % 12], bool(sl[i][0]), sl[i][1]) for i in range(12)]
    return dict(R0=R0, d=d, X0=X0, X1=X1, X2=X2, X3=X3, L=L, H=H, dln=dln, dls=dls), pc, v[:6]+v[9:]
def chamber_box(s):
    L, H, h = pos(s), pos(s), pos(s); D = round(L*s.fine(0.1, 0.8), 6); d = round((L-D)*s.fine(0.1, 0.9), 6)
    sc = min(H, h, d, (L-D-d)/2); dln, dls = round(coarse(s)*sc, 7), round(coarse(s)*sc, 7)
    e, l = D/2+d/2, L/2
    pc = [Seg((0, H), (-l, H), True, dls), Seg((-l, H), (-l, 0), True, dls), Seg((-l, 0), (-e, 0), False, dln), Arc((-e, -d/2), d/2, PI/2, -PI/2, False, dln),
          Seg((-e, -d), (-l-h, -d), True, dls), Seg((-l-h, -d), (-l-h, H+h), True, dls), Seg((-l-h, H+h), (l+h, H+h), True, dls), Seg((l+h, H+h), (l+h, -d), True, dls),
          Seg((l+h, -d), (e, -d), True, dls), Arc((e, -d/2), d/2, 3*PI/2, PI/2, False, dln), Seg((e, 0), (l, 0), False, dln), Seg((l, 0), (l, H), True, dls), Seg((l, H), (0, H), True, dls)]
    return dict(L=L, H=H, D=D, h=h, d=d, dln=dln, dls=dls), pc, [(-l, H), (-l, 0), (-l-h, -d), (-l-h, H+h), (l+h, H+h), (l+h, -d), (l, 0), (l, H)]
GEN = dict(cylinder=cylinder, semicyl=semicyl, ellipse=ellipse, parallelogram=parallelogram, plate=plate, savonius=savonius, chamber_gpj=chamber_gpj, chamber_box=chamber_box)
def table(p): return '{%s}' % ','.join('%s=%s' % (k, v if isinstance(v, str) else num(v)) for k, v in p.items())
def build(d, exprs):
    with open(d+'/s.lua', 'w') as f:
        f.write('\n'.join('local b=%s; b.label="b%d"; S.body_list:insert(b); print(#b)' % (e, i) for i, e in enumerate(exprs))+'\nS:save("a.h5")\n')
    r = run(['vvflow', 's.lua'], d)
    check(r.rc == 0 and r.err == '', 'refused', 'a proper body is refused: %r', r)
    a = h5(d+'/a.h5'); out = []
    for i, n in enumerate(r.out.split()):
        rows = a['body%02d' % i]; 
        check(int(n) == len(rows['data']), 'length', '#body is %s with %d corners', n, len(rows['data']))
        at = rows['attrs']; sl = at['slip'] if 'slip' in at else [at['general_slip']]*len(rows['data'])
        rows['slip'] = [bool(z) for z in sl]; out.append(rows)
    return out

def sizes(s, name, p, pc):
    """adds N or dl; returns the segment length asked for, and N"""
    if 'dln' in p: return None, None
    S = sum(q.len for q in pc); m = min(q.len for q in pc)
    if name == 'cylinder': m *= 0.3
    if name == 'ellipse': m = min(m, p['Ry']/3)
    if s.flip():
        lo = max(3, math.ceil(S/m*1.001)); N = s.range(lo, max(lo, min(600, lo*8)))
        p['N'] = N; return S/N, N
    dl = m*s.fine(0.02, 0.99) if m/S > 0.05 else m*s.fine(0.3, 0.99)
    p['dl'] = dl; return dl, None
def shapes(s):
    name = s.pick(sorted(GEN)); p, pc, vs = GEN[name](s)
    dl, N = sizes(s, name, p, pc)
    if sum(q.len/(q.dl or dl) for q in pc) > 4000: raise pbt.Discard()
    if name == 'plate' and s.flip(0.2): p['start'] = 0
    if name == 'plate' and s.flip(0.2): p['stop'] = 1
    ex = 'gen_%s%s' % (name, table(p))
    s.describe(ex); s.label(name); s.label('N' if N else 'dl'); s.nontrivial()
    outline(ex, name, pc, vs, dl, N)
def outline(ex, name, pc, vs, dl, N):
    d = pbt.scratch()
    body = build(d, [ex])[0]
    c = [r[:2] for r in body['data']]; size = max(max(abs(e[0]), abs(e[1])) for q in pc for e in q.ends)
    tol = 1e-9*size+1e-12
    # walk the outline: arclength of every corner, along a single turn
    off = [0]
    for q in pc: off.append(off[-1]+q.len)
    S = off[-1]; at = []; piece = []; last = -tol
    for i, x in enumerate(c):
        cand = []
        for k, q in enumerate(pc):
            e, u = q.where(x)
            if e <= tol*10:
                if u > q.len-tol*10 and len(pc) > 1: cand.append((off[(k+1) % len(pc)], (k+1) % len(pc)))   # its end is the start of the next
                else: cand.append((off[k]+u, k))
        check(cand, 'outline', 'corner %d (%r, %r) is not on the outline', i, x[0], x[1])
        if i == 0: t = min(cand)
        else:
            # the next place reached going on from the last
            t = min(cand, key=lambda a: (a[0]-at[-1]+tol*10) % S)
        at.append(t[0] % S); piece.append(t[1])
    steps = [((at[(i+1) % len(at)]-at[i]+tol*10) % S)-tol*10 for i in range(len(at))]
    check(abs(sum(steps)-S) < 1e-6*S, 'turn', 'the corners go %.4f times around the outline', sum(steps)/S)
    A = sum(c[i-1][0]*c[i][1]-c[i-1][1]*c[i][0] for i in range(len(c)))/2
    check(A < 0, 'orientation', 'area to the left is %r: not clockwise', A)
    for v in vs: check(min(math.hypot(x[0]-v[0], x[1]-v[1]) for x in c) <= tol*10, 'vertex', 'no corner at (%r, %r)', v[0], v[1])
    for i, st in enumerate(steps):
        want = pc[piece[i]].dl or dl
        lo, hi = (0.6, 1.55) if name != 'ellipse' else (0.4, 1.6)
        if want > pc[piece[i]].len*0.8: lo = 0.49*pc[piece[i]].len/want   # an arc has two segments at least
        check(lo*want <= st <= hi*want, 'spacing', 'segment %d is %r long, asked for %r', i, st, want)
    for k, q in enumerate(pc):   # all segments of one piece are alike
        l = [steps[i] for i in range(len(c)) if piece[i] == k]
        if name != 'ellipse' and l: check(max(l)-min(l) <= 1e-6*max(l), 'uniform', 'piece %d has segments from %r to %r', k, min(l), max(l))
    if N: check(abs(len(c)-N) <= (0 if name == 'cylinder' else len(pc)/2 if name != 'ellipse' else max(3, 0.07*N)), 'N', '%d segments, asked for %d', len(c), N)
    else:
        n = sum(q.len/(q.dl or dl) for q in pc)
        check(abs(len(c)-n) <= (len(pc)/2+1e-6 if name != 'ellipse' else max(3, 0.07*n)), 'count', '%d segments, %.2f expected', len(c), n)
    for i, r in enumerate(body['data']):
        check(body['slip'][i] == pc[piece[i]].slip, 'slip', 'segment %d at (%r, %r): slip is %r', i, c[i][0], c[i][1], body['slip'][i])
BAD = ['"x"', '{}', 'true', 'nan', 'inf', '-inf']
def refused(s):
    name = s.pick(sorted(GEN)); p, pc, vs = GEN[name](s); sizes(s, name, p, pc)
    good = dict(p); k = s.draw(6); keys = [q for q in sorted(p) if q not in ('N', 'dl')]
    key = s.pick(keys)
    if k == 0: del p[key]
    elif k == 1: key = s.pick(['foo', 'r', 'n', 'X9', 'start' if name != 'plate' else 'begin']); p[key] = s.pick([1, 0, '"q"'])
    elif k == 2: key = s.pick(sorted(p)); p[key] = s.pick(BAD)
    elif k == 3:
        key = s.pick([q for q in sorted(p) if q not in ('X0', 'X1', 'X2', 'X3', 'd', 'R1', 'R2')])
        p[key] = s.pick([0, -1, -1e-9, -5])
        if key == 'N' and p[key] == 0: pass
    elif k == 4:
        if 'dln' in p: key = s.pick(['N', 'dl']); p[key] = 10
        elif s.flip(): p.pop('N', 0); p.pop('dl', 0)
        else: p['N'] = 30; p['dl'] = 0.01
    else:
        e = s.pick([1.5, 1.01, 4])
        if name == 'ellipse': p['Ry'] = p['Rx']*e
        elif name == 'parallelogram': p['d'] = s.pick([0, -10, 180, 181, 400])
        elif name == 'plate':
            w = s.draw(6)
            if w == 0: p['R1'] = p['R2'] = 0
            elif w == 1: p['R1'] = -1
            elif w == 2: p['L'] = abs(p['R1']-p['R2'])/e or -1
            elif w == 3: p['start'] = s.pick([1, -0.1, 1.5])
            elif w == 4: p['stop'] = s.pick([0, 1.1, -1])
            else: p['start'] = s.short(0.3, 0.9); p['stop'] = round(p['start']/e, 6) if s.flip() else p['start']
        elif name == 'savonius': p['h'] = p['R']*s.pick([1, e])
        elif name == 'chamber_gpj':
            w = s.draw(6)
            if w < 3: p['X%d' % (w+1)] = p['X%d' % w]-0.1
            elif w == 3: p['L'] = (p['X3']-p['X0']+p['R0'])/e
            elif w == 4: p['H'] = 2*(p['R0']+(p['X3']-p['X2'])*math.tan(p['d']*PI/180))/e
            else: p['d'] = s.pick([90, 95, -1])
        elif name == 'chamber_box':
            if s.flip(): p['D'] = p['L']*e
            else: p['d'] = (p['L']-p['D'])*e
        else: p['R'] = 0
        if p == good: raise pbt.Discard()
    if s.flip(0.1) and k == 5 and name in ('cylinder', 'semicyl', 'parallelogram', 'savonius', 'plate', 'ellipse'):
        # far too coarse: no body can be made of it
        p = dict(good); p.pop('N', 0); p['dl'] = sum(q.len for q in pc)*s.pick([1.2, 3, 100])
    ex = 'gen_%s%s' % (name, table(p))
    s.describe(ex); s.label(name); s.label(['missing', 'excess', 'bad value', 'not positive', 'N and dl', 'range'][k]); s.nontrivial()
    d = pbt.scratch()
    with open(d+'/s.lua', 'w') as f:
        f.write('local function copy(t) local c={} for k,v in pairs(t) do c[k]=v end return c end\n')
        f.write('local p=%s local q=copy(p)\nlocal ok,e=pcall(function() return gen_%s(p) end)\nprint(ok) print(ok and #e or e)\n' % (table(p), name))
        # the table of the caller stays as it is
        f.write('for k,v in pairs(q) do if p[k]~=v and v==v then error("lost "..k) end end for k in pairs(p) do if q[k]==nil then error("new "..k) end end\n')
        # the program goes on as if nothing had happened
        f.write('local g=%s local b=gen_%s(g)\nS.body_list:insert(b) print(#S.body_list)\n' % (table(good), name))
        f.write('local c=gen_%s(g) assert(#c==#b and c~=b) b=b:totable() c=c:totable() for i=1,#b do assert(b[i].x==c[i].x and b[i].y==c[i].y) end\n' % name)
    r = run(['vvflow', 's.lua'], d)
    l = r.out.split('\n')
    check(r.rc == 0 and r.err == '', 'exit', 'run: %r', r)
    check(l[0] == 'false', 'accepted', 'accepted, with %s segments', l[1])
    if k == 0: check("'%s'" % key in l[1], 'message', 'message does not name the missing %r: %s', key, l[1])
    if k == 1: check(key in l[1] and 'excess' in l[1], 'message', 'message does not name the superfluous %r: %s', key, l[1])
    if k == 2: check(key in l[1], 'message', 'message does not name %r: %s', key, l[1])
    check(l[2] == '1', 'after', 'the next proper body: %r', l)
def segmented(s):
    """plates cut at start or stop: the tangents of the whole plate, the cuts are slippery arcs around the two centres, the hollow one wider by the gap"""
    R = pos(s); p = dict(R1=R, R2=round(R*s.short(0.3, 1.5), 6), L=round(R*s.short(8, 15), 6))
    st, en = (0, 1)
    while (st, en) == (0, 1):
        st = s.pick([0, 0.1, 0.3, round(s.fine(0.02, 0.4), 4)]); en = s.pick([1, 0.9, 0.7, round(s.fine(0.65, 0.99), 4)])
    al = math.asin((p['R2']-R)/p['L']); ph = PI/2+al
    if s.flip():
        dl = R*s.short(0.03, 0.12); p['dl'] = dl
    else:
        S = 2*((PI-ph)*R+ph*p['R2']+p['L']*math.cos(al)); p['N'] = s.range(math.ceil(S/R/0.12), math.ceil(S/R/0.03)); dl = S/p['N']
    gap = dl
    if s.flip(): g = s.pick([dl/3, dl*0.99, dl*1.01, dl*2, R*0.2, R*0.5]); p['gap'] = g; gap = max(dl, g)
    if st or s.flip(0.2): p['start'] = st
    if en < 1 or s.flip(0.2): p['stop'] = en
    r1, r2, c1, c2 = R+st*(p['R2']-R), R+en*(p['R2']-R), st*p['L'], en*p['L']
    P = lambda c, r, a: (c+r*math.cos(a), r*math.sin(a))
    if en == 1: f1, f2, q2 = 0, ph, r2
    else: f1, q2 = PI, r2+gap; f2 = ph+math.acos(r2/q2)
    pc = [Arc((c2, 0), q2, -f1, -f2, en < 1), Seg(P(c2, q2, -f2), P(c1, r1, -ph)), Arc((c1, 0), r1, 2*PI-ph, PI, st > 0), Arc((c1, 0), r1, PI, ph, st > 0), Seg(P(c1, r1, ph), P(c2, q2, f2)), Arc((c2, 0), q2, f2, f1, en < 1)]
    if min(q.len for q in pc) < 2*dl or P(c2, q2, f2)[0] < P(c1, r1, ph)[0]: raise pbt.Discard()
    ex = 'gen_plate%s' % table(p); s.describe(ex); s.nontrivial()
    s.label('start' if en == 1 else 'stop' if st == 0 else 'both')
    outline(ex, 'plate', pc, [], dl, None)
sys.exit(pbt.main('C07', [pbt.Sub('shapes', 1200, 20000, shapes), pbt.Sub('refused', 800, 15000, refused), pbt.Sub('segmented', 400, 6000, segmented)]))
