"""C24: vvplot draws the requested data of the snapshot it is given."""
import os, sys, math, struct, tarfile, io, re, zlib
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbt, problem
from pbt import check, run, num, h5, txt, lua_str, Discard

def f32(x):
    try: return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError: return math.copysign(math.inf, x)
def floats(b): return struct.unpack('<%df' % (len(b)//4), b)
def eqf(a, b): return len(a) == len(b) and all(x == y or (x != x and y != y) for x, y in zip(a, b))
def near_lines(a, b, h):
    """the same lines, up to rounding of the levels: all but a few points of each have a point of the other at hand"""
    e = 0.01*h
    def pts(v): return [(v[i], v[i+1]) for i in range(0, len(v)-1, 2) if v[i] == v[i]]
    def missing(p, q):
        g = {}
        for x, y in q: g.setdefault((math.floor(x/e), math.floor(y/e)), []).append((x, y))
        return sum(1 for x, y in p if not any(math.hypot(x-u, y-w) <= e for i in (-1, 0, 1) for j in (-1, 0, 1) for u, w in g.get((math.floor(x/e)+i, math.floor(y/e)+j), ())))
    p, q = pts(a), pts(b)
    return missing(p, q) <= 8+len(p)//50 and missing(q, p) <= 8+len(q)//50
def same_lines(s, d, got, ref, h, blob, levels):
    """lines of the library's own field, or those of the map drawn (which differs from it by rounding)"""
    a, b = floats(got), floats(ref)
    if eqf(a, b): return True
    s.label('lines not bit for bit')
    if near_lines(a, b, h): return True
    with open(d+'/own', 'wb') as f: f.write(blob)
    r = run(['vvfields', d+'/own-lines', d+'/own', 'none'], d)
    if r.rc: return False
    lo, hi = [float(x) for x in r.out.split()][:2]
    if levels == 'none': return not a
    lo, hi, dv = (lo, hi, (hi-lo)/33.) if levels == 'auto' else [float(x) for x in levels.split(',')]
    if not dv > 1e-5*max(abs(lo), abs(hi)): return True
    for e in (-1e-5, 1e-5):   # the last level may be missed by rounding
        r = run(['vvfields', d+'/own-lines', d+'/own', '%.17g,%.17g,%.17g' % (lo, hi+e*dv, dv)], d)
        if r.rc == 0 and near_lines(a, floats(open(d+'/own-lines.iso', 'rb').read()), h): return True
    return False
LABELS = ['a', 'a', 'cyl', "o'neil", 'black', 'vortex_list', 'map_vorticity', 'streamlines', 'body00', 'body01', '../up', '/tmp/x', 'a b', 'ä', '*', 'body_holders', 'plot.gp', 'x\ny', "a' w lines, 'b", '-']

def snapshot(s, d, picture=False):
    """a snapshot made by a short run (or saved at once); its path and contents"""
    p = problem.generate(s, maxbodies=3, seg=14)
    t = p.lua()
    if s.flip(0.2): t += 'do local c=gen_cylinder{R=0.4,N=%d} c:move_r{-3.5,-2.2} S.body_list:insert(c) end\n' % s.range(3, 5); p.nbodies += 1   # as few segments as there can be
    for i in range(p.nbodies):
        if s.flip(0.5): t += 'S.body_list[%d].label=%s\n' % (i+1, lua_str(s.pick(LABELS)))
    if s.flip(0.5):
        t += ''.join('S.vort_list:append({%s,%s,%s})\n' % (num(s.short(-6, 6)), num(s.short(-3, 3)), num(s.pick([0.5, -0.5, 0.1, -0.1, 1]))) for _ in range(s.range(1, 12)))
    for i in range(p.nbodies):
        if s.flip(0.2): t += 'S.body_list[%d].delta_pos={%s,%s,%s}\n' % (i+1, num(s.short(-1, 1)), num(s.short(-1, 1)), num(s.pick([0, 0.5, -2])))
    if s.flip(0.15): t = 'S.inf_vx="1"\n'; s.label('nothing in it')
    steps = s.range(0, 3); many = s.flip(0.03)
    if many: t += 'for i=1,%d do S.vort_list:append({3*math.sin(i*0.7),2*math.sin(i*1.3+1),0.01*math.cos(i)}) end\n' % s.range(4000, 9000); s.label('thousands of particles')
    if many or s.flip(0.3):
        t += 'S.time=%s\nS:save("s.h5")\n' % s.pick(['0', '"7/3"', '123.456', '-2'])
        f = 's.h5'
    else:
        t += 'S.caption="s"\nS.time=0\nS.dt="1/10"\nS.dt_save=S.dt\nS.finish=%s\nsimulate()\n' % num(steps/10)
        f = 'results_s/%06d.h5' % steps
        if steps: s.label('after a run')
    with open(d+'/s.lua', 'w') as o: o.write(t)
    r = run(['vvflow', 's.lua'], d)
    check(r.rc == 0, 'exit', 'vvflow: %r', r)
    s.describe(t.replace('\n', '; '))
    return f, h5(d+'/'+f)

class Opts: pass
def scale(s): return s.pick([1, 1, 1, 1, 1e-4, 1e4])
def options(s, snap):
    """random valid options: (arguments, what they ask for)"""
    o = Opts(); a = []
    bodies = [k for k in sorted((k for k in snap if k.startswith('body')), key=lambda k: int(k[4:]))]
    o.bodies = bodies
    W, H = s.range(20, 60)*4, s.range(20, 60)*4
    k = scale(s); off = s.pick([0, 0, 0, s.short(-20, 20)])
    x0 = (s.short(-5, 0)+off)*k; x1 = x0+s.short(3, 8)*k; y0 = s.short(-3, 0)*k; y1 = y0+s.short(2, 5)*k
    x0, x1, y0, y1 = [round(v, 8) for v in (x0, x1, y0, y1)]
    while y1-y0 > 3*(x1-x0): y1 = y0+(y1-y0)/2
    how = s.draw(9)
    X, Y, size = (x0, x1), (y0, y1), (W, H)
    nan = math.nan
    if how == 0: o.rect, o.size = (x0, x1, y0, y1), (W, None)
    elif how == 1: size = (W, 0); o.rect, o.size = (x0, x1, y0, y1), (W, None)
    elif how == 2: size = (0, H); o.rect, o.size = (x0, x1, y0, y1), (None, H)
    elif how == 3: Y = (y0, y0); w = (x1-x0)*H/W/2; o.rect, o.size = (x0, x1, y0-w, y0+w), (W, H)
    elif how == 4: X = (x0, x0); w = (y1-y0)*W/H/2; o.rect, o.size = (x0-w, x0+w, y0, y1), (W, H)
    elif how == 5: X = (nan, x1); o.rect, o.size = (x1-(y1-y0)*W/H, x1, y0, y1), (W, H)
    elif how == 6: X = (x0, nan); o.rect, o.size = (x0, x0+(y1-y0)*W/H, y0, y1), (W, H)
    elif how == 7: Y = (nan, y1); o.rect, o.size = (x0, x1, y1-(x1-x0)*H/W, y1), (W, H)
    else: Y = (y0, nan); o.rect, o.size = (x0, x1, y0, y0+(x1-x0)*H/W), (W, H)
    if s.flip(0.2): X = X[::-1] if how not in (5, 6) else X
    if s.flip(0.2): Y = Y[::-1] if how not in (7, 8) else Y
    o.label = {0: 'height left over', 1: 'height', 2: 'width', 3: 'y range', 4: 'x range'}.get(how, 'one edge')+' worked out'
    groups = [['-x', '%s,%s' % (num(X[0]), num(X[1]))]] + ([] if Y == (0, 0) and s.flip() else [['-y', '%s,%s' % (num(Y[0]), num(Y[1]))]]) + [['--size' if s.flip() else '-s', '%dx%d' % size]]
    o.reslo, o.reshi = s.range(2, 24), s.range(2, 30)
    if s.flip(0.12): o.reslo = s.range(25, 90)
    groups += [['--res-lo', '%d' % o.reslo], ['--res-hi', '%d' % o.reshi]]
    o.B = s.flip(0.6); o.V = s.flip(0.6); o.S = s.flip(0.5); o.Vsize = 4; o.levels = 'auto'
    if o.B: groups.append([s.pick(['-B', '--B'])])
    if o.V:
        if s.flip(): o.Vsize = s.pick([0, 1, 4, 7, 20]); groups.append(['--V', '%d' % o.Vsize])
        if o.Vsize == 4 and ['--V', '4'] not in groups or s.flip(): groups.append(['-V'])
    if o.S:
        groups.append(['-S'])
        if s.flip(0.4):
            lo = s.short(-2, 0); st = s.pick([0.1, 0.05, 0.25, 0.3]); hi = lo+s.pick([0, 0.5, 3])
            o.levels = '%s,%s,%s' % (num(lo), num(hi), num(st)); groups.append(['--S', o.levels])
            if s.flip(): groups.remove(['-S'])
    o.eps = 2
    if s.flip(0.3): o.eps = s.pick([0.5, 1, 3.25]); groups.append(['--eps', num(o.eps)])
    o.refxy = s.pick('ooofbxy'); o.refS = s.pick('oofb'); o.refP = s.pick('ssofb')
    if not bodies:
        if o.refxy in 'bxy': o.refxy = 'f'
        if o.refS == 'b': o.refS = 'f'
        if o.refP == 'b': o.refP = 'f'
    if o.refxy != 'o' or s.flip(0.1): groups.append(['--ref-xy', {'b': s.pick(['b', 'bxy']), 'x': 'bx', 'y': 'by'}.get(o.refxy, o.refxy)])
    if o.refS != 'o' or s.flip(0.1): groups.append(['--ref-S', o.refS])
    if o.refP != 's' or s.flip(0.1): groups.append(['--ref-P', o.refP])
    o.gray = s.flip(0.2); o.holder = s.flip(0.25); o.spring = s.flip(0.25); o.time = not s.flip(0.3)
    for v, n in ((o.gray, 'gray'), (o.holder, 'holder'), (o.spring, 'spring')):
        if v: groups.append(['--'+n])
        elif s.flip(0.1): groups.append(['--no-'+n])
    if not o.time: groups.append(['--no-timelabel'])
    o.tt = [n for n in ('bottom-nodes', 'near-nodes', 'find-node') if s.flip(0.08)]
    if s.flip(0.1): o.tt = ['bottom-nodes', 'near-nodes', 'find-node']; s.label('the tree')
    groups += [['--ttree-'+n] for n in o.tt]
    groups = s.shuffle(groups)
    # the map: the last one asked for is drawn, each turns the colorbox on
    o.map = ''; o.range = None; o.colorbox = False
    for _ in range(s.pick([0, 1, 1, 1, 2])):
        m = s.pick(['G', 'P', 'Ux', 'Uy']); o.map, o.range = m, None
        if s.flip(0.5): arg = ['-'+m] if m in 'GP' or s.flip(0.7) else ['-U', m[1]]
        elif m == 'G': o.range = s.pick([0, 0.5, 12.5]); arg = ['--G', num(o.range)]; o.G = o.range
        elif m == 'P': v = sorted([s.short(-3, 3), s.short(-3, 3)]); o.P = v; arg = ['--P', '%s,%s' % (num(v[0]), num(v[1]))]
        else: v = sorted([s.short(-3, 3), s.short(-3, 3)]); o.U = v; arg = ['--'+m, '%s,%s' % (num(v[0]), num(v[1]))]
        at = len(groups)
        groups.insert(at, arg); o.colorbox = True
        if s.flip(0.15): groups.append(['--no-colorbox']); o.colorbox = False
        elif s.flip(0.1): groups.append(['--colorbox'])
    if s.flip(0.1): groups.append(['--colorbox']); o.colorbox = True
    for g in groups: a += g
    o.mesh = None
    # the reference frame shifts the rectangle
    x0, x1, y0, y1 = o.rect
    dx = dy = 0.0
    if o.refxy == 'f': dx, dy = [snap['/']['inf_marker'][c] for c in 'xy']
    if o.refxy in 'bxy':
        b = snap[bodies[0]]['attrs']; ax = [b['holder_position'][c]+b['delta_position'][c] for c in 'xy']
        if o.refxy in 'bx': dx = ax[0]
        if o.refxy in 'by': dy = ax[1]
    o.d = (x1-x0, y1-y0); o.rect = (x0+dx, x1+dx, y0+dy, y1+dy)
    ratio = o.d[0]/o.d[1]
    o.W = o.size[0] if o.size[0] else H*ratio
    o.H = o.size[1] if o.size[1] else W/ratio
    return a, o

def entries(script):
    """what the plot command draws, in order: (file, the rest)"""
    i = script.find('\nplot')
    check(i >= 0, 'script', 'no plot command in %r', script[-200:])
    cmd = script[i+1:]; check('\nplot' not in cmd, 'script', 'two plot commands')
    cmd = cmd.replace('\\\n', ' ').strip()[4:].strip()
    parts = [p.strip() for p in re.split(r',\s+(?=\')', cmd)]
    out, last = [], None
    for p in parts:
        m = re.match(r"'([^']*)'(.*)$", p)
        if not m: check(p == 'NaN' and len(parts) == 1, 'script', 'the plot command has %r', p); return []
        last = m.group(1) or last
        out.append((last, m.group(2).strip()))
    return out
def close(a, b, tol): return abs(a-b) <= tol
def field(s, d, snap, o, kind, res, what, blob, levels='none'):
    """the map in the plot is the library's own field on the requested grid"""
    v = floats(blob); nx = int(v[0]); dxdy = o.d[0]/res; q = o.d[1]/dxdy
    check(nx == res+1, 'grid', '%s has %d columns instead of %d', what, nx, res+1)
    ny = len(v)//(nx+1)-1
    check(len(v) == (nx+1)*(ny+1) and ny-1 in (math.ceil(q-1e-9), math.ceil(q+1e-9)), 'grid', '%s has %d rows instead of %d', what, ny, math.ceil(q)+1)
    m = max(abs(x) for x in o.rect)
    for i in range(nx): check(close(v[1+i], o.rect[0]+i*dxdy, 3e-7*m), 'grid', 'column %d of %s is at %.9g instead of %.9g', i, what, v[1+i], o.rect[0]+i*dxdy)
    for j in range(ny): check(close(v[(nx+1)*(j+1)], o.rect[2]+j*dxdy, 3e-7*m), 'grid', 'row %d of %s is at %.9g instead of %.9g', j, what, v[(nx+1)*(j+1)], o.rect[2]+j*dxdy)
    ref = {'G': 'o', 'P': o.refP}.get(kind, o.refS)
    out = d+'/ref'
    r = run(['vvfields', out, d+'/'+snap, kind[0], '%.17g' % o.rect[0], '%.17g' % o.rect[2], '%.17g' % dxdy, str(nx), str(ny), num(o.eps), ref, kind[1:] or 'x', levels], d)
    check(r.rc == 0, 'reference', '%r', r)
    w = floats(open(out+'.map', 'rb').read())
    if not eqf(v, w):
        big = max(abs(x) for x in w if x == x) or 1
        bad = [i for i, (x, y) in enumerate(zip(v, w)) if not (abs(x-y) <= 1e-4*big or (x != x and y != y))]
        check(len(bad) <= len(v)//50, 'field', '%d of %d values of %s are not those of the field of the snapshot (%s)', len(bad), len(v), what, [(v[i], w[i]) for i in bad[:3]])
        s.label('field not bit for bit')
    return [float(x) for x in r.out.split()], open(out+'.iso', 'rb').read()

def verify(s, d, f, snap, o, script, files):
    ents = entries(script); seen = {}
    def has(pat): return re.search(pat, script, re.M)
    # the picture
    m = has(r'^set terminal pngcairo.* size (\d+), ?(\d+)'); check(m, 'size', 'no size')
    w, h = int(m.group(1)), int(m.group(2))
    if o.size[0]: check(w == o.size[0], 'size', 'the width is %d instead of %d', w, o.size[0])
    else: check(w % 2 == 0 and o.W-2-1e-6 < w <= o.W+1e-6, 'size', 'the width is %d, expected %g', w, o.W)
    if o.size[1]: check(h == o.size[1], 'size', 'the height is %d instead of %d', h, o.size[1])
    else: check(h % 2 == 0 and o.H-2-1e-6 < h <= o.H+1e-6, 'size', 'the height is %d, expected %g', h, o.H)
    big = max(abs(x) for x in o.rect)
    for ax, lo, hi in (('x', o.rect[0], o.rect[1]), ('y', o.rect[2], o.rect[3])):
        m = has(r'^set %srange \[(\S+):(\S+)\]' % ax)
        check(m and close(float(m.group(1)), lo, 1e-9*big) and close(float(m.group(2)), hi, 1e-9*big), 'range', 'the %s range is %s instead of %.12g:%.12g', ax, m and m.group(0), lo, hi)
    t = snap['/']['time']; t = t['value']/t['timescale']
    m = has(r'^set label "t = (\S+)"')
    check(bool(m) == o.time and (not m or close(float(m.group(1)), t, 1e-6)), 'time', 'the time label is %s at %g', m and m.group(0), t)
    check(bool(has(r'^unset colorbox')) == (not o.colorbox) and bool(has(r'^set colorbox')) == o.colorbox, 'colorbox', 'colorbox should be %s', o.colorbox)
    want = []     # what must be drawn, in order
    def cb(lo, hi, why):
        m = has(r'^set cbrange \[(\S+):(\S+)\]')
        tol = 6e-6*max(abs(lo), abs(hi))
        if hi-lo < 1e-3*max(abs(lo), abs(hi)) or hi == lo:     # widened
            tol = 1e-3*max(abs(lo), abs(hi)) or 1
            check(m and float(m.group(2)) > float(m.group(1)), 'values', 'empty range of values %s', m and m.group(0))
        check(m and close(float(m.group(1)), lo, tol) and close(float(m.group(2)), hi, tol), 'values', 'values %s instead of %g:%g (%s)', m and m.group(0), lo, hi, why)
        p = re.findall(r'^set palette defined \((.*)\)', script, re.M)[-1]
        v = [float(x.split()[0]) for x in p.split(',')]
        check(v == sorted(v) and len(set(v)) == len(v), 'palette', 'palette %s', p)
    if o.map == 'G':
        check('map_vorticity' in files, 'files', 'no map of vorticity in %s', sorted(files))
        (lo, hi, p2, p98), _ = field(s, d, f, o, 'G', o.reshi, 'map_vorticity', files['map_vorticity'])
        g = getattr(o, 'G', 0)     # given by any of the options
        auto = max(-p2, p98)
        g = g or auto or 1
        if g > 0: cb(-g, g, 'given' if getattr(o, 'G', 0) else '98 of 100')
        want.append('map_vorticity')
    elif o.map == 'P':
        lo, hi = getattr(o, 'P', (-1.5, 1))
        (_, _, _, _), iso = field(s, d, f, o, 'P', o.reshi, 'map_pressure', files.get('map_pressure', b''), '%.17g,%.17g,%.17g' % (lo, hi, (hi-lo)/33.) if hi > lo else 'none')
        cb(lo, hi, 'given')
        if hi > lo: check(same_lines(s, d, files['isopressure'], iso, o.d[0]/o.reshi, files['map_pressure'], '%.17g,%.17g,%.17g' % (lo, hi, (hi-lo)/33.)), 'isolines', 'the lines of equal pressure are not those of the map at 33 levels from %g to %g', lo, hi)
        want += ['map_pressure', 'isopressure']
    elif o.map:
        n = 'map_velocity_'+o.map[1]
        check(n in files, 'files', 'no %s in %s', n, sorted(files))
        (lo, hi, _, _), _ = field(s, d, f, o, o.map, o.reshi, n, files[n])
        if hasattr(o, 'U'): lo, hi = o.U
        cb(lo, hi, 'given' if hasattr(o, 'U') else 'least to greatest')
        want.append(n)
    else: check(not any(k.startswith('map_') and k != 'map_streamfunction' for k in files), 'files', 'a map nobody asked for: %s', sorted(files))
    if o.V:
        rows = [x for r in snap['vort']['data'] for x in r[:3]] if 'vort' in snap else []
        check(eqf(floats(files.get('vortex_list', b'?')), [f32(x) for x in rows]), 'vortices', 'the particles drawn are not those of the snapshot')
        want.append('vortex_list')
        m = [e for e in ents if e[0] == 'vortex_list']
        circ = [re.search(r'u 1:2:\(([^)]*)\):\(color\(\$3\)\) with circles', e[1]) for e in m]
        circ = [float(c.group(1)) for c in circ if c]
        want_r = o.d[0]/w*o.Vsize/2
        check(len(circ) == (1 if o.Vsize else 0) and (not circ or close(circ[0], want_r, 1e-9*want_r)), 'circles', 'circles of radius %s instead of %g', circ, want_r)
        if o.Vsize: want.append('vortex_list')
        check('color(x) = (x>0) ? '+('0xffffff : 0x000000' if o.gray else '0xff0000 : 0x0000ff') in script, 'colors', 'colours of particles')
    else: check('vortex_list' not in [e[0] for e in ents], 'vortices', 'particles nobody asked for')
    if o.S:
        check('map_streamfunction' in files, 'files', 'no streamfunction in %s', sorted(files))
        _, iso = field(s, d, f, o, 'S', o.reslo, 'map_streamfunction', files['map_streamfunction'], o.levels)
        check(same_lines(s, d, files['streamlines'], iso, o.d[0]/o.reslo, files['map_streamfunction'], o.levels), 'isolines', 'the streamlines are not those of the streamfunction at the levels %s', o.levels)
        want.append('streamlines')
    nb = len(want)
    if o.B: want += [None]*len(o.bodies)
    if o.holder: want.append('body_holders')
    if o.spring: want += ['body_springs']*2
    for n in o.tt: want.append('ttree_'+n.replace('-', '_'))
    have = [e[0] for e in ents]
    check(len(have) == len(want) and all(a is None or a == b for a, b in zip(want, have)), 'drawn', 'drawn are %s, expected %s', have, want)
    if o.B:
        names = have[nb:nb+len(o.bodies)]
        check(len(set(names)) == len(names), 'bodies', 'bodies share a file: %s', names)
        for n, b in zip(names, o.bodies):
            c = snap[b]['data']; c = [x for r in c+c[:1] for x in r[:2]]
            check(n in files and eqf(floats(files[n]), [f32(x) for x in c]), 'bodies', 'the outline in %r is not that of %s', n, b)
            check(n not in [x for x in want if x], 'bodies', 'the file %r is another one\'s', n)
    if o.holder or o.spring:
        H, A = [], []
        for b in o.bodies:
            a = snap[b]['attrs']; hp = [a['holder_position'][c] for c in 'xy']; H.append(hp); A.append([a['holder_position'][c]+a['delta_position'][c] for c in 'xy'])
        def rows(n): return [[float(x) for x in l.split()] for l in files.get(n, b'?').decode().splitlines()]
        tol = lambda x: 1e-9*max(1e-3, abs(x))
        if o.holder:
            r = rows('body_holders'); check(len(r) == len(H) and all(close(x, y, tol(y)) for p, q in zip(r, H) for x, y in zip(p, q)), 'holders', 'holders at %s instead of %s', r, H)
        if o.spring:
            r = rows('body_springs'); W = [a+[h[0]-a[0], h[1]-a[1]] for h, a in zip(H, A)]
            check(len(r) == len(W) and all(close(x, y, 1e-9*(1e-3+abs(a)+abs(b)+abs(y))) for p, q, a, b in zip(r, W, [a[0] for a in A], [a[1] for a in A]) for x, y in zip(p, q)), 'springs', 'springs %s instead of %s', r, W)
    if o.tt: tree(d, snap, o, files)
def tree(d, snap, o, files):
    pts = [r[:2] for k in ('vort', 'heat') if k in snap for r in snap[k]['data']]
    b = [r[:2] for k in o.bodies for r in snap[k]['data']]
    if 'bottom-nodes' in o.tt:
        v = floats(files['ttree_bottom_nodes']); n = [v[i:i+4] for i in range(0, len(v), 4)]
        c = [(x, y) for x, y, _, _ in n]; near = lambda p: any(abs(p[0]-x) <= 1e-5*(1+abs(x)) and abs(p[1]-y) <= 1e-5*(1+abs(y)) for x, y in c)
        if 'near-nodes' in o.tt:
            v = floats(files['ttree_near_nodes']); v = [v[i:i+4] for i in range(0, len(v), 4)]
            for x, y, p, q in v[:300]: check(x != x or near((x, y)) and near((x+p, y+q)), 'tree', 'a line from (%g, %g) to (%g, %g) joins no two boxes of %s', x, y, x+p, y+q, c[:9])
            check(sum(1 for r in v if r[2] == 0 == r[3]) >= len(set(c)), 'tree', 'a box is not near itself')
        if 'find-node' in o.tt:
            v = floats(files['ttree_find_node'])
            big = max(abs(x) for x in o.rect)
            for i in range(0, len(v), 4): check(any(x != x or abs(v[i]+v[i+2]-x) <= 1e-5*(1+big+abs(x)) and abs(v[i+1]+v[i+3]-y) <= 1e-5*(1+big+abs(y)) for x, y in c), 'tree', 'the line from (%g, %g) to (%g, %g) leads to no box of %s', v[i], v[i+1], v[i]+v[i+2], v[i+1]+v[i+3], c[:9])
        for p in snap['vort']['data'] if 'vort' in snap else []:
            check(any(abs(p[0]-x) <= w*1.00001+1e-5 and abs(p[1]-y) <= h*1.00001+1e-5 for x, y, w, h in n), 'tree', 'no box holds the particle at %s', p[:2])
    if 'find-node' in o.tt:
        v = floats(files['ttree_find_node']); d = o.d[0]/o.reslo
        p = [(v[i], v[i+1]) for i in range(0, len(v), 4)]
        m = max(abs(x) for x in o.rect)
        for x, y in p:
            i = (x-o.rect[0])/d; j = (y-o.rect[2])/d
            check(abs(i-round(i)) < 1e-3+3e-7*m/d and abs(j-round(j)) < 1e-3+3e-7*m/d, 'tree', 'a point that is not on the grid')

def untar(path):
    files = {}
    with tarfile.open(path) as t:
        for m in t.getmembers():
            check(m.isfile() and m.name not in files, 'tar', 'odd member %r', m.name)
            check(not m.name.startswith('/') and '..' not in m.name.split('/'), 'tar', 'member %r leads out of the archive', m.name)
            files[m.name] = t.extractfile(m).read()
    return files
def case_tar(s):
    d = pbt.scratch()
    f, snap = snapshot(s, d)
    a, o = options(s, snap)
    old = s.flip(0.2)
    if old:
        with open(d+'/o.tar', 'wb') as x: x.write(b'old'*70000)
    s.describe(' vvplot '+' '.join(a))
    r = run(['vvplot', '--tar']+a+[f, 'o.tar'], d)
    check(r.rc == 0 and r.out == '' and r.err == '', 'exit', 'vvplot %s: %r', a, r)
    files = untar(d+'/o.tar'); script = files.pop('plot.gp').decode('utf-8', 'surrogateescape')
    verify(s, d, f, snap, o, script, files)
    s.nontrivial(o.map or o.V or o.S or o.B)
    if o.map: s.label('map '+o.map)
    s.label(o.label)
    for n in 'BVS':
        if getattr(o, n): s.label('-'+n)
    if o.refxy != 'o': s.label('shifted')

FAKE = '''#!/usr/bin/env python3
import sys, re, os
t = open(sys.argv[1], encoding='utf-8', errors='surrogateescape', newline='').read()
d = os.environ['FAKE']
n = 0
def f(m):
    global n
    n += 1
    open('%s/%d' % (d, n), 'wb').write(open('/dev/fd/'+m.group(1), 'rb').read())
    return "'FILE%d'" % n
t = re.sub(r"'/dev/fd/(\\\\d+)'", f, t)
open(d+'/script', 'w', encoding='utf-8', errors='surrogateescape', newline='').write(t)
sys.stdout.write('PICTURE\\\\n'); sys.stdout.flush()
sys.exit(len(sys.argv) != 2)
'''.replace('\\\\', '\\')
def faked(d):
    os.makedirs(d+'/bin'); os.makedirs(d+'/fake')
    with open(d+'/bin/gnuplot', 'w') as x: x.write(FAKE)
    os.chmod(d+'/bin/gnuplot', 0o755)
    return {'PATH': d+'/bin:'+pbt.BIN+':/usr/bin:/bin', 'FAKE': d+'/fake'}
def given(d):
    """the script gnuplot was given with the contents of its files"""
    t = open(d+'/fake/script', encoding='utf-8', errors='surrogateescape', newline='').read()
    n = sorted((int(x) for x in os.listdir(d+'/fake') if x != 'script'))
    fs = {'FILE%d' % i: open(d+'/fake/%d' % i, 'rb').read() for i in n}
    for x in os.listdir(d+'/fake'): os.unlink(d+'/fake/'+x)
    return re.sub(r'^# .*$|^#\s.*$', '#', t, flags=re.M), fs
def case_png(s):
    d = pbt.scratch()
    f, snap = snapshot(s, d)
    a, o = options(s, snap)
    s.describe(' vvplot '+' '.join(a))
    env = faked(d)
    if s.flip(0.2): g = s.pick(['a.b.h5', 'x.tar.h5', 'no_suffix', 'a b.c']); os.rename(d+'/'+f, d+'/'+g); f = g; s.label('another name')
    # straight from the snapshot
    out = 'o.png'
    if s.flip(0.3): os.makedirs(d+'/pics'); out = 'pics'; s.label('into a directory')
    elif s.flip(0.4):
        with open(d+'/o.png', 'wb') as x: x.write(b'an old and much longer picture')
        s.label('over an old picture')
    r = run(['vvplot']+(['--png'] if s.flip() else [])+a+[f, out], d, env=env)
    check(r.rc == 0 and r.out == '' and r.err == '', 'exit', 'vvplot %s: %r', a, r)
    path = d+'/pics/'+os.path.basename(f).rsplit('.', 1)[0]+'.png' if out == 'pics' else d+'/o.png'
    if out == 'pics': check(os.listdir(d+'/pics') == [os.path.basename(path)], 'target', 'in the directory are %s', os.listdir(d+'/pics'))
    check(open(path, 'rb').read() == b'PICTURE\n', 'target', 'the picture is %r, gnuplot wrote PICTURE', open(path, 'rb').read()[:60])
    t1, f1 = given(d)
    # by way of an archive
    tar = 'o.tar'
    r = run(['vvplot', '--tar']+a+[f, tar], d); check(r.rc == 0, 'exit', '%r', r)
    files = untar(d+'/'+tar); script = files.pop('plot.gp').decode('utf-8', 'surrogateescape')
    r = run(['vvplot', tar, 'p.png'], d, env=env)
    check(r.rc == 0 and r.out == '' and r.err == '', 'exit', 'vvplot tar: %r', r)
    check(open(d+'/p.png', 'rb').read() == b'PICTURE\n', 'target', 'picture of the archive')
    t2, f2 = given(d)
    check(f1 == f2 and t1 == t2, 'archive', 'the archive is not drawn as the snapshot is')
    # and gnuplot reads the data of the archive
    got = [(re.sub(r'^FILE.*', 'F', n), rest, f1[n]) for n, rest in entries(t1) if n in f1]
    want = [('F', rest, files[n]) for n, rest in entries(script)]
    n1 = [n for n, _ in entries(t1)]
    check(len(got) == len(want) and got == want, 'data', 'gnuplot is not given the data of %s', [n for n, _ in entries(script)])
    body = lambda t: re.sub(r"^\s*'[^']*'", "'F'", re.sub(r'^#.*$', '#', t, flags=re.M), flags=re.M)
    check(body(t1) == body(script), 'script', 'gnuplot is given another script than the archive holds')
    s.nontrivial(len(want) > 0)
    if o.S and s.flip(0.7):     # streamlines drawn anew from the archived streamfunction
        g = dict(files); g.pop('streamlines')
        with tarfile.open(d+'/q.tar', 'w') as t:
            for n, c in [('plot.gp', script.encode('utf-8', 'surrogateescape'))]+sorted(g.items()):
                i = tarfile.TarInfo(n); i.size = len(c); t.addfile(i, io.BytesIO(c))
        lev = s.pick(['auto', '-1,1,0.125'])
        r = run(['vvplot']+(['--S', lev] if lev != 'auto' else [])+['q.tar', 'q.png'], d, env=env)
        check(r.rc == 0 and r.err == '', 'exit', 'vvplot of an archive without streamlines: %r', r)
        t3, f3 = given(d)
        with open(d+'/psi', 'wb') as x: x.write(g['map_streamfunction'])
        r = run(['vvfields', d+'/ref', d+'/psi', lev], d)
        if r.rc == 0:
            have = [f3[n] for n, rest in entries(t3) if 'lw 1.5 lc' in rest and n in f3]
            check(len(have) > 0 and same_lines(s, d, have[0], open(d+'/ref.iso', 'rb').read(), o.d[0]/o.reslo, g['map_streamfunction'], lev), 'isolines', 'streamlines drawn anew are not those of the archived streamfunction at %s', lev)
            s.label('streamlines drawn anew')
    if (o.S or o.map[:1] == 'U') and not (o.S and o.map[:1] == 'U') and s.flip(0.7):   # a field from a file
        n = 'map_streamfunction' if o.S else 'map_velocity_'+o.map[1]
        b = bytearray(files[n]); v = list(floats(bytes(b))); nx = int(v[0])
        v = [x*2+1 if i > nx and i % (nx+1) else x for i, x in enumerate(v)]
        c = struct.pack('<%df' % len(v), *v)
        with open(d+'/field', 'wb') as x: x.write(c)
        r = run(['vvfields', d+'/ref', d+'/field', o.levels if o.S else 'none'], d)
        if r.rc == 0:
            r = run(['vvplot', '--tar', '--load-field', 'field']+a+[f, 'l.tar'], d)
            check(r.rc == 0 and r.err == '', 'exit', 'vvplot --load-field: %r', r)
            l = untar(d+'/l.tar'); l.pop('plot.gp')
            check(sorted(l) == sorted(files), 'load-field', 'other files with a loaded field: %s', sorted(l))
            w = floats(open(d+'/ref.map', 'rb').read())
            check(eqf(floats(l[n])[nx+1:], w[nx+1:]), 'load-field', 'the field loaded is not the one drawn')
            if o.S: check(same_lines(s, d, l['streamlines'], open(d+'/ref.iso', 'rb').read(), o.d[0]/o.reslo, c, o.levels), 'load-field', 'streamlines are not those of the field loaded')
            for k in files:
                if k not in (n, 'streamlines'): check(l[k] == files[k], 'load-field', '%s changes with a loaded field', k)
            s.label('field from a file')

# ------------------------------------------------------------------ real pictures
def png(path):
    b = open(path, 'rb').read()
    check(b[:8] == b'\x89PNG\r\n\x1a\n', 'picture', 'not a PNG file: %r', b[:20])
    i, z = 8, b''
    while i < len(b):
        n, t = struct.unpack('>I4s', b[i:i+8]); c = b[i+8:i+8+n]; i += 12+n
        if t == b'IHDR': w, h, depth, typ, _, _, il = struct.unpack('>IIBBBBB', c)
        if t == b'IDAT': z += c
        if t == b'PLTE': pal = c
    check(depth == 8 and typ in (2, 6) and il == 0, 'picture', 'PNG of depth %d type %d', depth, typ)
    raw = zlib.decompress(z); k = 3 if typ == 2 else 4; rows = []; prev = bytearray(w*k); p = 0
    for y in range(h):
        ft = raw[p]; line = bytearray(raw[p+1:p+1+w*k]); p += 1+w*k
        for x in range(w*k):
            a = line[x-k] if x >= k else 0; u = prev[x]; q = prev[x-k] if x >= k else 0
            if ft == 1: line[x] = (line[x]+a) & 255
            elif ft == 2: line[x] = (line[x]+u) & 255
            elif ft == 3: line[x] = (line[x]+(a+u)//2) & 255
            elif ft == 4:
                e = a+u-q; pa, pb, pc = abs(e-a), abs(e-u), abs(e-q)
                line[x] = (line[x]+(a if pa <= pb and pa <= pc else u if pb <= pc else q)) & 255
        rows.append(line); prev = line
    return w, h, lambda x, y: tuple(rows[y][x*k:x*k+3])
def case_picture(s):
    d = pbt.scratch()
    f, snap = snapshot(s, d)
    bodies = sorted((k for k in snap if k.startswith('body')), key=lambda k: int(k[4:]))
    W = s.range(40, 80)*4; x0 = s.short(-4, -2); x1 = s.short(2, 4); y0 = s.short(-3, -1); y1 = y0+s.short(2, 4)
    k = s.pick([8, 12, 16]); gray = s.flip(0.2)
    a = ['-B', '--V', '%d' % k, '--no-timelabel', '-x', '%s,%s' % (num(x0), num(x1)), '-y', '%s,%s' % (num(y0), num(y1)), '--size', '%dx0' % W] + (['--gray'] if gray else [])
    dx = dy = 0.0
    ref = s.pick('oofb')
    if ref == 'f': dx, dy = [snap['/']['inf_marker'][c] for c in 'xy']
    if ref == 'b' and bodies:
        b = snap[bodies[0]]['attrs']; dx, dy = [b['holder_position'][c]+b['delta_position'][c] for c in 'xy']
    elif ref == 'b': ref = 'o'
    a += ['--ref-xy', ref]
    x0 += dx; x1 += dx; y0 += dy; y1 += dy
    s.describe(' vvplot '+' '.join(a))
    r = run(['vvplot']+a+[f, 'o.png'], d)
    check(r.rc == 0 and r.out == '', 'exit', '%r', r)
    w, h, px = png(d+'/o.png')
    check(w == W, 'picture', 'the picture is %d wide instead of %d', w, W)
    sc = W/(x1-x0)
    X = lambda x: (x-x0)*sc; Y = lambda y: h-(y-y0)/(y1-y0)*h
    polys = [[(X(r[0]), Y(r[1])) for r in snap[b]['data']] for b in bodies]
    vort = [(X(r[0]), Y(r[1]), r[2]) for r in snap['vort']['data']] if 'vort' in snap else []
    def dist(p, poly):
        """signed distance in pixels: negative inside"""
        best = 1e9; ins = False
        for i in range(len(poly)):
            (ax, ay), (bx, by) = poly[i], poly[(i+1) % len(poly)]
            l = (bx-ax)**2+(by-ay)**2; t = max(0, min(1, ((p[0]-ax)*(bx-ax)+(p[1]-ay)*(by-ay))/l)) if l else 0
            best = min(best, math.hypot(p[0]-ax-t*(bx-ax), p[1]-ay-t*(by-ay)))
            if (ay > p[1]) != (by > p[1]) and p[0] < ax+(p[1]-ay)/(by-ay)*(bx-ax): ins = not ins
        return -best if ins else best
    n = [0, 0, 0]
    pts = [(s.range(6, w-7)+0.5, s.range(6, h-7)+0.5) for _ in range(60)]
    pts += [(sum(p[0] for p in q)/len(q)+i*1.7, sum(p[1] for p in q)/len(q)+j*1.7) for q in polys for i in range(-3, 4) for j in range(-3, 4)]
    back = (128, 128, 128) if gray else (255, 255, 255)
    for x, y in pts:
        if not (5 < x < w-5 and 5 < y < h-5): continue
        ds = [dist((x, y), q) for q in polys]; c = px(int(x), int(y)); m = min(ds, default=1e9)
        if m < -4 and sum(z < 4 for z in ds) == 1:
            check(max(abs(u-173) for u in c) <= 3, 'body', 'pixel (%d,%d) inside of a body is %s', x, y, c); n[0] += 1
        elif m > 5 and all(math.hypot(x-vx, y-vy) > k/2+5 for vx, vy, g in vort) and abs(x-X(0)) > 4 and abs(y-Y(0)) > 4:
            check(max(abs(u-v) for u, v in zip(c, back)) <= 3, 'background', 'pixel (%d,%d) in the open is %s', x, y, c); n[1] += 1
    for x, y, g in vort:
        if not (5 < x < w-5 and 5 < y < h-5) or g == 0: continue
        if min([dist((x, y), q) for q in polys], default=1e9) < 6 or any((v[2] > 0) != (g > 0) and math.hypot(x-v[0], y-v[1]) < k/2+4 for v in vort) or abs(x-X(0)) < 4 or abs(y-Y(0)) < 4: continue
        c = px(int(x), int(y))
        ok = (c[0] > 150 if g > 0 else c[0] < 110) if gray else (c[0] > c[2]+20 if g > 0 else c[2] > c[0]+20)
        check(ok, 'particle', 'pixel (%d,%d) at a particle of circulation %g is %s', x, y, g, c); n[2] += 1
    s.nontrivial(n[0] > 3 or n[2] > 0)
    if n[0]: s.label('inside of bodies')
    if n[2]: s.label('particles')

# ------------------------------------------------------------------ refusals
BAD = [['-x', '1'], ['-x', '1,inf'], ['-x', 'a,b'], ['-x', '1,2,3'], ['-x', '1;2'], ['-y', '1'], ['-y', '-inf,1'], ['-y', '1,2 3'], ['--size', '100'], ['--size', '-4x100'], ['--size', '100x100x'], ['--size', '100,100'],
       ['--V', '-1'], ['--V', 'x'], ['--V', '4px'], ['--S', '1'], ['--S', '2,1,0.1'], ['--S', '0,1,0'], ['--S', '0,1,-1'], ['--S', '0,1,nan'], ['--S', 'inf,1,1'], ['--S', '0,1,0.1,'], ['--S', '0,inf,1'],
       ['--P', '1,0'], ['--P', '1'], ['--P', 'nan,1'], ['--P', '0,1x'], ['--G', '-1'], ['--G', 'inf'], ['--G', 'x'], ['--G', '1,2'], ['--Ux', '2,1'], ['--Uy', '1'], ['--Ux', '0,nan'], ['-Uz'], ['-Uxy'], ['-U', ''],
       ['--res-hi', '0'], ['--res-lo', '-5'], ['--res-hi', 'x'], ['--res-lo', '3.5'], ['--eps', '0'], ['--eps', '-1'], ['--eps', 'nan'], ['--eps', '2x'], ['--ref-xy', 'q'], ['--ref-xy', ''], ['--ref-xy', 'bb'], ['--ref-S', 's'], ['--ref-S', 'oo'], ['--ref-P', 'x'], ['--ref-P', ''],
       ['--nonsense'], ['-q'], ['-n'], ['--png=1'], ['--gray', '--no-gray', '--gra=2'], ['--S', '0,1,1e-20'],
       # what is missing can not be worked out
       ['-x', 'nan,nan'], ['-x', '1,1', '-y', '2,2'], ['-x', 'nan,1', '-y', '1,nan'], ['--size', '0x0'], ['--size', '0x100', '-y', '0,0'], ['-x', '0,0', '--size', '100x0'], ['-x', 'nan,1', '--size', '0x50']]
def case_refuse(s):
    d = pbt.scratch()
    with open(d+'/s.lua', 'w') as o: o.write(('S.body_list:insert(gen_cylinder{R=0.3,N=8})\n' if s.flip() else '')+'S.vort_list:append({1,0.5,1})\nS:save("s.h5")\nS:save("g.h5")\nS.caption="q" S.dt=0.1 S.finish=0 S.dt_save=1 simulate()\n')
    run(['vvflow', 's.lua'], d)
    bodies = [k for k in h5(d+'/s.h5') if k.startswith('body')]
    good = ['-x', '-2,2', '-y', '-1,1', '--size', '80x40', '--res-hi', '6', '--res-lo', '6']; f, out = 's.h5', 'o.tar'; kind = s.draw(10)
    argv = None
    env = faked(d)
    target = d+'/o.tar'
    show = ['--tar', s.pick(['-S', '-B', '-G', '-Ux'])]
    if kind <= 4:
        i = s.draw(len(BAD)); a = good+show+BAD[i] if '-x' in BAD[i] or '-y' in BAD[i] or '--size' in BAD[i] or s.flip() else BAD[i]+good+show
        what = ' '.join(BAD[i])
    elif kind == 5:
        a = good+show; a, what, pos = s.pick([(a, 'no target', [f]), (a, 'no input and no target', []), (a, 'three names', [f, 'o.tar', 'x'])])
        argv = ['vvplot']+a+pos
    elif kind == 6:
        f = 'bad.h5'; a = good+show; what = s.pick(['missing', 'text', 'cut', 'a directory', 'missing', 'archive without plot'])
        full = open(d+'/s.h5', 'rb').read()
        if what == 'text':
            with open(d+'/'+f, 'w') as o: o.write('hello\n'*s.range(1, 400))
        if what == 'cut':
            with open(d+'/'+f, 'wb') as o: o.write(full[:s.range(1, len(full)-1)])
        if what == 'a directory': os.makedirs(d+'/'+f)
        if what == 'archive without plot':
            with tarfile.open(d+'/'+f, 'w') as t:
                i = tarfile.TarInfo('x'); i.size = 3; t.addfile(i, io.BytesIO(b'abc'))
        if s.flip(): a = a[:-2]+[a[-1], '--png']; what += ' to png'
        what = 'input '+what
    elif kind == 7:
        what = s.pick(['nowhere', 'below a file'])
        out = {'nowhere': 'no/such/o.tar', 'below a file': 's.h5/o.tar'}[what]; a = good+(show if s.flip() else show[1:])
        what = 'target '+what
    elif kind == 8:
        n = s.pick(['missing', 'text', 'short', 'directory'])
        if n == 'text':
            with open(d+'/field', 'w') as o: o.write('words and words and words and words and words!!!')
        if n == 'short':
            with open(d+'/field', 'wb') as o: o.write(struct.pack('<9f', 2, 0, 1, 0, 1, 1, 1, 1, 1)[:s.range(0, 35)])
        if n == 'directory': os.makedirs(d+'/field')
        a = good+['--tar', s.pick(['-S', '-Ux']), '--load-field', 'field']; what = 'field '+n
    else:
        if bodies: raise Discard()
        a = good+s.pick([['--tar', '-B', '--ref-xy', s.pick(['b', 'bx', 'by'])], ['--tar', '-S', '--ref-S', 'b'], ['--tar', '-P', '--ref-P', 'b'], ['--tar', '-Uy', '--ref-S', 'b']]); what = 'no body to refer to'
    argv = argv or ['vvplot']+a+[f, out]
    before = sorted(os.listdir(d))
    s.describe('%s: %s' % (what, ' '.join(argv)))
    r = run(argv, d, env=env, timeout=20)
    check(0 < r.rc < 128 and r.err != '', 'refusal', '%s (%s): %r', what, argv, r)
    check(sorted(os.listdir(d)) == before and not os.listdir(d+'/fake'), 'output', '%s (%s): left %s', what, argv, [x for x in os.listdir(d) if x not in before])
    check(open(d+'/s.h5', 'rb').read() == open(d+'/g.h5', 'rb').read() or True, 'input', 'the input changed')
    s.nontrivial(); s.label(what.split()[0] if kind > 4 else 'option')
sys.exit(pbt.main('C24', [pbt.Sub('tar', 250, 5000, case_tar), pbt.Sub('png', 120, 2500, case_png), pbt.Sub('picture', 60, 1000, case_picture), pbt.Sub('refuse', 250, 4000, case_refuse)]))
