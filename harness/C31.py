"""C31: files of earlier formats open as the problem they hold."""
import os, sys, math, re, struct, tarfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbt
from pbt import check, run, num, h5, same, lua_str, scratch, Sub, main, Discard
import problem
FAULTS = lambda: dict(LD_PRELOAD=os.path.join(pbt.BIN, 'faults.so'), FAULT_TIME='1500000000', TZ='UTC')
WHO = ('git_rev', 'git_info', 'git_diff', 'time_local')
V3 = lambda v: dict(x=v[0], y=v[1], o=v[2])

def equal(a, b):
    if isinstance(a, dict): return isinstance(b, dict) and a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)): return a == b or (a != a and b != b)
    return a == b
def differ(a, b, at=''):
    """where two dumps differ"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a)|set(b)):
            if k not in a or k not in b: return '%s/%s is only in the %s' % (at, k, 'first' if k in a else 'second')
            if not equal(a[k], b[k]): return differ(a[k], b[k], at+'/'+k)
    return '%s: %r and %r' % (at, a, b) if len(repr(a)) < 300 else at
def dump(f, who=True):
    j = h5(f)
    if who:
        for k in WHO: j['/'].pop(k, None)
    return j
def vv(d, script, what, key='run', timeout=60):
    with open(d+'/s.lua', 'w') as f: f.write(script)
    r = run(['vvflow', 's.lua'], d, env=FAULTS(), timeout=timeout)
    check(r.rc == 0 and not r.out, key, '%s: %r', what, r)
    return r

# ------------------------------------------------------------ the binary format 1.3
def text(s, e): return struct.pack('<i', len(e)+(1 if s else 0)) + e.encode() + (b'\0' if s else b'')
def old_file(s):
    """(bytes, what the file holds)"""
    zero = s.flip(0.3) # expressions written with the final zero
    cap = s.pick(['', 'old', 'c'*64, 'with space', 'dashes-and.dots'])
    A = dict(caption=cap)
    t = [(s.range(-1000, 1000), s.range(1, 1000)) for _ in range(5)]
    if s.flip(0.2): t[s.draw(5)] = (s.pick([-(1 << 31), (1 << 31)-1]), s.pick([(1 << 31)-1, 1]))
    re_, pr = s.fine(0.5, 1000), s.pick([0.0, s.fine(0, 10)])
    mark, grav = (s.fine(-9, 9), s.fine(-9, 9)), (s.fine(-9, 9), s.fine(-9, 9))
    sx, sy = s.pick(['', '1', 'cos(t)']), s.pick(['', '0.5*t', 'exp(-t)'])
    ig, fin = s.fine(-3, 3), s.pick([s.fine(0, 50), math.inf])
    parts = []
    h = b'v: 1.3  ' + cap.encode().ljust(64, b'\0') + b''.join(struct.pack('<iI', *x) for x in t)
    h += struct.pack('<dddd', re_, pr, *mark) + text(zero, sx) + text(zero, sy) + struct.pack('<ddddq', ig, grav[0], grav[1], fin, 1400000000)
    for k, x in zip(('time', 'dt', 'dt_save', 'dt_streak', 'dt_profile'), t): A[k] = x
    A.update(re=re_, pr=pr, inf_marker=dict(x=mark[0], y=mark[1]), inf_speed_x=sx, inf_speed_y=sy, inf_circulation=ig, gravity=dict(x=grav[0], y=grav[1]), time_to_finish=fin)
    lists = {}
    for n, key in ((b'Vortexes', 'vort'), (b'Heat    ', 'heat'), (b'StrkSrc ', 'ink_source'), (b'Streak  ', 'ink')):
        if s.flip(0.6):
            rows = [[s.fine(-5, 5), s.fine(-5, 5), s.fine(-1, 1)] for _ in range(s.sized(0, 200 if s.thorough else 40))]
            lists[key] = rows
            parts.append([(n, struct.pack('<q', len(rows)) + b''.join(struct.pack('<ddd', *r) for r in rows))])
    bodies = []
    nb = s.sized(0, 12) if s.flip(0.2) else s.draw(4)
    for i in range(nb):
        n = s.range(3, 14); cx = 4.0*i; w = s.fine(0, 6); turn = 1 if s.flip(0.2) else -1
        pts = [[cx+math.cos(w+turn*2*math.pi*j/n), math.sin(w+turn*2*math.pi*j/n)] for j in range(n)]
        v = [s.fine(-2, 2) for _ in range(21)]; v[0:3] = [cx, 0.0, s.fine(-7, 7)]
        ex = [s.pick(['', '0', 'sin(t)', '1+t']) for _ in range(3)]
        ks = [s.pick([-1.0, -2.5, math.inf, 0.0, s.fine(0, 9)]) for _ in range(3)]
        dens = s.fine(0.1, 5)
        b = struct.pack('<6d', *v[:6]) + b''.join(text(zero, e) for e in ex) + struct.pack('<6d', *v[6:12]) + struct.pack('<3d', *ks) + struct.pack('<d', dens) + struct.pack('<9d', *v[12:21])
        sp = s.draw(n+2); kind = s.pick('siz')
        slip = [s.flip() for _ in range(n)] if s.flip(0.3) else [s.flip()]*n
        hc = s.pick('nitw'); heat = struct.unpack('<f', struct.pack('<f', s.fine(-3, 3)))[0] if s.flip() else 0.0
        seg = struct.pack('<q', n); rows = []
        for j in range(n):
            g, gs = s.fine(-1, 1), s.fine(-1, 1)
            seg += struct.pack('<dddqqdd', pts[j][0], pts[j][1], g, ord(kind if j == sp else 'l' if slip[j] else 'n'), ord(hc), heat, gs)
            rows.append(pts[j]+[g, gs])
        parts.append([(b'BData   ', b), (b'Body    ', seg)])
        want = dict(holder_position=V3(v[0:3]), delta_position=V3(v[3:6]), speed_x=ex[0], speed_y=ex[1], speed_o=ex[2], speed_slae=V3(v[6:9]), speed_slae_prev=V3(v[9:12]),
            spring_const=V3([math.inf if k < 0 else k for k in ks]), density=dens, force_hydro=V3(v[12:15]), fdt_dead=V3(v[15:18]), friction_prev=V3(v[18:21]),
            special_segment_no=sp if sp < n else 0, boundary_condition=1 if sp < n and kind == 'z' else 0, heat_condition='nitw'.index(hc), general_heat_const=heat,
            bounce=0, spring_damping=V3([0, 0, 0]), g_dead=0, collision_min=V3([math.nan]*3), collision_max=V3([math.nan]*3), force_o='', label='', root_body='', force_holder=V3([0, 0, 0]))
        bodies.append((rows, slip, sp, want))
        if sp < n: s.label('special segment '+kind)
        if any(k < 0 for k in ks): s.label('negative spring')
        if turn > 0: s.label('inside of a contour')
    # the sections stand in any order (bodies in theirs), in any of the 64 places
    head = [(b'Header  ', h)]
    order = [p for p in parts if len(p) == 1]; bod = [p for p in parts if len(p) == 2]
    secs = [head]+order
    if s.flip(0.4): secs = s.shuffle(secs); s.label('any order')
    flat = [x for p in secs for x in p]; fb = [x for p in bod for x in p]
    at = len(flat) if not s.flip(0.3) else s.draw(len(flat)+1)
    flat = flat[:at]+fb+flat[at:]
    slots = sorted(s.shuffle(list(range(64)))[:len(flat)]) if s.flip(0.4) and len(flat) <= 64 else list(range(len(flat)))
    table = bytearray(1024); data = b''; off = {}
    places = s.shuffle(list(range(len(flat)))) if s.flip(0.3) else list(range(len(flat)))
    for k in places:
        if s.flip(0.2): data += b'\x55'*s.range(1, 40); s.label('gaps')
        off[k] = 1024+len(data); data += flat[k][1]
    for k, slot in enumerate(slots): table[16*slot:16*slot+16] = struct.pack('<q', off[k])+flat[k][0]
    return bytes(table)+data, A, lists, bodies

def v13(s):
    d = scratch()
    n = s.sized(1, 8); files = []
    for i in range(n):
        b, *w = old_file(s); files.append(w)
        with open(d+'/old%d.h5' % i, 'wb') as f: f.write(b)
    s.describe('%d files, bodies %s' % (n, [len(w[2]) for w in files])); s.nontrivial(any(w[2] for w in files))
    vv(d, '\n'.join('S:load("old%d.h5") S:save("new%d.h5")' % (i, i) for i in range(n)), 'good files of the old format')
    for i, (A, lists, bodies) in enumerate(files):
        if i == 0 and s.flip(0.3): tools(s, d, 'old0.h5', 'new0.h5', info=False)
        j = h5(d+'/new%d.h5' % i); a = j['/']
        for k, v in A.items():
            g = a.get(k)
            if isinstance(v, tuple): check(g is not None and g['value']*v[1] == v[0]*g['timescale'], 'header', '%s is %r instead of %r', k, g, v)
            elif v == '': check(not g, 'header', '%s is %r instead of nothing', k, g)
            else: check(equal(g, v), 'header', '%s is %r instead of %r', k, g, v)
        for k in ('vort', 'heat', 'ink', 'ink_source', 'source'):
            g = [list(r) for r in j.get(k, dict(data=[]))['data']]
            check(g == lists.get(k, []), 'lists', '%s: %r instead of %r', k, g[:3], lists.get(k, [])[:3])
        names = sorted(k for k in j if k.startswith('body'))
        check(names == ['body%02d' % q for q in range(len(bodies))], 'bodies', 'bodies %s instead of %d', names, len(bodies))
        for q, (rows, slip, sp, want) in enumerate(bodies):
            b = j['body%02d' % q]; at = b['attrs']
            check([list(r) for r in b['data']] == rows, 'segments', 'segments of body %d: %r instead of %r', q, b['data'][:3], rows[:3])
            for k, v in want.items():
                g = at.get(k, '' if v == '' else None)
                check(equal(g, v), 'body', '%s of body %d is %r instead of %r', k, q, g, v)
            g = at['slip'] if 'slip' in at else [at['general_slip']]*len(rows)
            bad = [z for z in range(len(rows)) if z != sp and bool(g[z]) != slip[z]]
            check(not bad, 'slip', 'slip of the segments %s of body %d', bad, q)
            check('friction_body%02d' % q not in j, 'body', 'friction of body %d', q)

# ------------------------------------------------------------ snapshots with older attributes
ROOT0 = [('inf_marker', dict(x=0, y=0)), ('gravity', dict(x=0, y=0)), ('inf_circulation', 0), ('pr', 0), ('dt_profile', dict(value=0, timescale=1)), ('dt_streak', dict(value=0, timescale=1))]
BODY0 = [('bounce', 0), ('spring_damping', V3([0]*3)), ('collision_min', V3([math.nan]*3)), ('collision_max', V3([math.nan]*3)), ('g_dead', 0), ('force_holder', V3([0]*3)), ('force_o', None), ('label', None), ('root_body', None)]
def snapshot(s, d):
    """a snapshot new.h5 with bodies, and its dump"""
    p = problem.generate(s, maxbodies=3, minbodies=1 if s.flip(0.9) else 0, viscous=True if s.flip(0.6) else None)
    L = p.lines + ['S.caption="q" S.dt="1/20" S.dt_save="1/20" S.finish=%s' % num(s.draw(3)*0.05)]
    if s.flip(0.3): L.append('S.dt_streak="1/10"')
    if s.flip() and p.nbodies: L.append('b1.collision_min={%s,nan,-0.5} b1.collision_max={inf,90,nan} b1.bounce=0.5' % num(-s.fine(50, 90)))
    for i in range(p.nbodies):
        if s.flip(0.3): L.append('b%d.special_segment=%d' % (i+1, s.draw(5)))
        if s.flip(0.3): L.append('b%d.label="L%d"' % (i+1, i))
    L.append('simulate()' if s.flip(0.8) else '')
    L.append('S:save("new.h5")')
    vv(d, '\n'.join(L), 'the problem', key='setup')
    s.describe('%d bodies' % p.nbodies)
    return p
def change(d, f, ops):
    run(['h5damage', f], d, stdin='\n'.join(ops+['']).encode(), env=FAULTS())
def tools(s, d, A, B, info=True):
    """vvplot draws both files alike and vvxtract (of snapshots) prints the same"""
    out = []
    opt = [o for o in ('-B', '-V') if s.flip(0.7)]+(['-S', '--S', '-1,1,0.5', '--res-lo', '20'] if s.flip(0.2) else [])
    for k, f in (('p', A), ('q', B)):
        os.makedirs(d+'/'+k, exist_ok=True)
        with open(d+'/'+f, 'rb') as x, open(d+'/'+k+'/x.h5', 'wb') as y: y.write(x.read())
        r = run(['vvplot', '--tar', '-x', '-3,3', '-y', '-2,2']+opt+['x.h5', 'x.tar'], d+'/'+k)
        check(r.rc == 0, 'vvplot', 'vvplot %s: %r', f, r)
        with tarfile.open(d+'/'+k+'/x.tar') as z: got = {m.name: z.extractfile(m).read() for m in z.getmembers()}
        if info:
            r = run(['vvxtract', 'x.h5'], d+'/'+k); check(r.rc == 0, 'vvxtract', 'vvxtract %s: %r', f, r)
            got['vvxtract'] = [l for l in r.out.split('\n') if not re.match('created: |version: |git_', l)]
        out.append(got)
    a, b = out
    check(a.keys() == b.keys(), 'tools', 'parts %s and %s', sorted(a), sorted(b))
    for k in a: check(a[k] == b[k], 'tools', '%s of the two files: %r and %r', k, a[k][-300:], b[k][-300:])
def go(s, d, A, B, steps):
    """the two files hold the same problem: saved again and continued, they give the same files"""
    out = []
    for k, f in (('a', A), ('b', B)):
        os.mkdir(d+'/'+k)
        t = 'S:load("../%s") S:save("saved.h5") S.caption="run" S.dt="1/20" S.dt_save="1/20" S.finish=%s simulate() S:save("end.h5")'
        with open(d+'/'+k+'/s.lua', 'w') as g: g.write(t % (f, num(steps)))
        r = run(['vvflow', 's.lua'], d+'/'+k, env=FAULTS(), timeout=120)
        files = {}
        for w, _, fs in os.walk(d+'/'+k):
            for x in fs:
                if x.endswith('.h5'): files[os.path.relpath(w+'/'+x, d+'/'+k)] = w+'/'+x
        out.append((r, files))
    (ra, fa), (rb, fb) = out
    check('alloc' not in ra.err+rb.err, 'memory', 'memory runs out: %r and %r', ra, rb)
    check(ra.rc == rb.rc, 'runs', 'one of the runs fails: %r and %r', ra, rb)
    check(fa.keys() == fb.keys(), 'runs', 'files %s and %s', sorted(fa), sorted(fb))
    ks = sorted(fa, key=lambda k: (k != 'saved.h5', k))
    for k, x, y in zip(ks, h5([fa[k] for k in ks]), h5([fb[k] for k in ks])):
        for j in (x, y):
            for w in WHO: j['/'].pop(w, None)
        check(equal(x, y), 'saved' if k == 'saved.h5' else 'runs', '%s: %s', k, differ(x, y))
    s.label('runs on' if ra.rc == 0 else 'refused')

def hdf(s):
    d = scratch(); snapshot(s, d)
    j = dump(d+'/new.h5'); bodies = sorted(k for k in j if k.startswith('body'))
    # any conditions, in the present notation and in the earlier one
    now, then = [], []; want = {}
    for b in bodies:
        a = j[b]['attrs']; n = len(j[b]['data'])
        sl = a['slip'][0] if 'slip' in a else a['general_slip']
        if s.flip(0.4): sl = 1-bool(sl)
        sp, bc, hc, hk = s.draw(n), s.draw(2), s.draw(4), s.pick([0.0, 1.5, -2.25])
        now += ['delattr\t%s\tslip' % b, 'attr\t%s\tgeneral_slip\tu32\ts\t%d' % (b, sl), 'attr\t%s\tspecial_segment_no\ti32\ts\t%d' % (b, sp), 'attr\t%s\tboundary_condition\tu32\ts\t%d' % (b, bc), 'attr\t%s\theat_condition\tu32\ts\t%d' % (b, hc), 'attr\t%s\tgeneral_heat_const\tf64\ts\t%r' % (b, hk)]
        then += ['delattr\t%s\t%s' % (b, k) for k in ('slip', 'general_slip', 'special_segment_no', 'boundary_condition', 'heat_condition', 'general_heat_const')]
        then += s.pick([['delattr\t%s\tsimplified_dataset' % b], ['attr\t%s\tsimplified_dataset\tu32\ts\t%d' % (b, s.draw(2))], ['attr\t%s\tsimplified_dataset\tenum\ts\t0' % b]])
        i = s.pick(['i32', 'u32', 'u8', 'i64'])
        then += ['attr\t%s\tgeneral_bc\t%s\ts\t%d' % (b, i, ord('l' if sl else 'n')), 'attr\t%s\tspecial_bc\t%s\ts\t%d' % (b, i, ord('z' if bc else s.pick('si'))), 'attr\t%s\tspecial_bc_segment\ti32\ts\t%d' % (b, sp), 'attr\t%s\theat_condition\t%s\ts\t%d' % (b, i, ord('nitw'[hc])), 'attr\t%s\theat_const\tf64\ts\t%r' % (b, hk)]
        want[b] = dict(special_segment_no=sp, boundary_condition=bc, heat_condition=hc, general_heat_const=hk, general_slip=int(sl))
        s.label('slip' if sl else 'no slip'); s.label('special '+('kutta' if bc else 'steady'))
    s.nontrivial(bool(bodies))
    if s.flip(0.7): now.append('attr\t/\tpr\tf64\ts\t%s' % s.pick([1, 0.7, 7]))
    change(d, 'new.h5', now)
    with open(d+'/new.h5', 'rb') as f: x = f.read()
    with open(d+'/old.h5', 'wb') as f: f.write(x)
    change(d, 'old.h5', then)
    go(s, d, 'new.h5', 'old.h5', 0.05*s.range(1, 4))
    if s.flip(0.3): tools(s, d, 'old.h5', 'new.h5')
    k = h5(d+'/b/saved.h5')
    for b, w in want.items():
        for n, v in w.items(): check(equal(k[b]['attrs'].get(n), v), 'conditions', '%s of %s is %r instead of %r', n, b, k[b]['attrs'].get(n), v)

def missing(s):
    """attributes that earlier versions did not write have their defaults"""
    d = scratch(); snapshot(s, d)
    j = h5(d+'/new.h5'); bodies = sorted(k for k in j if k.startswith('body'))
    ops, want = [], {k: (dict(j[k])) for k in j}
    for b in bodies: want[b]['attrs'] = dict(want[b]['attrs'])
    gone = []
    def drop(o, k, v):
        ops.append('delattr\t%s\t%s' % (o, k)); gone.append(o+':'+k)
        t = want['/'] if o == '/' else want[o]['attrs']
        if v is None: t.pop(k, None)
        else: t[k] = v
    for k, v in ROOT0:
        if s.flip(0.25): drop('/', k, v)
    every = s.pick([None, None]+[k for k, _ in BODY0])
    for b in bodies:
        for k, v in BODY0:
            if k == every or s.flip(0.2): drop(b, k, v)
        if 'friction_'+b in want and s.flip(0.3): ops.append('dellink\tfriction_'+b); want.pop('friction_'+b); gone.append('friction_'+b)
    for k in WHO:
        if s.flip(0.2): ops.append('delattr\t/\t'+k)
    s.describe(', without '+' '.join(gone)); s.nontrivial(bool(gone))
    with open(d+'/new.h5', 'rb') as f: x = f.read()
    with open(d+'/old.h5', 'wb') as f: f.write(x)
    change(d, 'old.h5', ops)
    vv(d, 'S:load("old.h5") S:save("again.h5")', 'a snapshot without newer attributes can not be saved again')
    g = dump(d+'/again.h5')
    for k in WHO: want['/'].pop(k, None)
    check(equal(g, want), 'missing', 'saved and expected: %s', differ(g, want))
    for b in bodies: s.label('no limits' if b+':collision_min' in gone else 'limits')
    if s.flip(0.3): tools(s, d, 'old.h5', 'again.h5')
    if s.flip(0.4): go(s, d, 'old.h5', 'again.h5', 0.05*s.range(1, 4))

main('C31', [Sub('v13', 1500, 30000, v13), Sub('hdf', 700, 12000, hdf), Sub('missing', 800, 15000, missing)])
