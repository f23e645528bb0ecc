"""C19: vvxtract prints what a file holds: tables, the list of tables, the summary; refusals."""
import os, sys, math
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbt, problem
from pbt import check, run, num, h5, txt, lua_str

def g(x): return 'nan' if x != x else '%g' % x
def e(x): return '%+.6e' % x
def same(a, b): return a == b or ('nan' in a and a.lstrip('+-') == b.lstrip('+-'))
TEXTS = ['', 'cyl', "o'neil", 'a b', 'x"y', '100%', '%s%n', 'bödy', '-', 'body01', '#1', 'a' * 70]
WILD = [0, 1, -1, 0.1, 1e-300, -1e300, math.inf, -math.inf, math.nan, 123456.7, 1234567, 0.30000000000000004, 5e-324]

def decorate(s, p):
    """members that a plain run does not touch"""
    o = []
    for i in range(p.nbodies):
        b = 'S.body_list[%d]' % (i+1)
        if s.flip(0.4): o.append('%s.label=%s' % (b, lua_str(s.pick(TEXTS))))
        if s.flip(0.2): o.append('%s.bounce=%s' % (b, num(s.pick([0.5, 1, 0.123456789]))))
        if s.flip(0.2): o.append('%s.collision_min={-inf,%s,nan} %s.collision_max={inf,%s,nan}' % (b, num(-s.short(3, 9)), b, num(s.short(3, 9))))
        if s.flip(0.3): o.append('%s.holder_mo=%s' % (b, lua_str(s.pick(['0', 'sin(t)', '-0.01*t']))))
    return '\n'.join(o)+'\n'

def table(s, f, d, names):
    """the expected columns of the named tables side by side"""
    cols = []
    for n in names:
        rows = f[n]['data']
        rows = [r if isinstance(r, list) else [r] for r in rows]
        cols.append((n, len(rows[0]) if rows else 0, rows))
    out = ['#'+''.join((n+('[%d]' % (j+1) if c > 1 else '')+'\t') for n, c, _ in cols for j in range(c))]
    for k in range(max(len(r) for _, _, r in cols)):
        l = []
        for n, c, rows in cols:
            l += [e(rows[k][j]) if k < len(rows) else ' '*13 for j in range(c)]
        out.append(l)
    return out
def check_table(s, path, f, d):
    sets = [k for k in f if k != '/' and not k.endswith('/')]
    if not sets: s.label('no tables'); return
    names = [s.pick(sets) for _ in range(s.range(1, 4))]
    s.describe(' tables '+','.join(names))
    want = table(s, f, d, names)
    r = run(['vvxtract', path]+names, d)
    check(r.rc == 0 and r.err == '', 'exit', 'vvxtract %s: %r', names, r)
    lines = r.out.split('\n')
    check(lines[-1] == '' and len(lines)-1 == len(want), 'rows', '%d lines for %d rows', len(lines)-2, len(want)-1)
    check(lines[0] == want[0], 'header', 'header %r instead of %r', lines[0], want[0])
    for i, w in enumerate(want[1:]):
        have = lines[i+1].split('\t')
        check(have[-1] == '' and len(have)-1 == len(w), 'columns', 'row %d: %r', i, lines[i+1])
        for j, (a, b) in enumerate(zip(w, have)): check(same(a, b), 'value', 'row %d column %d of %s is %r instead of %r', i+1, j+1, names, b, a)
def check_list(s, path, f, d):
    r = run(['vvxtract', s.pick(['-l', '--list']), path], d)
    have = r.out.split('\n')[:-1]; want = sorted(k for k in f if k != '/' and not k.endswith('/'))
    check(r.rc == 0 and r.err == '' and sorted(have) == want, 'list', 'listed %s instead of %s: %r', have, want, r)

def poly(c):
    A = sx = sy = J = L = 0.0; n = len(c); x0 = sum(p[0] for p in c)/n; y0 = sum(p[1] for p in c)/n
    q = [(p[0]-x0, p[1]-y0) for p in c]
    for i in range(n):
        (x, y), (u, v) = q[i], q[(i+1) % n]; k = x*v-u*y
        A += k/2; sx += (x+u)*k/6; sy += (y+v)*k/6; J += k*(x*x+x*u+u*u+y*y+y*v+v*v)/12; L += math.hypot(u-x, v-y)
    cx, cy = sx/A, sy/A; J -= A*(cx*cx+cy*cy)
    return L, -A, cx+x0, cy+y0, -J
def check_info(s, path, f, d):
    r = run(['vvxtract', path] if s.flip() else ['vvxtract', s.pick(['-i', '--info']), path]+(['vort'] if s.flip(0.2) else []), d)
    check(r.rc == 0 and r.err == '', 'exit', 'vvxtract --info: %r', r)
    A = f['/']; T = lambda k: txt(A.get(k, ''))
    w = ['caption: '+T('caption'), 'created: '+T('time_local'), 'version: '+T('git_info'), 'git_rev: '+T('git_rev')]
    out = r.out
    if T('git_diff'):
        head = '\n'.join(w+['git_diff: '+T('git_diff'), '']); check(out.startswith(head), 'info', 'summary begins with %r', out[:200]); out = '\n'.join(w)+'\n'+out[len(head):]
    num4 = None; V2 = lambda v: '%s, %s' % (g(v['x']), g(v['y'])); V3 = lambda v: '%s, %s, %s' % (g(v['x']), g(v['y']), g(v['o'])); V4 = lambda v: V3(v)+'} -- .d = '+g(v['o']*180./math.pi)
    fr = lambda k: "%d/%d" % (A[k]['value'], A[k]['timescale']); sec = lambda k: g(A[k]['value']/A[k]['timescale'])
    size = lambda k: len(f[k]['data']) if k in f else 0
    if 'dt' in A:
        bodies = sorted((k for k in f if k.startswith('body')), key=lambda k: int(k[4:]))
        w += ['', '-- space', 'S.re = '+g(A['re']), 'S.inf_g = '+g(A['inf_circulation']), "S.inf_vx = '%s'" % T('inf_speed_x'), "S.inf_vy = '%s'" % T('inf_speed_y'), 'S.gravity = {%s}' % V2(A['gravity']),
              "S.time = '%s' -- %s" % (fr('time'), sec('time')), "S.dt = '%s' -- %s" % (fr('dt'), sec('dt'))] + ["S.%s = '%s'" % (k, fr(k)) for k in ('dt_save', 'dt_streak', 'dt_profile')] + ['S.finish = '+g(A['time_to_finish']),
              '-- #S.body_list = %d -- number of elements' % len(bodies), '-- #S.vort_list = %d' % size('vort'), '-- #S.sink_list = %d' % size('source'), '-- #S.streak_source_list = %d' % size('ink_source'), '-- #S.streak_domain_list = %d' % size('ink')]
        for k in bodies:
            a = f[k]['attrs']; lab = txt(a.get('label', '')); n = lab or k; rows = f[k]['data']
            slips = [a['general_slip']] if 'general_slip' in a else a['slip']
            root = txt(a.get('root_body', '')); rl = txt(f[root]['attrs'].get('label', '')) or root if root else 'nil'
            h, p = a['holder_position'], a['delta_position']; ax = {'x': h['x']+p['x'], 'y': h['y']+p['y']}
            w += ['', '-- %s (%s)' % (k, lab), "%s.label = '%s'" % (n, lab), '%s.density = %s' % (n, g(a['density'])), '%s.holder_pos = {%s' % (n, V4(h))]
            w += ["%s.holder_%s = '%s'" % (n, m, txt(a.get(q, ''))) for m, q in (('vx', 'speed_x'), ('vy', 'speed_y'), ('vo', 'speed_o'), ('mo', 'force_o'))]
            w += ['%s.speed = {%s}' % (n, V3(a['speed_slae'])), '%s.delta_pos = {%s' % (n, V4(p)), '%s.spring_const = {%s}' % (n, V3(a['spring_const'])), '%s.spring_damping = {%s}' % (n, V3(a['spring_damping'])),
                  '%s.collision_min = {%s' % (n, V4(a['collision_min'])), '%s.collision_max = {%s' % (n, V4(a['collision_max'])), '%s.bounce = %s' % (n, g(a['bounce'])),
                  '%s.slip = %s' % (n, 'nil -- mixed' if len(set(slips)) > 1 else 'false -- no-slip' if slips[0] == 0 else 'true -- slip'), '%s.special_segment = %d' % (n, a['special_segment_no']), '%s.root = %s' % (n, rl),
                  '-- #%s = %d -- number of segments' % (n, len(rows)), '-- %s.get_axis() = {%s} -- rotation axis' % (n, V2(ax))]
            L, ar, cx, cy, J = poly(rows); dx, dy = cx-ax['x'], cy-ax['y']
            w += [('-- %s.get_cofm() = {' % n, [cx, cy], '} -- center of mass', abs(cx)+abs(cy)+L), ('-- %s.get_slen() = ' % n, [L], ' -- surface length', L), ('-- %s.get_area() = ' % n, [ar], '', abs(ar)), ('-- %s.get_moi_cofm() = ' % n, [J], '', abs(J)), ('-- %s.get_moi_axis() = ' % n, [J+ar*(dx*dx+dy*dy)], '', abs(J)+abs(ar)*(dx*dx+dy*dy))]
    lines = out.split('\n'); check(lines[-1] == '', 'info', 'no final newline'); lines.pop()
    for i, (a, b) in enumerate(zip(w, lines)):
        if isinstance(a, tuple):
            pre, vals, post, mag = a; ok = b.startswith(pre) and b.endswith(post)
            if ok:
                try: got = [float(x) for x in b[len(pre):len(b)-len(post) if post else None].split(', ')]
                except ValueError: got = []
                ok = len(got) == len(vals) and all(abs(x-y) <= 6e-6*abs(y)+1e-9*mag for x, y in zip(got, vals))
            check(ok, 'info', 'line %r, expected %s%s%s', b, pre, vals, post)
        else: check(a.replace('-nan', 'nan') == b.replace('-nan', 'nan'), 'info', 'line %r instead of %r', b, a)
    check(len(lines) == len(w), 'info', '%d lines instead of %d: %s', len(lines), len(w), (lines[len(w):] or w[len(lines):])[:3])

def make(s, d):
    p = problem.generate(s, maxbodies=4, sinks=True)
    t = p.lua()+decorate(s, p)
    if s.flip(0.35):   # a polygon with some segments of the other kind
        n = s.range(3, 24); odd = {s.draw(n) for _ in range(s.pick([0, 1, 1, 2, 3, n]))}; k = s.draw(2); s.label('mixed')
        with open(d+'/b.txt', 'w') as fo: fo.write(''.join('%.9f %.9f %d\n' % (-30+math.cos(2*math.pi*i/n), 30-math.sin(2*math.pi*i/n), k ^ (i in odd)) for i in range(n)))
        t += 'S.body_list:insert(load_body("b.txt"))\n'
    wild = s.flip(0.3)
    if wild: t += 'S.vort_list:append({%s,%s,%s})\n' % tuple(num(s.pick(WILD)) for _ in range(3))
    cap = s.pick(['q', 'q', 'a b', "it's", 'q%d', 'bö'])
    steps = s.range(0, 4); run_it = s.flip(0.6) and not wild; dt = s.pick([(1, 10), (1, 20), (3, 50)])
    t += 'S.caption=%s\nS.dt="%d/%d"\nS.dt_save=S.dt\nS.finish=%s\n' % (lua_str(cap), dt[0], dt[1], num(steps*dt[0]/dt[1]))
    t += 'simulate()\n' if run_it else 'S:save("s.h5")\n'
    with open(d+'/s.lua', 'w') as fo: fo.write(t)
    s.describe('%s: %s' % ('run of %d steps' % steps if run_it else 'saved', t.replace('\n', '; ')[-1500:]))
    r = run(['vvflow']+(['--profile'] if s.flip() else [])+['s.lua'], d); check(r.rc == 0, 'exit', 'vvflow: %r', r)
    if not run_it: return [d+'/s.h5'], None
    rd = d+'/results_'+cap
    return [rd+'/'+x for x in sorted(os.listdir(rd))], d+'/stepdata_'+cap+'.h5'

def case(s):
    d = pbt.scratch(); snaps, steps = make(s, d)
    s.nontrivial()
    for path in [s.pick(snaps)]+([steps] if steps else []):
        f = h5(path); rel = os.path.relpath(path, d)
        if s.flip(0.2): rel = path
        for _ in range(2): check_table(s, rel, f, d)
        check_list(s, rel, f, d)
        check_info(s, rel, f, d)

def refusals(s):
    d = pbt.scratch(); snaps, steps = make(s, d); path = s.pick(snaps+([steps] if steps else [])); f = h5(path); s.nontrivial()
    sets = [k for k in f if k != '/' and not k.endswith('/')]
    k = s.draw(6); some = [s.pick(sets)] if sets and s.flip() else []
    if k == 0: a = [path]+some+[s.pick(['nope', 'Vort', '', 'body99', 'vort/x', '..'])]+some
    elif k == 1: a = [path]+some+[s.pick([x[:-1] for x in f if x.endswith('/') and x != '/'] or ['nope'])]
    elif k == 2: a = [s.pick(['missing.h5', '.', 's.lua', ''])]+some+s.pick([[], ['-i'], ['-l']])
    elif k == 3:
        b = open(path, 'rb').read(); open(d+'/cut.h5', 'wb').write(b[:s.draw(len(b)*3//4)]); a = ['cut.h5']+s.pick([[], ['-l'], some])
    elif k == 4: a = s.pick([[], ['-i'], ['-l']])
    else: a = [s.pick(['--nope', '-x'])]+[path]
    s.describe(' refused: %s' % a); s.label('way %d' % k)
    r = run(['vvxtract']+a, d)
    check(r.rc > 0 and r.err.strip() and r.out == '', 'refused', 'vvxtract %s: %r', a, r)

if __name__ == '__main__':
    sys.exit(pbt.main('C19', [pbt.Sub('contents', 500, 12000, case), pbt.Sub('refusals', 250, 4000, refusals)]))
