"""Damaged, foreign and unreadable input is refused: no crash, no hang, no memory error."""
import os, re, struct, zlib, json, io, tarfile, glob
import pbt, problem
from pbt import Sub, main, check, run, h5, num, same, lua_str, scratch, Fail, Discard
ASAN = os.path.join(os.path.dirname(os.path.dirname(pbt.BIN)), 'asan', 'bin')
ENV = dict(ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1', PATH=ASAN + ':' + pbt.BIN + ':' + os.environ.get('PATH', ''))

def frames(block): return re.findall(r'^\s+#\d+ 0x\S+ (?:in (.*?) )?(\(?/\S+)', block, re.M)
def inside_hdf5(err):
    """the crash is one of the HDF5 library, not of the program: its own code touched bad memory, or memory of its own"""
    m = re.search(r'ERROR: AddressSanitizer:? (\S+)', err)
    if not m: return False
    if m.group(1) in ('requested', 'allocation-size-too-big', 'out'): return 'libhdf5' in ' '.join(f[1] for f in frames(err)[:4])
    blocks = re.split(r'\n(?=\S.*(?:allocated by|freed by|located))', err)
    f = [x for x in frames(blocks[0])]
    own = [x for x in f if 'libasan' not in x[1] and 'sanitizer' not in x[1]]
    if not own or 'libhdf5' not in own[0][1]: return False
    if m.group(1) in ('SEGV', 'FPE', 'ABRT', 'BUS', 'ILL', 'unknown-crash', 'stack-overflow'): return True
    if re.search(r'^READ of size', err, re.M) and not any(x[0] in ('H5Dwrite', 'H5Awrite') for x in f): return True     # it follows a damaged offset
    if 'is located in stack' in err: return False
    for b in blocks[1:]:
        if 'allocated by' in b.split('\n')[0]:
            o = [x for x in frames(b) if 'libasan' not in x[1] and 'sanitizer' not in x[1]]
            return bool(o) and 'libhdf5' in o[0][1]
    return True      # a wild address
def tool(s, argv, d, what, files=(), timeout=60, env=None):
    """runs a sanitized tool; a crash is a failure unless it is the HDF5 library's own"""
    e = dict(ENV)
    if env: e.update(env)
    try: r = run(argv, d, env=e, timeout=12)
    except Fail:
        for p in files:
            try: run(['h5json', p], d, timeout=5)
            except Fail: s.label('the HDF5 library hangs, too'); raise Discard()
        for p in files:      # as they were before
            if p[0] == 'k' and os.path.exists(d+'/'+p):
                with open(d+'/'+p, 'rb') as f, open(d+'/'+p[1:], 'wb') as o: o.write(f.read())
        # after the time it is asked for its stack
        e['ASAN_OPTIONS'] = e.get('ASAN_OPTIONS', '')+':handle_abort=1'
        r = run(['timeout', '-s', 'ABRT', '-k', '20', str(timeout)]+argv, d, env=e, timeout=timeout+60)
        if 'AddressSanitizer: ABRT' in r.err:
            fr = [x for x in frames(r.err) if 'libasan' not in x[1]]
            if fr and 'libhdf5' in fr[0][1]: s.label('the HDF5 library hangs'); raise Discard()
            raise Fail('hang', '%s: does not end within %d s, at %s' % (what, timeout, ' < '.join((x[0] or '?').split('(')[0] for x in fr[:6])))
        if r.rc == 124 or r.rc == -9: raise Fail('hang', '%s: does not end within %d s' % (what, timeout))
    bad = r.rc is None or r.rc < 0 or r.rc >= 126 or 'ERROR: AddressSanitizer' in r.err or 'runtime error:' in r.err or 'DEADLYSIGNAL' in r.err
    if bad:
        if inside_hdf5(r.err): s.label('crash inside the HDF5 library'); raise Discard()
        for p in files:
            q = run(['h5json', p], d, timeout=20)
            if q.rc < 0: s.label('the HDF5 library crashes, too'); raise Discard()
        m = re.search(r'ERROR: AddressSanitizer.*|.*runtime error:.*', r.err)
        fr = [x[0] or '?' for x in frames(r.err) if 'libasan' not in x[1]][:6]
        raise Fail('crash', '%s: exit %s, %s, %s' % (what, r.rc, m.group(0)[:200] if m else r.err[-300:], ' < '.join(x.split('(')[0] for x in fr)))
    return r

# ------------------------------------------------------------ good files
BASES = [
    'S.caption="plain"\nlocal b=gen_cylinder{R=0.5,N=6} S.body_list:insert(b) S.vort_list:append({1,1,0.5},{2,0,-0.5}) S.inf_vx="cos(t)" S.re=100',
    'local a=gen_cylinder{R=0.5,N=5} a:move_r{3,0} local b=gen_parallelogram{L=1,H=1,d=90,N=8} b.root=a b.label="box" b.slip=true b.spring_const={1,inf,2} S.body_list:insert(a) S.body_list:insert(b)\nfor i=1,40 do S.vort_list:append({i,0.1*i,0.01*i}) S.sink_list:append({-i,2,0.1}) end S.streak_source_list:append({1,2,3})',
    'S.caption=string.rep("x",300) for i=1,1500 do S.vort_list:append({math.sin(i)*3,math.cos(i*1.7)*3,0.001*i}) end S.gravity={1,2}',
    'local b=gen_cylinder{R=0.5,N=7} b.density=2 S.body_list:insert(b) S.inf_vx="1" S.re=100 S.dt=0.1 S.dt_save=0.1 S.finish=0.2 simulate()',
    'S.caption="empty"']
def base(s, d, name, k):
    body = BASES[k]
    if 'simulate' in body: body = 'S.caption="q" '+body
    with open(d+'/base.lua', 'w') as f: f.write(body+'\nS:save("%s")\n' % name)
    r = run(['vvflow', 'base.lua'], d, env=dict(LD_PRELOAD=os.path.join(pbt.BIN, 'faults.so'), FAULT_TIME='1500000000', TZ='UTC'))
    check(r.rc == 0 and os.path.exists(d+'/'+name), 'base', 'can not make a good file: %r', r)
    os.remove(d+'/base.lua')

NAMES = b'Header  ', b'Vortexes', b'Heat    ', b'StrkSrc ', b'Streak  ', b'BData   ', b'Body    '
def v13(s, bodies=None):
    """a file of the old format, what it holds, and the offsets of interest"""
    good = {}
    parts = []
    cap = s.pick(['', 'old', 'c'*64, 'with space'])
    times = [(s.range(-100, 100), s.range(1, 1000)) for _ in range(5)]
    sx, sy = s.pick(['', '1', 'cos(t)']), s.pick(['', '0.5*t'])
    re_, pr, ig, fin = [s.short(0.5, 100) for _ in range(4)]
    h = b'v: 1.3  ' + cap.encode().ljust(64, b'\0') + b''.join(struct.pack('<iI', *t) for t in times) + struct.pack('<dd', re_, pr) + struct.pack('<dd', 1.5, -2)
    for e in (sx, sy): h += struct.pack('<i', len(e)) + e.encode()
    h += struct.pack('<ddddq', ig, 0.25, -9.8, fin, 1400000000)
    parts.append((NAMES[0], h))
    lists = {}
    for n, key in ((1, 'vort'), (2, 'heat'), (3, 'ink_source'), (4, 'ink')):
        if s.flip(0.6):
            rows = [(s.short(-5, 5), s.short(-5, 5), s.short(-1, 1)) for _ in range(s.sized(0, 30))]
            lists[key] = rows
            parts.append((NAMES[n], struct.pack('<q', len(rows)) + b''.join(struct.pack('<ddd', *r) for r in rows)))
    nb = s.draw(3) if bodies is None else bodies
    bl = []
    for i in range(nb):
        n = s.range(3, 9)
        cx = 4.0*i
        import math
        pts = [(cx+math.cos(-2*math.pi*j/n), math.sin(-2*math.pi*j/n)) for j in range(n)]
        ex = [s.pick(['', '0', 'sin(t)']) for _ in range(3)]
        v = [s.short(-2, 2) for _ in range(30)]
        b = struct.pack('<6d', *v[:6])
        for e in ex: b += struct.pack('<i', len(e)) + e.encode()
        b += struct.pack('<6d', *v[6:12]) + struct.pack('<3d', 1, 2, 3) + struct.pack('<d', 1.25) + struct.pack('<9d', *v[12:21])
        parts.append((NAMES[5], b))
        sp = s.draw(n); slip = s.flip()
        bb = struct.pack('<q', n)
        for j in range(n):
            bc = ord('l') if slip else ord('n')
            if j == sp: bc = s.pick([ord('s'), ord('z'), ord('i')]) if False else bc
            bb += struct.pack('<dddqqdd', pts[j][0], pts[j][1], v[21]+j, bc, ord('n'), 0.0, v[22]-j)
        parts.append((NAMES[6], bb))
        bl.append((pts, slip, v))
    table, data, off = b'', b'', 1024
    for n, p in parts: table += struct.pack('<q', off)+n; data += p; off += len(p)
    table = table.ljust(1024, b'\0')
    offs = []; o = 1024
    for n, p in parts: offs.append((o, n, len(p))); o += len(p)
    want = dict(cap=cap, times=times, re=re_, pr=pr, fin=fin, ig=ig, sx=sx, sy=sy, lists=lists, bodies=bl)
    return table+data, want, offs

# ------------------------------------------------------------ damage
def hurt(s, b, hot=()):
    """a few changes of bytes; hot: offsets that matter"""
    b = bytearray(b)
    for _ in range(s.sized(1, 6)):
        if not b: break
        k = s.draw(9)
        at = s.pick(hot) + s.draw(16) if hot and s.flip() else s.draw(min(len(b), 4096)) if s.flip() else s.draw(len(b))
        at = min(at, len(b)-1)
        if k == 0: del b[at:]; s.label('cut')
        elif k == 1: b[at] ^= 1 << s.draw(8); s.label('a bit')
        elif k == 2: b[at] = s.pick([0, 1, 255, 128, 127, s.draw(256)]); s.label('a byte')
        elif k == 3: w = s.pick([b'\xff'*4, b'\xff'*8, b'\0'*8, struct.pack('<q', -1), struct.pack('<q', 1 << 62), struct.pack('<i', 1 << 30), struct.pack('<i', -2), struct.pack('<d', float('nan')), b'\x01\0\0\0\0\0\0\0']); b[at:at+len(w)] = w; s.label('a number')
        elif k == 4: n = s.range(1, 64); b[at:at] = bytes(s.draw(256) for _ in range(n)); s.label('inserted')
        elif k == 5: n = s.range(1, 200); del b[at:at+n]; s.label('removed')
        elif k == 6: n = s.range(1, 200); o = s.draw(len(b)); b[at:at+n] = b[o:o+n]; s.label('copied')
        elif k == 7: n = s.range(1, 64); b[at:at+n] = b'\0'*n; s.label('zeroed')
        else: b[at] = s.draw(256)
    return bytes(b)

ROOTA = ['caption', 'time', 'dt', 'dt_save', 'dt_streak', 'dt_profile', 're', 'pr', 'inf_marker', 'inf_speed_x', 'inf_speed_y', 'inf_circulation', 'gravity', 'time_to_finish', 'git_rev', 'git_info', 'git_diff', 'time_local']
BODYA = ['label', 'holder_position', 'delta_position', 'speed_x', 'speed_y', 'speed_o', 'force_o', 'speed_slae', 'speed_slae_prev', 'spring_const', 'spring_damping', 'density', 'force_hydro', 'force_holder', 'friction_prev', 'fdt_dead', 'g_dead', 'collision_min', 'collision_max', 'bounce', 'collision', 'root_body', 'simplified_dataset', 'general_slip', 'slip', 'special_segment_no', 'boundary_condition', 'heat_condition', 'general_heat_const', 'general_bc', 'heat_const', 'special_bc', 'special_bc_segment']
SETS = ['vort', 'heat', 'ink', 'ink_source', 'source', 'body00', 'body01', 'body02', 'body', 'bodyxx', 'friction_body00', 'friction_body01']
TYPES = ['f64', 'f64', 'f32', 'i32', 'u32', 'u8', 'i64', 'be64', 'vstr', 'vstr', 'fstr', 'enum', 'opaque', 'vlen', 'array', 'ref', '{x:f64,y:f64', '{x:f64,y:f64,o:f64', '{value:i32,timescale:u32', '{timescale:u32', '{y:f64', '{x:i32,y:f64,z:f64']
VALUES = ['0', '1', '-1', 'nan', 'inf', '2', '3', '1e300', '4294967296', '1000000', 'body00', 'body01', '/', '', 'cos(', 'x'*70, '108', '115', 'null']
def op(s):
    k = s.draw(12)
    if k <= 5:
        o = s.pick(['/', 'body00', 'body00', 'body01', 'vort'])
        n = s.pick(ROOTA if o == '/' else BODYA)
        if k == 0: return 'delattr\t%s\t%s' % (o, n)
        if k == 1 and o != '/': return 'attr\t%s\tsimplified_dataset\tu32\ts\t%d' % (o, s.draw(4))
        if k == 2 and o != '/': return 'attr\t%s\troot_body\tvstr\ts\t%s' % (o, s.pick(['body00', 'body01', 'body02', 'vort', '/', 'x']))
        if k == 3 and o != '/': return 'attr\t%s\tslip\tu32\t%s\t%d' % (o, s.pick(['s', 'n', '1', '5', '6', '8', '3,2', '0', '100000']), s.draw(3))
        if k == 4: return 'attr\t%s\t%s\t%s\ts\t%s' % (o, s.pick(['special_segment_no', 'boundary_condition', 'heat_condition', 'special_bc_segment']), s.pick(['i32', 'u32', 'f64']), s.pick(['-1', '0', '4', '5', '6', '7', '100', '1e9', '1e300', 'nan']))
        return 'attr\t%s\t%s\t%s\t%s\t%s' % (o, n, s.pick(TYPES), s.pick(['s', 's', 's', 'n', '1', '2', '3', '0', '2,2', '1000']), s.pick(VALUES))
    n = s.pick(SETS)
    if k <= 8:
        big = s.flip(0.15)
        dims = s.pick(['1000000000000,3', '1000000000,4', '4294967297,3', '9223372036854775807,3', '2000000,4', '4611686018427387904,4']) if big else s.pick(['s', 'n', '0', '3', '4', '0,3', '0,4', '2,3', '5,4', '3,4', '6,4', '1,4', '2,4', '7,1', '5,1', '6,1', '4,3', '3,2', '3,5', '2,3,1', '2,3,3', '70,3', '600,4'])
        return 'dset\t%s\t%s\t%s\t%s\t%s' % (n, s.pick(TYPES) if s.flip(0.4) else 'f64', dims, s.pick(['contig', 'chunk', 'compact', 'never']) if not big else 'never', s.pick(['-', '0', '1', 'nan', '1e300']))
    if k == 9: return 'dellink\t%s' % n
    return s.pick(['group\t%s' % n, 'soft\t%s\t%s' % (n, s.pick(['nowhere', 'vort', 'body00', n])), 'hard\t%s\t%s' % (n, s.pick(['vort', 'body00', 'body01'])), 'ext\t%s\tnofile.h5' % n, 'type\t%s' % n])

# ------------------------------------------------------------ snapshots
DRIVER = r'''
local function lists() return #S.body_list+#S.vort_list+#S.sink_list+#S.streak_source_list+#S.streak_domain_list end
for i=1,%d do
  S.vort_list:append({1,2,3})
  local ok,err=pcall(S.load,S,"d"..i..".h5")
  print(i,"load",ok,ok and "" or type(err)=="string" and #err>0 and "message" or "silent",lists())
  if ok then
    local t={S.caption,S.re,S.finish,tostring(S.time),tostring(S.gravity),tostring(S.inf_vx)}
    for j=1,#S.body_list do local b=S.body_list[j] t[#t+1]=b.label t[#t+1]=b:get_area()..b:get_slen()..b:get_moi_cofm()..tostring(b.slip) t[#t+1]=tostring(b.root) t[#t+1]=#b end
    local ok2,err2=pcall(S.save,S,"o"..i..".h5")
    print(i,"save",ok2,ok2 and "" or #err2>0 and "message" or "silent")
  end
  local ok,err=pcall(S.load,S,"good.h5")
  print(i,"good",ok,ok and "" or err,lists())
  local ok,err=pcall(S.save,S,"d"..i..".h5")
  print(i,"over",ok,ok and "" or err)
end
S:save("again.h5")
'''
def unlocal(j): j = json.loads(json.dumps(j)); [j['/'].pop(k, None) for k in ('time_local',)]; return j
def drive(s, d, n, texts):
    """loads the damaged files d1.h5 ... in turn, each followed by a good one"""
    with open(d+'/t.lua', 'w') as f: f.write(DRIVER % n)
    files = ['d%d.h5' % (i+1) for i in range(n)]
    keep = [open(d+'/'+f, 'rb').read() for f in files]
    for i, f in enumerate(files):
        with open(d+'/k'+f, 'wb') as o: o.write(keep[i])
    r = tool(s, ['vvflow', 't.lua'], d, 'loading', ['k'+f for f in files])
    check(r.rc == 0, 'script', 'the script fails: %r', r)
    out = [l.split('\t') for l in r.out.splitlines() if re.match(r'\d+\t', l)]
    got = {(int(l[0]), l[1]): l[2:] for l in out}
    res = []
    for i in range(1, n+1):
        g = got.get((i, 'load')); check(g, 'lost', 'nothing was said about file %d: %r', i, r)
        ok = g[0] == 'true'; res.append(ok); s.label('accepted' if ok else 'refused')
        check(ok or g[1] == 'message', 'silent', 'file %d is refused without a message: %r', i, r)
        check(ok or g[2] == '0', 'half-loaded', 'after file %d was refused %s things of it remain', i, g[2])
        if ok:
            v = got.get((i, 'save')); check(v and (v[0] == 'true' or v[1] == 'message'), 'silent', 'saving what was read from file %d: %r', i, v)
            if v[0] == 'true': s.label('saved again')
        v = got.get((i, 'good')); check(v and v[0] == 'true', 'good', 'after file %d a good one is not read: %r', i, v)
        v = got.get((i, 'over')); check(v and v[0] == 'true', 'over', 'file %d (%s) can not be replaced: %r', i, 'accepted' if ok else 'refused', v)
    ref = unlocal(h5(d+'/good2.h5'))
    for f in ['again.h5']+files: check(unlocal(h5(d+'/'+f)) == ref, 'changed', 'the good problem loaded after damaged ones is not the same any more (%s)', f)
    return res
def goods(s, d):
    base(s, d, 'good.h5', 1)
    with open(d+'/g.lua', 'w') as f: f.write('S:load("good.h5") S:save("good2.h5")')
    check(run(['vvflow', 'g.lua'], d).rc == 0, 'base', 'a good file is not read')

def bytes_(s):
    d = scratch(); goods(s, d)
    k = s.draw(len(BASES)); base(s, d, 'base.h5', k)
    b = open(d+'/base.h5', 'rb').read()
    hot = [m.start() for m in re.finditer(rb'TREE|HEAP|SNOD|GCOL|OHDR|FRHP|BTHD|' + b'|'.join(n.encode() for n in ('vort', 'body00', 'caption', 'label', 'slip', 'x\0\0\0')), b)]
    n = s.sized(1, 16); s.describe('%d damaged files of base %d' % (n, k)); s.nontrivial()
    for i in range(n):
        with open(d+'/d%d.h5' % (i+1), 'wb') as f: f.write(hurt(s, b, hot))
    drive(s, d, n, None)

def shapes(s):
    d = scratch(); goods(s, d)
    n = s.sized(1, 12); s.nontrivial(); k = s.pick([1, 1, 0, 3]); base(s, d, 'base.h5', k)
    s.describe('base %d' % k)
    b = open(d+'/base.h5', 'rb').read()
    for i in range(n):
        f = d+'/d%d.h5' % (i+1); open(f, 'wb').write(b)
        ops = [op(s) for _ in range(s.sized(1, 5))]
        s.describe(' | '.join(o.replace('\t', ' ') for o in ops))
        run(['h5damage', f], d, stdin='\n'.join(ops+['']).encode(), env=dict(LD_PRELOAD=os.path.join(pbt.BIN, 'faults.so'), FAULT_TIME='1500000000'))
    drive(s, d, n, None)

def old(s):
    """files of the old format: good ones load right, damaged ones are refused or load"""
    d = scratch(); goods(s, d)
    n = s.sized(1, 12); good = [s.flip(0.3) for _ in range(n)]; wants = []
    s.nontrivial(); s.describe('%d files, good: %s' % (n, good))
    for i in range(n):
        b, want, offs = v13(s); wants.append(want)
        cuts = 0
        if not good[i]:
            k = s.draw(4)
            if k == 0: b = b[:s.draw(len(b))]; s.label('cut')
            elif k == 1:
                o, nm, ln = s.pick(offs); b = bytearray(b); b[o:o+8] = struct.pack('<q', s.pick([-1, 1 << 40, 1 << 62, -(1 << 63), 1000, 4])); b = bytes(b); s.label('count of '+nm.decode().strip())
            else: b = hurt(s, b, [16*j for j in range(12)]+[o for o, _, _ in offs]+[1024+136])
        with open(d+'/d%d.h5' % (i+1), 'wb') as f: f.write(b)
    ok = drive(s, d, n, None)
    for i in range(n):
        if not good[i]: continue
        check(ok[i], 'old', 'a good file of the old format is refused (%d)', i+1)
        o = d+'/o%d.h5' % (i+1)
        check(os.path.exists(o), 'old', 'a good file of the old format can not be saved again (%d)', i+1)
        j, w = h5(o), wants[i]; a = j['/']
        check(a.get('caption', '') == w['cap'], 'old', 'caption %r instead of %r', a.get('caption'), w['cap'])
        for nm, t in zip(('time', 'dt', 'dt_save', 'dt_streak', 'dt_profile'), w['times']):
            g = a.get(nm) or dict(value=0, timescale=1); check(g['value']*t[1] == t[0]*g['timescale'], 'old', '%s is %r instead of %r', nm, a.get(nm), t)
        for nm, v in (('re', w['re']), ('pr', w['pr']), ('inf_circulation', w['ig']), ('time_to_finish', w['fin']), ('inf_speed_x', w['sx']), ('inf_speed_y', w['sy'])):
            check(nm not in a and not v or a.get(nm, '') == v, 'old', '%s is %r instead of %r', nm, a.get(nm), v)
        for key, rows in w['lists'].items():
            g = [list(r) for r in j.get(key, dict(data=[]))['data']]
            check(g == [list(r) for r in rows], 'old', 'list %s: %r instead of %r', key, g[:3], rows[:3])
        check(sorted(k for k in j if re.match(r'body\d+$', k)) == ['body%02d' % q for q in range(len(w['bodies']))], 'old', 'bodies %s', sorted(j))
        for q, (pts, slip, v) in enumerate(w['bodies']):
            b = j['body%02d' % q]
            check([tuple(r[:2]) for r in b['data']] == pts, 'old', 'corners of body %d', q)

def outside(s):
    """vvxtract and vvplot on damaged snapshots, archives and fields"""
    d = scratch(); s.nontrivial()
    k = s.draw(len(BASES)); base(s, d, 'base.h5', k)
    b = open(d+'/base.h5', 'rb').read()
    if s.flip(): b = hurt(s, b)
    elif s.flip(): b = hurt(s, v13(s)[0])
    open(d+'/x.h5', 'wb').write(b)
    if s.flip(0.6) and b[:4] == b'\x89HDF':
        ops = [op(s) for _ in range(s.sized(1, 5))]; s.describe(' | '.join(o.replace('\t', ' ') for o in ops))
        run(['h5damage', 'x.h5'], d, stdin='\n'.join(ops+['']).encode())
    argv = s.pick([['vvxtract', 'x.h5'], ['vvxtract', '--info', 'x.h5'], ['vvxtract', 'x.h5', 'vort'], ['vvxtract', 'x.h5', 'body00'], ['vvxtract', 'x.h5', s.pick(SETS)], ['vvxtract', 'x.h5', 'body00/'+s.pick(BODYA)],
        ['vvplot', '-x', '-2,2', '-y', '-1,1', '-s', '40x20', '-B', '-V', '--tar', 'x.h5', 'o.tar'], ['vvflow', 'x.h5']])
    if argv[0] == 'vvflow': argv = argv+[]; open(d+'/l.lua', 'w').write('S:load("x.h5") print(#S.vort_list)'); argv = ['vvflow', 'l.lua']
    s.describe(' '.join(argv))
    open(d+'/kx.h5', 'wb').write(open(d+'/x.h5', 'rb').read())
    r = tool(s, argv, d, ' '.join(argv), ['kx.h5'])
    check(r.rc == 0 or r.err.strip(), 'silent', '%s ends with %s and no message', argv, r.rc)
    s.label('accepted' if r.rc == 0 else 'refused')
    check(open(d+'/x.h5', 'rb').read() == open(d+'/kx.h5', 'rb').read(), 'input', '%s changes its input', argv)

def other(s):
    """archives of vvplot, field files, lists, bodies, binary lists"""
    d = scratch(); s.nontrivial()
    kind = s.pick(['tar', 'field', 'list', 'bin', 'body', 'body', 'script', 'expr'])
    base(s, d, 'base.h5', 0)
    if kind == 'tar':
        r = run(['vvplot', '-x', '-2,2', '-y', '-1,1', '-s', '40x20', '--res-lo', '4', '--res-hi', '4'] + s.pick([['-B'], ['-S'], ['-V', '-B'], ['-G']]) + ['--tar', 'base.h5', 'o.tar'], d)
        check(r.rc == 0, 'base', 'no archive: %r', r)
        b = hurt(s, open(d+'/o.tar', 'rb').read(), [0, 100, 124, 148, 156, 257, 512, 1024])
        open(d+'/x.tar', 'wb').write(b)
        os.makedirs(d+'/fake'); open(d+'/fake/gnuplot', 'w').write('#!/bin/sh\ncat > /dev/null\nexit 0\n'); os.chmod(d+'/fake/gnuplot', 0o755)
        r = tool(s, ['vvplot', 'x.tar', 'o.png'], d, 'drawing a damaged archive', env=dict(PATH=d+'/fake:'+ENV['PATH']))
        check(r.rc == 0 or r.err.strip(), 'silent', 'exit %s and no message', r.rc)
    elif kind == 'field':
        n, m = s.range(1, 6), s.range(1, 6)
        b = struct.pack('<f', n) + struct.pack('<%df' % n, *[0.5*i for i in range(n)])
        for j in range(m): b += struct.pack('<f', 0.5*j) + struct.pack('<%df' % n, *[i*j for i in range(n)])
        b = hurt(s, b, [0, 4, 4*(n+1)])
        open(d+'/f.bin', 'wb').write(b)
        r = tool(s, ['vvplot', '-x', '-2,2', '-y', '-1,1', '-s', '40x20', '--res-lo', '4', '--res-hi', '4', s.pick(['-S', '-Ux']), '--load-field', 'f.bin', '--tar', 'base.h5', 'o.tar'], d, 'reading a damaged field')
        check(r.rc == 0 or r.err.strip(), 'silent', 'exit %s and no message', r.rc)
    else:
        text = b''
        if kind in ('list', 'body'):
            for _ in range(s.sized(0, 12)): text += b'\t'.join(num(s.real(-5, 5)).encode() for _ in range(s.pick([2, 3, 3, 3, 4, 5]))) + s.pick([b'\n', b'\n', b'\r\n', b' \n', b''])
        if kind == 'bin': text = b''.join(struct.pack('<d', s.real(-5, 5)) for _ in range(3*s.sized(0, 12)))
        if kind == 'script': text = s.pick([b'S.caption="a"\nS.finish=0.5\n', b'local b=gen_cylinder{R=1,N=8}\nS.body_list:insert(b)\nprint(b:get_area())\n', b'for i=1,10 do S.vort_list:append({i,0,1}) end S:save("x.h5")\n'])
        if kind == 'expr': text = s.pick([b'cos(t)+1', b'1', b'sqrt(t)*(2-t)', b'-t^2', b'']); 
        if s.flip(0.2): text = bytes(s.draw(256) for _ in range(s.sized(0, 300)))
        else: text = hurt(s, text)
        if kind == 'script' and re.search(rb'while|repeat|for.*do|goto|until', text): text = text.replace(b'for', b'fxr')
        if kind == 'script' and re.search(rb'os\b|io\b|execute|remove|rename|popen', text): raise Discard()
        s.describe('%s %r' % (kind, text[:300]))
        open(d+'/f.txt', 'wb').write(text)
        script = dict(list='for _,l in ipairs{S.vort_list,S.sink_list} do local ok,e=pcall(l.load,l,"f.txt") print("R",ok,e) end',
            bin='local ok,e=pcall(S.vort_list.load_bin,S.vort_list,"f.txt") print("R",ok,e)',
            body='local ok,e=pcall(load_body,"f.txt") print("R",ok,ok and "" or e) if ok then local n=#e local t={pcall(e.get_area,e),pcall(e.get_cofm,e),pcall(e.move_o,e,1)} pcall(function() e.special_segment=3 end) local ok=pcall(function() S.body_list:insert(e) S:save("y.h5") end) print(n,ok) end',
            expr='local ok,e=pcall(function() S.inf_vx=%s end) print("R",ok,e) local ok,e=pcall(function() return S.inf_vx(1) end) print(ok)' % lua_str(text), script='').get(kind)
        if kind == 'script': argv = ['vvflow', 'f.txt']
        else: open(d+'/t.lua', 'w').write(script+'\nprint("END")\n'); argv = ['vvflow', 't.lua']
        r = tool(s, argv, d, kind)
        if kind != 'script':
            check(r.rc == 0 and r.out.rstrip().endswith('END'), 'ended', '%s: the script does not reach its end: %r', kind, r)
            for l in r.out.splitlines():
                if l.startswith('R\tfalse'): check(len(l) > 9, 'silent', '%s is refused without a message: %r', kind, l)
        else: check(r.rc == 0 or r.err.strip(), 'silent', 'exit %s and no message', r.rc)

def streams(b):
    """the packed tables within a snapshot: (offset, packed length, contents)"""
    out = []; i = b.find(b'\x78')
    while i >= 0:
        if i+2 <= len(b) and (b[i]*256+b[i+1]) % 31 == 0:
            z = zlib.decompressobj()
            try: x = z.decompress(b[i:])
            except zlib.error: x = b''
            if z.eof and len(x) >= 24 and len(x) % 8 == 0: out.append((i, len(b)-i-len(z.unused_data), x))
        i = b.find(b'\x78', i+1)
    return out
def packed(s):
    """damage within a packed table is noticed: its checksum does not fit any more"""
    d = scratch(); base(s, d, 'good.h5', s.pick([1, 2, 3])); b = open(d+'/good.h5', 'rb').read(); l = streams(b)
    check(l, 'base', 'no packed tables in a snapshot')
    at, n, x = s.pick(l); c = bytearray(b); k = s.draw(4); o = s.draw(n); s.nontrivial()
    if k == 0: c[at+o] ^= 1 << s.draw(8)
    elif k == 1: c[at+o] = s.draw(256)
    elif k == 2: m = s.range(1, n-o); c[at+o:at+o+m] = b'\0'*m
    else: m = s.range(1, 8); q = s.draw(n); w = bytes(c[at+o:at+min(o+m, n)]); c[at+q:at+min(q+len(w), n)] = w[:n-q]
    check(len(c) == len(b), 'base', 'harness')
    z = zlib.decompressobj()
    try: y = z.decompress(bytes(c[at:at+n])); good = z.eof and y == x
    except zlib.error: good = False
    s.describe('stream of %d bytes for %d at %d: way %d at %d' % (n, len(x), at, k, o)); s.label('harmless' if good else 'damaged')
    open(d+'/c.h5', 'wb').write(c)
    names = [q for q in h5(d+'/good.h5') if q != '/' and not q.endswith('/')]
    open(d+'/s.lua', 'w').write('S:load("good.h5") S.finish=-1 S.time=0 S:save("good.h5") S:load("c.h5") print(#S.vort_list+#S.sink_list)')
    w = s.pick(['script', 'info', 'tables', 'picture'])
    a = dict(script=['vvflow', 's.lua'], info=['vvxtract', 'c.h5'], tables=['vvxtract', 'c.h5']+names, picture=['vvplot', '--tar', '-B', '-x', '-1,1', '-y', '-1,1', 'c.h5', 'o.tar'])[w]
    s.label(w); r = tool(s, a, d, w)
    if good: check(r.rc == 0, 'refused', '%s: %r', w, r)
    else:
        check(r.rc > 0, 'accepted', '%s reads a damaged table: %r', w, r); check(r.err.strip(), 'silent', '%s: %r', w, r)

def full(s):
    """writes that fail, at any point of a save, are reported"""
    d = scratch(); s.nontrivial()
    k = s.draw(4); k = [0, 1, 2, 4][k]; base(s, d, 'base.h5', k)
    n = s.range(1, 60)
    s.describe('base %d, writes fail from the %d-th on' % (k, n))
    with open(d+'/t.lua', 'w') as f: f.write('S:load("base.h5") local ok,e=pcall(S.save,S,"o.h5") print("R",ok,e) print("END")')
    e = dict(LD_PRELOAD=os.path.join(pbt.BIN, 'faults.so'), FAULT_ENOSPC=str(n))
    r = run(['vvflow', 't.lua'], d, env=e)
    check('END' in r.out, 'crash', 'saving with a full disk: %r', r)
    if r.rc < 0: s.label('the HDF5 library crashes at the exit')     # in H5_term_library, after the file could not be closed
    if 'R\ttrue' in r.out:
        s.label('saved in fewer writes')
        check(unlocal(h5(d+'/o.h5')) == unlocal(h5(d+'/base.h5')), 'lost', 'a save reported as good is not: write %d', n)
    else:
        s.label('save fails')
        check(re.search(r'R\tfalse\t\S', r.out), 'silent', 'no message: %r', r)

main('C23', [Sub('bytes', 120, 4000, bytes_), Sub('shapes', 120, 4000, shapes), Sub('old', 120, 4000, old), Sub('outside', 240, 6000, outside), Sub('other', 400, 12000, other), Sub('packed', 160, 4000, packed), Sub('full', 60, 1000, full)])
