"""C29: particle lists and bodies read from text and binary files."""
import os, sys, math, struct
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbt
from pbt import check, run, num, lua_str

LISTS = ['vort_list', 'sink_list', 'streak_source_list', 'streak_domain_list']
PRELUDE = '''
local function show(x) io.write(string.format("%.17g ", x)) end
local function dump(l) io.write(#l, ": ") for _,o in ipairs(l:totable()) do show(o.r.x) show(o.r.y) show(o.g) end io.write("\\n") end
local function try(f) local ok,e=pcall(f) if ok then print("ok") else print("refused "..tostring(e):gsub("\\n"," ")) end end
'''
def number(s):
    """(text, value)"""
    k = s.draw(8)
    if k < 3: v = s.fine(-10, 10); t = repr(v)
    elif k == 3: v = s.range(-99, 99); t = s.pick(['%d', '%+d', '%d.', '%d.0', '%03d']) % v; v = float(t)
    elif k == 4: t = s.pick(['1e%d', '-2.5E%+d', '.5e%d', '123e%d']) % s.range(-30, 30); v = float(t)
    elif k == 5: t = s.pick(['inf', '-inf', 'nan', 'INF', 'infinity', '1e999', '-0', '1e-320']); v = float(t)
    elif k == 6: v = s.fine(-1, 1); t = '%+.6e' % v; v = float(t)
    else: v = s.fine(-1, 1)*2.0**s.range(-900, 900); t = v.hex() if s.flip() else repr(v)
    return t, float(v)
def gap(s): return s.pick([' ', '\t', '  ', ' \t ', ' '*150]) if s.draw(12) == 0 else s.pick([' ', '\t'])
BAD = ['x', '#', '# 1 2 3', '--', '1,2,3', 'txt txt txt', ';', '*', '(1)', '\x01']
def same(a, b): return a == b or (a != a and b != b)
def rows_of(line):
    h, _, r = line.partition(': '); v = [float(x.replace('-nan', 'nan')) for x in r.split()]
    check(len(v) == 3*int(h), 'dump', 'dump %r', line[:200])
    return [v[i:i+3] for i in range(0, len(v), 3)]
def compare(have, want, what):
    check(len(have) == len(want), 'count', '%s: %d rows instead of %d', what, len(have), len(want))
    for i, (a, b) in enumerate(zip(have, want)): check(all(same(x, y) for x, y in zip(a, b)), 'value', '%s: row %d is %s instead of %s', what, i+1, a, b)

def lists(s):
    d = pbt.scratch(); model = dict((l, []) for l in LISTS); o = [PRELUDE]; want = []; nf = 0
    for _ in range(s.range(1, 8)):
        l = s.pick(LISTS); k = s.draw(6); nf += 1; f = 'f%d.txt' % nf
        if k == 0:
            v = [s.fine(-1, 1) for _ in range(3)]; o.append('S.%s:append({%s})' % (l, ','.join(map(num, v)))); model[l].append(v); s.describe('append %s; ' % l)
        elif k <= 2:
            n = s.sized(0, 200 if s.flip(0.1) else 12); rows = []; b = ''
            bad = s.range(0, n) if s.flip(0.3) else n+1; nl = s.pick(['\n', '\n', '\r\n', '\n\n']); what = ''
            for i in range(n):
                if i == bad: what = s.pick(BAD); b += what+nl
                c = [number(s) for _ in range(3)]; b += (gap(s) if s.flip(0.2) else '')+c[0][0]+gap(s)+c[1][0]+gap(s)+c[2][0]+(gap(s) if s.flip(0.2) else '')+nl
                if i < bad: rows.append([x[1] for x in c])
            if bad == n: what = s.pick(BAD+['1 2', '1']); b += what
            if b.endswith('\n') and s.flip(0.2): b = b.rstrip('\r\n')
            with open(d+'/'+f, 'w', newline='') as fo: fo.write(b)
            o.append('try(function() S.%s:load(%s) end)' % (l, lua_str(f))); want.append('ok'); model[l] += rows; s.describe('%s:load %d rows%s; ' % (l, n, ', %r at row %d' % (what, bad) if what else '')); s.nontrivial(n > 1); s.label('text, not a number inside' if what else 'text')
        elif k <= 4:
            n = s.sized(0, 300 if s.flip(0.1) else 12); v = [[number(s)[1] for _ in range(3)] for _ in range(n)]; extra = s.pick([0, 0, 1, 8, 16, 23])
            with open(d+'/'+f, 'wb') as fo: fo.write(b''.join(struct.pack('<3d', *r) for r in v)+b'\x55'*extra)
            o.append('try(function() S.%s:load_bin(%s) end)' % (l, lua_str(f))); want.append('ok'); model[l] += v; s.describe('%s:load_bin %d rows and %d bytes; ' % (l, n, extra)); s.nontrivial(n > 1); s.label('binary')
        else:
            f = s.pick(['missing.txt', 'dir', '', 'dir/none']); os.makedirs(d+'/dir', exist_ok=True); m = s.pick(['load', 'load_bin'])
            o.append('try(function() S.%s:%s(%s) end)' % (l, m, lua_str(f))); want.append('refused'); s.describe('%s:%s %r; ' % (l, m, f)); s.label('unreadable')
    o += ['dump(S.%s)' % l for l in LISTS]
    with open(d+'/s.lua', 'w') as fo: fo.write('\n'.join(o)+'\n')
    r = run(['vvflow', 's.lua'], d); check(r.rc == 0 and r.err == '', 'exit', '%r', r)
    out = r.out.splitlines(); check(len(out) == len(want)+4, 'out', '%r', r)
    for a, b in zip(out, want): check(a.split(' ')[0] == b and (b == 'ok' or 'can not load' in a), 'outcome', '%r, expected %s', a, b)
    for l, line in zip(LISTS, out[len(want):]): compare(rows_of(line), model[l], l)

def bodies(s):
    """a body file; slip of each corner is read back from the saved snapshot"""
    d = pbt.scratch(); n = s.sized(1, 200 if s.flip(0.1) else 10); b = ''; rows = []; slip = []; bad = None
    badrow = s.range(0, n-1) if s.flip(0.3) else -1; nl = s.pick(['\n', '\n', '\r\n']); cols = s.draw(4)
    for i in range(n):
        a = 2*math.pi*i/n; x, y = [float('%.6f' % v) for v in (math.cos(a)+s.fine(-.2, .2), math.sin(a)+s.fine(-.2, .2))]
        has = {0: False, 1: True, 2: s.flip(), 3: True}[cols]; v = s.draw(2) if has else 0
        line = (gap(s) if s.flip(0.2) else '')+s.pick(['%.6f', '%.10e', '%r'])%x+gap(s)+'%r' % y+(gap(s)+'%d' % v if has else '')+(gap(s)+'7.5 extra' if cols == 3 and s.flip(0.3) else '')+(gap(s) if s.flip(0.1) else '')
        if i == badrow: bad = s.pick(['', '1', 'x y', '# comment', '1,2', '--', '  ', '1 a 1']); line = bad
        b += line+nl; rows.append((x, y)); slip.append(v)
    if s.flip(0.2) and bad is None: b = b[:-len(nl)]
    with open(d+'/b.txt', 'w', newline='') as fo: fo.write(b)
    missing = s.flip(0.1); f = s.pick(['none', '', 'dir']) if missing else 'b.txt'; os.makedirs(d+'/dir')
    s.describe('%d corners, columns kind %d, %s%s' % (n, cols, 'row %d %r' % (badrow, bad) if bad is not None else 'good', ', asked for %r' % f if missing else '')); s.nontrivial(n > 2); s.label('malformed' if bad is not None else 'good')
    with open(d+'/s.lua', 'w') as fo: fo.write(PRELUDE+'''
local b; try(function() b=load_body(%s) end)
if b then io.write(#b,": ") for _,p in ipairs(b:totable()) do show(p.x) show(p.y) show(0) end print() S.body_list:insert(b) S:save("o.h5") end
''' % lua_str(f))
    r = run(['vvflow', 's.lua'], d); check(r.rc == 0 and r.err == '', 'exit', '%r', r); out = r.out.splitlines()
    if bad is not None or missing: check(len(out) == 1 and out[0].startswith('refused') and 'can not load' in out[0], 'outcome', '%r, expected a refusal', r); return
    check(out and out[0] == 'ok' and len(out) == 2, 'outcome', '%r', r)
    compare(rows_of(out[1]), [[x, y, 0] for x, y in rows], 'body')
    h = pbt.h5(d+'/o.h5')['body00']; a = h['attrs']; got = [a['general_slip']]*n if 'general_slip' in a else a['slip']
    check(got == slip, 'slip', 'slip of the corners %s instead of %s', got, slip)
    check([q[:2] for q in h['data']] == [list(q) for q in rows], 'value', 'corners in the snapshot')

if __name__ == '__main__':
    sys.exit(pbt.main('C29', [pbt.Sub('lists', 2000, 40000, lists), pbt.Sub('bodies', 2000, 40000, bodies)]))
