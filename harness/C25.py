"""vvawk.*: statistics of columns, against plain arithmetic."""
import math
import pbt
from pbt import Sub, main, check, run, num, scratch
EPS = 2.3e-16

def table(s, maxrows=60):
    n = s.sized(0, maxrows); m = s.range(2, 6)
    kind = s.pick(['plain', 'plain', 'wave', 'few', 'const', 'offset', 'wide', 'walk'])
    s.label(kind)
    x = []; t = s.pick([0, 0, -3, 100]); dx = s.pick([1, 0.5, 0.05])
    for i in range(n): x.append(round(t, 6)); t += dx*(s.pick([1, 1, 1, 2]) if s.flip(0.2) else 1)
    off = s.pick([0, 0, 5, -1000]) if kind in ('offset', 'const') else 0; w = s.short(0.2, 1.5); last = [0.0]*m
    rows = []
    for i in range(n):
        r = [x[i]]
        for c in range(1, m):
            if kind == 'wave': v = round(math.sin(w*i+c)*(1+c), 6)
            elif kind == 'few': v = s.range(-2, 2)
            elif kind == 'const': v = off+c*0.1
            elif kind == 'wide': v = s.real(-1, 1)*10.0**s.range(-8, 8)
            elif kind == 'walk': last[c] = round(last[c]+s.short(-1, 1), 4); v = last[c]
            else: v = off+s.short(-9, 9, 3)
            r.append(v)
        rows.append(r)
    f = s.pick(['%+.6le'.replace('l', ''), '%r', '%.10g'])
    def cell(v): return f % v
    text = [[cell(v) for v in r] for r in rows]
    rows = [[float(c) for c in r] for r in text]
    return rows, text, n, m

def layout(s, text, m):
    sep = s.pick(['\t', '\t', ' ', '   ', '\t ']); end = s.pick(['', '\t', ' '])
    lead = s.pick(['', '', ' '])
    lines = [lead+sep.join(r)+end for r in text]
    head = ['#time'+''.join('\tbody%02d/f[%d]' % (s.draw(3), c) for c in range(1, m))+'\t']
    notes = 0
    if s.flip(0.7): lines[:0] = head; notes += 1; s.label('header')
    if s.flip(0.3): lines[:0] = s.pick([['# made by hand'], ['#'], ['  # 1 2 3 4 5'], ['\t#'], [' #5\t7\t9\t1\t3\t4'], ['#5\t7\t9\t1\t3\t4']]); notes += 1
    if s.flip(0.3) and len(lines) > 2: lines.insert(s.range(1, len(lines)-1), s.pick(head+['# 7 7 7 7 7', '  # 50 60 70 80', '\t#3\t-4\t5\t6'])); notes += 1; s.label('comment in the middle')
    return lines

def go(s, d, name, lines, opts):
    """runs the tool on files or the standard input; how must not matter"""
    a = ['vvawk.'+name]
    for k, v in s.shuffle(sorted(opts.items())): a += ['-v', '%s=%s' % (k, v)]
    data = ''.join(l+'\n' for l in lines)
    k = s.draw(3); inp = None
    if k == 0:
        open(d+'/t.txt', 'w').write(data); a.append('t.txt')
    elif k == 1: a.append('-'); inp = data.encode()
    else:
        c = s.draw(len(lines)+1)
        for n, part in (('a.txt', lines[:c]), ('b.txt', lines[c:])): open(d+'/'+n, 'w').write(''.join(l+'\n' for l in part))
        a += ['a.txt', 'b.txt']
    s.describe('%s  [%s]' % (' '.join(a), ' / '.join(lines[:12])))
    r = run(a, d, stdin=inp)
    check(r.rc == 0 and not r.err, 'fails', '%s: %r', ' '.join(a), r)
    return r.out

def setup(s, maxrows=60, limits=True):
    d = scratch(); rows, text, n, m = table(s, maxrows)
    s.nontrivial(n > 2)
    col = s.range(2, m); opts = {}
    if col != 2 or s.flip(): opts['col'] = col
    lo, hi = -math.inf, math.inf
    if limits:
        xs = sorted(set(r[0] for r in rows)); cuts = [0.0] if not xs else [xs[0]-1]+[round((a+b)/2, 7) for a, b in zip(xs, xs[1:])]+[xs[-1]+1]
        if 0.0 not in xs: cuts += [0.0]*3
        for k in ('xmin', 'xmax'):
            if s.flip():
                v = s.pick(cuts); opts[k] = s.pick([num(v), '%.9f' % v, '%+.9e' % v]) if v else s.pick(['0', '0.0', '-0', '0e0'])
                if k == 'xmin': lo = float(opts[k])
                else: hi = float(opts[k])
                if not v: s.label('limit of zero')
    if limits and rows and min(abs(r[0]-b) for r in rows for b in (lo, hi)) < 1e-8: raise pbt.Discard()
    return d, rows, text, n, m, col-1, lo, hi, opts

def number(out, what):
    l = out.split('\n')
    check(len(l) == 2 and not l[1], 'output', '%s prints %r', what, out)
    try: v = float(l[0])
    except ValueError: v = math.nan
    check(v == v, 'output', '%s prints %r', what, out)
    return v

def avg(s):
    d, rows, text, n, m, c, lo, hi, o = setup(s)
    v = number(go(s, d, 'avg', layout(s, text, m), o), 'avg')
    y = [r[c] for r in rows if lo < r[0] < hi]; s.label('empty' if not y else 'some')
    w = math.fsum(y)/len(y) if y else 0
    check(abs(v-w) <= 6e-7*abs(w) + n*EPS*max(map(abs, y), default=0), 'avg', 'mean of %d values is %.9g, not %.9g', len(y), w, v)

def sd(s):
    d, rows, text, n, m, c, lo, hi, o = setup(s)
    v = number(go(s, d, 'sd', layout(s, text, m), o), 'sd')
    y = [r[c] for r in rows if lo < r[0] < hi]
    if y:
        e = math.fsum(y)/len(y); w = math.fsum((a-e)**2 for a in y)/len(y)
    else: w = 0
    tol = 8*(n+2)*EPS*max((a*a for a in y), default=0)
    check(v >= 0 and abs(v*v-w) <= 2e-6*w + tol, 'sd', 'standard deviation of %d values is %.9g, not %.9g', len(y), math.sqrt(w), v)

def body(s, d, name, lines, o, drop):
    """lines of the output: comments as they were, the other columns as they were"""
    out = go(s, d, name, lines, o).split('\n')
    check(out[-1] == '', 'output', '%s: no end of line', name); out.pop()
    notes = [l for l in lines if l.lstrip().startswith('#')]; got = [l for l in out if l.lstrip().startswith('#')]
    check(got == notes, 'header', '%s: comments %r instead of %r', name, got, notes)
    return [l.split() for l in out if not l.lstrip().startswith('#')]
def columns(name, got, text, c):
    check(len(got) == len(text), 'rows', '%s: %d rows instead of %d', name, len(got), len(text))
    for g, t in zip(got, text):
        check(len(g) == len(t) and g[:c]+g[c+1:] == t[:c]+t[c+1:], 'columns', '%s: row %r became %r', name, t, g)
    return [float(g[c]) for g in got]

def drv(s):
    d, rows, text, n, m, c, lo, hi, o = setup(s, limits=False)
    div = 1
    if s.flip(): o['div'] = num(s.pick([0.05, 2, -1, 1e-3, 10])); div = float(o['div'])
    got = columns('drv', body(s, d, 'drv', layout(s, text, m), o, 1), text[1:], c)
    for i, v in enumerate(got):
        w = (rows[i+1][c]-rows[i][c])/div
        check(abs(v-w) <= 6e-7*abs(w) + 2*EPS*(abs(rows[i][c])+abs(rows[i+1][c]))/abs(div), 'drv', 'row %d: (%r - %r)/%r is not %r', i+1, rows[i+1][c], rows[i][c], div, v)

def mavg(s):
    d, rows, text, n, m, c, lo, hi, o = setup(s, limits=False)
    span = 20
    if s.flip(0.8): span = s.range(1, 12); o['span'] = span
    got = columns('mavg', body(s, d, 'mavg', layout(s, text, m), o, 0), text, c)
    for i, v in enumerate(got):
        y = [r[c] for r in rows[max(0, i+1-span):i+1]]; w = math.fsum(y)/len(y)
        big = max(abs(r[c]) for r in rows[:i+1])
        check(abs(v-w) <= 6e-7*abs(w) + 4*n*EPS*big*span, 'mavg', 'row %d: the mean of the last %d values is %.9g, not %r', i, len(y), w, v)

def ampl(s):
    d, rows, text, n, m, c, lo, hi, o = setup(s)
    span = 5
    if s.flip(0.6): span = s.range(1, 9); o['span'] = span
    s.label('odd span' if span % 2 else 'even span')
    v = number(go(s, d, 'ampl', layout(s, text, m), o), 'ampl')
    top, low = [], []
    for i in range(span-1, n):
        j = i-span//2; w = [r[c] for r in rows[i-span+1:i+1]]
        if span % 2 == 0 and False: pass
        x, y = rows[j][0], rows[j][c]
        if span//2 == span: continue
        if x < lo: continue
        if x > hi: break
        if y == min(w): low.append(y)
        if y == max(w): top.append(y)
    a = math.fsum(top)/len(top) if top else 0; b = math.fsum(low)/len(low) if low else 0
    s.label('extrema' if top and low else 'none')
    check(abs(v-(a-b)) <= 6e-7*abs(a-b) + 4*n*EPS*max([abs(r[c]) for r in rows], default=0), 'ampl', 'mean of %d maxima %.9g less mean of %d minima %.9g is not %r', len(top), a, len(low), b, v)

def zeros(s):
    d, rows, text, n, m, c, lo, hi, o = setup(s)
    out = go(s, d, 'zeros', layout(s, text, m), o)
    got = [float(l) for l in out.splitlines()]
    want = []     # (least, greatest, may be missing)
    for i, r in enumerate(rows):
        x, y = r[0], r[c]
        if y == 0:
            if lo < x < hi: want.append((x, x, False))
        elif i and rows[i-1][c]*y < 0 or i and (rows[i-1][c] < 0 < y or y < 0 < rows[i-1][c]):
            xp, yp = rows[i-1][0], rows[i-1][c]
            z = (x*abs(yp)+xp*abs(y))/(abs(yp)+abs(y))
            if lo < xp and x < hi: want.append((z, z, False))
            elif lo < x and xp < hi: want.append((z, z, True)); s.label('crossing at a limit')
    s.label('zeros' if want else 'none')
    k = 0
    big = max([abs(r[0]) for r in rows], default=0)
    for a, b, opt in want:
        hit = k < len(got) and abs(got[k]-a) <= 6e-7*abs(a) + 1e-12*big
        if hit: k += 1
        else: check(opt, 'zeros', 'the zero at %.9g is missing from %r', a, got)
    check(k == len(got), 'zeros', '%r is no zero; expected %r', got[k:k+1], [a for a, _, _ in want])

main('C25', [Sub('avg', 300, 10000, avg), Sub('sd', 300, 10000, sd), Sub('drv', 250, 8000, drv), Sub('mavg', 250, 8000, mavg), Sub('ampl', 400, 12000, ampl), Sub('zeros', 300, 10000, zeros)])
