"""gpquick and vvencode: what reaches gnuplot and ffmpeg, and the real pictures."""
import os, re, struct
import pbt
from pbt import Sub, main, check, run, num, scratch
NAMES = ['o.png', 'a b.png', "it's.png", 'x"y.png', 'sub/o.png', '{}.png', '%d.png', 'пр.png', "'q''q.png", 'a`b.png', 'b\\n.png', '-.png', '$HOME.png', 'a;b.png', ' o.png', 'o.png ', 'o', '\tt.png', 'a\\', '#o.png', 'o.PNG', '~b.png']

def name(s):
    if s.flip(0.6): return s.pick(NAMES)
    n = ''.join(s.pick([' ', "'", '"', '\\', '`', '$', 'a', 'b', '%', '{', '}', ';', '#', '\t', '*', '?', '-', '.', 'é', '<']) for _ in range(s.range(1, 6)))
    s.label('odd name')
    return 'o' if n in ('.', '..') else n

def table(s):
    n = s.sized(3, 30); m = s.range(2, 4)
    rows = [[round(0.5*i, 3)]+[s.short(-9, 9) for _ in range(m-1)] for i in range(n)]
    rows[0][1:] = [-9.5]*(m-1); rows[-1][1:] = [9.25]*(m-1)
    t = ''.join('\t'.join(num(v) for v in r)+'\n' for r in rows)
    return ('#time\tF\n' if s.flip() else '')+t, n, m

class O: pass
def options(s, m):
    o = O(); o.x = o.y = None; o.size = (640, 480); o.using = '1:2'; o.l = o.p = o.square = False; o.grid = ''; g = []
    if s.flip(): o.using = s.pick(['1:%d' % s.range(2, m), '2:1', '1:($2*2)', '0:2', '(2*$1):%d' % m, '($1-1):(-$2)']); g.append([s.pick(['-u', '--using']), o.using])
    if s.flip(0.4): o.l = True; g.append([s.pick(['-l', '--lines'])])
    if s.flip(0.4): o.p = True; g.append([s.pick(['-p', '--points'])])
    if s.flip(0.2): o.square = True; g.append(['--square'])
    for k in 'xy':
        if s.flip(0.4):
            lo = s.short(-12, 3); hi = round(lo+s.short(1, 15), 2)
            if s.flip(0.3): lo, hi = s.pick([(0.0, s.short(1, 12)), (s.short(-12, -1), 0.0)])
            if k == 'y' and o.x and s.flip(0.3): lo, hi = o.x; s.label('equal ranges')
            setattr(o, k, (lo, hi)); g.append(['-'+k, num(lo), num(hi)])
    if s.flip(0.3): o.grid = s.pick(['x', 'y', 'xy']); g.append(['--grid', o.grid])
    if s.flip(0.5): o.size = (s.range(100, 400), s.range(100, 300)); g.append(['--size', str(o.size[0]), str(o.size[1])])
    return o, g
def flat(g): return [w for x in g for w in x]

def picture(s):
    """the picture is the one of an independently written script"""
    d = scratch(); data, n, m = table(s); o, g = options(s, m)
    out = name(s); os.makedirs(d+'/sub'); g.append([s.pick(['-o', '--output']), out] if out[0] != '-' else ['--output='+out])
    if s.flip(0.2): g.append(['--dump-script']); s.label('dump')
    a = ['gpquick']+flat(s.shuffle(g)); s.describe(' '.join(a)); s.nontrivial()
    if s.flip(0.2): open(d+'/'+out, 'w').write('older'*10000)
    r = run(a, d, stdin=data.encode())
    if r.rc:        # gnuplot has nothing to draw within these ranges
        q = run(['gnuplot', '-e', "set terminal pngcairo; set output 'x'; %s %s plot '-' using %s" % ('set xrange [%r:%r];' % o.x if o.x else '', 'set yrange [%r:%r];' % o.y if o.y else '', o.using)], d, stdin=data.encode())
        check(q.rc == r.rc, 'fails', '%r', r); raise pbt.Discard()
    left = sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs)
    check(left == [out], 'target', 'files %r instead of %r', left, out)
    got = open(d+'/'+out, 'rb').read()
    check(got[:4] == b'\x89PNG' and struct.unpack('>II', got[16:24]) == o.size, 'size', 'picture of size %r instead of %r', got[16:24], o.size)
    open(d+'/data.txt', 'w').write(data)
    lines = ['set terminal pngcairo enhanced size %d,%d' % o.size, 'set output "ref.png"', 'unset key']
    if o.square: lines.append('set size ratio -1')
    if o.x: lines.append('set xrange [%r:%r]' % o.x)
    if o.y: lines.append('set yrange [%r:%r]' % o.y)
    styles = ['linespoints pt 7 lt 1'] if o.l and o.p else ['points pt 7', 'linespoints lt 0 pt 7'] if o.p else ['lines lt 1', 'linespoints lt 1 pt 0']
    grids = {'': [''], 'xy': ['set grid xtics ytics'], 'x': ['set grid ytics', 'set grid xtics'], 'y': ['set grid xtics', 'set grid ytics']}[o.grid]
    refs = []
    for gr in grids:
        for st in styles:
            open(d+'/ref.gp', 'w').write('\n'.join(lines+[gr, "plot 'data.txt' using %s with %s lc rgb 'black'" % (o.using, st)])+'\n')
            q = run(['gnuplot', 'ref.gp'], d); refs.append(open(d+'/ref.png', 'rb').read())
    check(got in refs, 'picture', 'the picture is not that of the data (%s)', st)
    if o.grid in ('x', 'y'):      # the two are different
        b = ['gpquick'] + [('y' if o.grid == 'x' else 'x') if i and a[i-1] == '--grid' else w for i, w in enumerate(a)][1:]
        run(b, d, stdin=data.encode()); check(open(d+'/'+out, 'rb').read() in refs and (open(d+'/'+out, 'rb').read() != got), 'grid', '--grid x and --grid y are the same')

FAKE = '''#!/bin/sh
d=$(dirname "$0")
: > "$d/args"
for a in "$@"; do printf '%s\\0' "$a" >> "$d/args"; done
cat > "$d/stdin"
exit $(cat "$d/status")
'''
def fake(d, name, status=0, text=FAKE):
    os.makedirs(d+'/fake', exist_ok=True); p = d+'/fake/'+name
    open(p, 'w').write(text); os.chmod(p, 0o755); open(d+'/fake/status', 'w').write(str(status))
    return dict(PATH=d+'/fake:'+pbt.BIN+':'+os.path.join(pbt.build.R, 'utils/scripts')+':'+os.environ.get('PATH', ''))

def script(s):
    """without -o the script is printed and gives the same picture; the status of gnuplot is passed on, its input is untouched"""
    d = scratch(); data, n, m = table(s); o, g = options(s, m); s.nontrivial()
    st = s.pick([0, 0, 1, 3, 77]); env = fake(d, 'gnuplot', st)
    out = name(s); a = ['gpquick']+flat(s.shuffle(g)); s.describe(' '.join(a))
    q = run(a, d, env=env, stdin=data.encode())
    check(q.rc == 0 and not os.path.exists(d+'/fake/args'), 'script', 'without -o gnuplot should not run: %r', q)
    ao = a+(['-o', out] if out[0] != '-' else ['--output='+out]); dump = s.flip(); ao += ['--dump-script'] if dump else []
    r = run(ao, d, env=env, stdin=data.encode())
    check(r.rc == st, 'status', 'gnuplot ended with %d, gpquick with %r', st, r)
    args = open(d+'/fake/args', 'rb').read().decode('utf-8').split('\0')
    check(args[0] == '-e' and len(args) == 3, 'command', 'gnuplot is run with %r', args)
    check(open(d+'/fake/stdin').read() == data, 'input', 'the data does not reach gnuplot')
    check((r.out.strip() == args[1].strip()) if dump else not r.out, 'dump', 'the printed script is not the one used: %r', r.out)
    # the printed script draws the same picture
    open(d+'/p.gp', 'w').write(q.out); os.makedirs(d+'/1')
    if s.flip(0.3):
        p = run(['gnuplot', '-e', q.out], d, stdin=data.encode(), binary=True)
        w = run(['gpquick']+a[1:]+['-o', 'real.png'], d, stdin=data.encode())
        if w.rc:
            check(w.rc == p.rc, 'script', 'the printed script ends with %r, gpquick with %r', p.rc, w.rc); return
        check(p.out == open(d+'/real.png', 'rb').read(), 'script', 'the printed script draws another picture: %r', p.err[-300:])

BAD = [['--grid', 'z'], ['--size', '10'], ['--size', 'a', 'b'], ['--size', '1.5', '20'], ['-x', '1'], ['-x', 'a', '2'], ['-y', '1', '2', '3'], ['--unknown'], ['-o'], ['extra'], ['-u'], ['--grid'], ['-x', '', '1']]
def refuse(s):
    d = scratch(); data, n, m = table(s); o, g = options(s, m); s.nontrivial(); env = fake(d, 'gnuplot')
    b = s.pick(BAD); g = s.shuffle(g+[['-o', 'o.png']]) if '-o' not in b else g
    a = ['gpquick']+flat(g)+b; s.describe(' '.join(a))
    r = run(a, d, env=env, stdin=data.encode())
    check(r.rc not in (0, None) and r.rc > 0 and r.err and not r.out and not os.path.exists(d+'/fake/args') and not os.path.exists(d+'/o.png'), 'refused', '%r: %r', a, r)

def encode(s):
    d = scratch(); s.nontrivial()
    D = s.pick(['img', 'im g', '.', "o'k", 'a$b']); os.makedirs(d+'/'+D, exist_ok=True)
    n = s.sized(0, 12); names = set()
    for i in range(n): names.add(s.pick(['%06d.png' % s.draw(100), '%d.png' % s.draw(30), 'fr ame%d.png' % s.draw(9), 'x%d.jpg' % i, '-%d.png' % s.draw(3)]))
    for f in names: open('%s/%s/%s' % (d, D, f), 'w').write(f)
    mask = D+'/'+s.pick(['*.png', '*.png', '*', '0*.png', '[0-9]*.png', '?.png'])
    comment = s.pick(['', 'made by vvplot', "it's", 'a "b" $c `d`', '  spaced  out ', '*', 'line1\nline2'])
    st = s.pick([0, 0, 1, 69]); env = fake(d, 'ffmpeg', st)
    fake(d, 'exiv2', st, '#!/bin/sh\nd=$(dirname "$0")\n: > "$d/exargs"\nfor a in "$@"; do printf "%s\\0" "$a" >> "$d/exargs"; done\ncat "$d/comment"\n'); open(d+'/fake/comment', 'w').write(comment)
    out = s.pick(['o.mp4', 'my film.mp4', 'sub/o.mp4', "it's.mp4", '*.mp4', '$x.mp4'])
    extra = s.pick([[], [], [], ['-y']])
    a = ['vvencode', mask, out]+extra; s.describe('%s in %r' % (' '.join(a), sorted(names)))
    if s.flip(0.15):
        a = a[:s.range(1, 2)]
        r = run(a, d, env=env)
        check(r.rc > 0 and r.err and not os.path.exists(d+'/fake/args'), 'refused', '%r: %r', a, r); s.label('too few'); return
    r = run(a, d, env=env)
    check(r.rc == st, 'status', 'ffmpeg ended with %d, vvencode with %r', st, r)
    args = open(d+'/fake/args', 'rb').read().decode('utf-8').split('\0')[:-1]
    check(args[-1] == out, 'target', 'ffmpeg writes %r instead of %r', args[-1:], out)
    i = args.index('-i') if '-i' in args else 0
    check(i >= 2 and args[:i] == ['-pattern_type', 'glob'] and args[i+1] == mask and args.count('-i') == 1, 'input', 'ffmpeg reads %r instead of %r', args[:i+2], mask)
    ref = [w for w in args if w.startswith('comment=')]
    c = comment.rstrip('\n')
    check(ref == ['comment='+c] and args[args.index(ref[0])-1] == '-metadata', 'comment', 'comment %r instead of %r', ref, c)
    for w in extra: check(w in args, 'extra', '%r is not passed', w)
    import glob
    os.chdir(d)
    files = sorted(f for f in glob.glob(mask)); os.chdir('/')
    ex = open(d+'/fake/exargs', 'rb').read().decode('utf-8').split('\0')[:-1]
    if files: check(ex[-1] == files[0], 'first', 'the comment is taken from %r, not from the first of %r', ex[-1:], files[:3]); s.label('frames')
    check(sorted(os.listdir(d+'/'+D)) == sorted(names) if D != '.' else True, 'files', 'files changed')

main('C26', [Sub('picture', 60, 1500, picture), Sub('script', 200, 4000, script), Sub('refuse', 120, 2000, refuse), Sub('encode', 300, 6000, encode)])
