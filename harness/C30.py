"""C30: the command line of vvflow: arguments, messages and exit status, refused problems leave
the files alone, a snapshot simulated directly gives the files of its script."""
import os, sys, math
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbt, problem
from pbt import check, run, num, h5, lua_str

def tree(d):
    o = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f); o[os.path.relpath(p, d)] = open(p, 'rb').read()
        o[os.path.relpath(r, d)+'/'] = b''
    return o
SHOW = '''for i=0,#arg do io.write(#arg[i]," ",arg[i],"\\n") end
'''
WORDS = ['', 'a', 'a b', '100%', "o'neil", '"', 'é', '1', '-', 'x=1', '*', '$HOME', '\\n', ';', 'script.lua', '--']
OPTS = ['--progress', '--no-progress', '--profile', '--no-profile', '--prog']
def args(s):
    """what is after the script reaches it: anything that is no option, everything after '--'"""
    d = pbt.scratch(); name = s.pick(['s.lua', 'a b.lua', './s.lua', d+'/s.lua', 'é.lua']); n = s.range(0, 6)
    with open(os.path.join(d, name), 'w') as f: f.write(SHOW)
    plain = [s.pick([w for w in WORDS if w != '--']) for _ in range(n)]; argv = ['vvflow']; want = [name]+plain
    how = s.draw(3)
    if how == 0:    # options before, words after
        argv += [s.pick(OPTS) for _ in range(s.range(0, 2))]+[name]+plain
    elif how == 1:  # options mixed in are for vvflow
        a = [name]+plain
        for _ in range(s.range(1, 3)): a.insert(s.range(0, len(a)), s.pick(OPTS))
        argv += a
    else:           # everything after -- is for the script
        rest = [s.pick(WORDS+OPTS+['-5', '-s', '--version', '-h', '--nope', '-1e3']) for _ in range(n)]; want = [name]+rest
        argv += [s.pick(OPTS)]*s.draw(2)+s.pick([['--', name]+rest, [name, '--']+rest])
    s.describe(argv[1:]); s.nontrivial(n); s.label('way %d' % how)
    r = run(argv, d); check(r.rc == 0 and r.err == '', 'exit', '%s: %r', argv, r)
    exp = ''.join('%d %s\n' % (len(w.encode()), w) for w in want)
    check(r.out == exp, 'args', '%s: the script sees %r instead of %r', argv, r.out, exp)

FAILS = [  # (script text, what the message must hold)
    ('error("Boo", 0)', 'Boo'), ('error("Boo")', 'Boo'), ('local x = nil + 1', 'arithmetic'), ('x = = 1', 'unexpected'), ('S.nope = 1', 'nope'), ('S.re = "a"', 're'), ('nosuch()', 'nosuch'),
    ('S:load("none.h5")', 'none.h5'), ('S:save("none/x.h5")', 'none/x.h5'), ('load_body("none")', 'none'), ('gen_cylinder{R=1}', 'N'), ('S.body_list:insert(1)', 'TBody'), ('simulate(', 'unexpected'), ('S.vort_list:load("none")', 'none'), ('error({})', ''), ('error()', '')]
ILL = [('S.re=0', 're'), ('S.re=-1', 're'), ('S.re=nan', 're'), ('S.re=-inf', 're'), ('S.dt=0', 'dt'), ('S.dt=-0.1', 'dt'), ('S.dt="-1/5"', 'dt'), ('S.dt=1e-300', 'dt'),
       ('local a,b=gen_cylinder{R=1,N=9},gen_cylinder{R=1,N=9} S.body_list:insert(a) a.root=b', 'root'), ('local a=gen_cylinder{R=1,N=9} S.body_list:insert(a) a.root=a', 'loop'),
       ('local a,b=gen_cylinder{R=1,N=9},gen_cylinder{R=1,N=9} S.body_list:insert(a) S.body_list:insert(b) a.root=b b.root=a', 'loop')]
def links(s):
    """bodies with a special segment that is none, a body without segments, links in a loop or out of the list"""
    n = s.range(1, 5); N = [s.range(3, 9) for _ in range(n)]; t = ['local b={}']+['b[%d]=gen_cylinder{R=0.3,N=%d} b[%d]:move_r{%d,0} S.body_list:insert(b[%d])' % (i+1, N[i], i+1, i, i+1) for i in range(n)]
    k = s.draw(4); i = s.draw(n); m = ''
    for j in range(1, n):
        if s.flip(0.4): t.append('b[%d].root=b[%d]' % (j+1, s.draw(j)+1))
        if s.flip(0.2): t.append('b[%d].special_segment=%d' % (j+1, s.draw(N[j])))
    if k == 0: t.append('b[%d].special_segment=%d' % (i+1, s.pick([-1, N[i], N[i]+1, 2**31-1, -2**31]))); m = 'special_segment'
    elif k == 1: t.append('local e=load_body("/dev/null") '+' '.join('S.body_list:erase(b[%d])' % (j+1) for j in range(i, n))+' S.body_list:insert(e) '+' '.join('S.body_list:insert(b[%d])' % (j+1) for j in range(i, n))); m = 'segments'
    elif k == 2:    # a loop of some, others hang from it
        o = s.shuffle(list(range(n))); l = s.range(1, n)
        for j in range(n): t.append('b[%d].root=b[%d]' % (o[j]+1, o[(j+1) % l if j < l else s.draw(j)]+1))
        m = 'loop'
    else: # the chain leaves the list
        t.append('local e=gen_cylinder{R=1,N=5} b[%d].root=e' % (i+1)); m = 'root'
    return ' '.join(t), m
RUN = 'S.caption="q" S.dt=0.1 S.dt_save=0.1 S.finish=0.2 S.inf_vx="1" '
def failures(s):
    """a failure has a message and a status; what was there before a refused problem stays"""
    d = pbt.scratch(); s.nontrivial(); kind = s.draw(5); argv = ['vvflow', 's.lua']
    with open(d+'/good.lua', 'w') as f: f.write(RUN+'S.vort_list:append({0,0,1},{1,0,1}) simulate()')
    earlier = s.flip()
    if earlier: r = run(['vvflow', 'good.lua'], d); check(r.rc == 0 and r.err == '' and r.out == '', 'exit', '%r', r)
    opts = [o for o in OPTS if s.flip(0.15)]
    if kind in (1, 2) and s.flip(0.25):
        # the same problem, as a snapshot
        t, m = s.pick([x for x in ILL if 'root' not in x[0] or 'S.body_list:insert(b)' in x[0]]); x = RUN+t+' S:save("p.h5")'; s.describe('snapshot of %r' % x); s.label('snapshot')
        open(d+'/p.lua', 'w').write(x); r = run(['vvflow', 'p.lua'], d)
        if r.rc: raise pbt.Discard()   # can not even be saved
        argv = ['vvflow']+opts+['p.h5']; t = ''
    elif kind == 0:
        t, m = s.pick(FAILS); t = s.pick(['', 'print("x") ', '#!/usr/bin/env vvflow\n'])+t
        s.describe('script %r' % t); argv = ['vvflow']+opts+['s.lua']
    elif kind <= 2:
        t, m = s.pick(ILL) if s.flip() else links(s); t = RUN+s.pick(['', 'S.time="3/10" S.finish=1 ', 'S.time="-1/5" '])+t+' simulate()'+s.pick(['', ' print("after")']); s.describe('problem %r' % t); argv = ['vvflow']+opts+['s.lua']
    elif kind == 3:
        t = RUN+'simulate() print("after")'; k = s.draw(8)
        if k == 0: argv = ['vvflow', '-s', s.pick(['none', 'none/x', ''])]+opts+['s.lua']; m = argv[2]
        elif k == 1: # the place of the results is taken
            t = RUN.replace('"q"', '"w"')+'simulate() print("after")'; open(d+'/results_w', 'w').write('x'); argv = ['vvflow']+opts+['s.lua']; m = 'results_w'
        elif k >= 3: # the place of another file is taken, or sensors can not be read or written
            t = RUN.replace('"q"', '"w"')+s.pick(['', 'S.body_list:insert(gen_cylinder{R=0.3,N=7}) '])+'simulate() print("after")'; o = []
            open(d+'/sens', 'w').write('1 2\n'); m = {3: 'velocity_w', 4: 'sens', 5: 'stepdata_w.h5', 6: '', 7: '000000.h5'}[k]; w = d+'/'+m
            if k == 3: os.makedirs(w)
            if k == 4: os.unlink(w); os.makedirs(w)
            if k == 5: os.makedirs(w)
            if k == 6: os.symlink('/dev/full', d+'/velocity_w')
            if k == 7: os.makedirs(d+'/results_w/000000.h5')
            if k in (3, 4, 6): o = s.pick([['-s', 'sens'], ['--sensors', 'sens']])
            argv = ['vvflow']+o+opts+['s.lua']; s.label('place taken')
        else: t = RUN.replace('"q"', '"n/o"')+'simulate() print("after")'; argv = ['vvflow']+opts+['s.lua']; m = ''
        s.describe('%s with %r' % (argv, t))
    else:
        t, m = '', ''; k = s.draw(6)
        if k == 0: argv = ['vvflow']+opts+[s.pick(['none.lua', '', '.', 'none/x.lua'])]
        elif k == 1: argv = ['vvflow']+opts
        elif k == 2: argv = ['vvflow', s.pick(['--nope', '-x', '-z5', '--sensors', '-s'])]+([] if s.flip() else ['good.lua'])
        elif k == 3: argv = ['vvflow', s.pick(['--nope', '-x']), 'good.lua']
        elif k == 4: # a snapshot that can not be read
            b = open(d+'/results_q/000001.h5', 'rb').read() if earlier else b'\x89HDF\r\n\x1a\n'+b'\0'*500
            open(d+'/c.h5', 'wb').write(b[:9+s.draw(len(b)-200)] if len(b) > 300 else b); argv = ['vvflow']+opts+['c.h5']
        else: open(d+'/bin', 'wb').write(b'\x01('+bytes(s.draw(256) for _ in range(s.range(1, 40)))); argv = ['vvflow']+opts+['bin']
        if argv[-1] == 'good.lua' and argv[1] in ('-s', '--sensors'): argv = ['vvflow', '--nope', 'good.lua']
        s.describe(argv)
    s.label('kind %d' % kind)
    with open(d+'/s.lua', 'w') as f: f.write(t)
    free = kind == 3 and k; before = None if free else tree(d); r = run(argv, d)
    check(r.rc > 0, 'status', '%s (%s): %r', argv, t, r)
    check(r.err.strip() and m in r.err, 'message', '%s (%s): message %r does not tell of %r', argv, t, r.err, m)
    check('after' not in r.out, 'goes on', '%s (%s): %r', argv, t, r)
    if not free: check(tree(d) == before, 'left alone', '%s (%s): files changed: %s', argv, t, sorted(k for k in set(before) | set(tree(d)) if before.get(k) != tree(d).get(k)))

def informs(s):
    d = pbt.scratch(); s.nontrivial(); o = s.pick(['-h', '--help', '-v', '--version']); argv = ['vvflow']+[x for x in OPTS if s.flip(0.2)]+[o]+s.pick([[], ['s.lua'], ['none']]); s.describe(argv)
    open(d+'/s.lua', 'w').write('error("ran")'); r = run(argv, d)
    check(r.rc == 0 and r.err == '' and ('vvflow' in r.out), 'information', '%s: %r', argv, r)
    if 'h' in o.strip('-')[:1]: check('--profile' in r.out and '--progress' in r.out, 'information', '%r', r)

def strip(f):
    for k in ('time_local',): f['/'].pop(k, None)
    return f
def again(s):
    """the snapshot a script saves, simulated directly, gives the files the script gives"""
    d = pbt.scratch(); p = problem.generate(s, maxbodies=3); dt = s.pick([(1, 10), (1, 20), (3, 50)]); n = s.range(0, 5); t0 = s.range(-2, 3) if s.flip(0.3) else 0
    cap = s.pick(['q', 'q', 'a b', 'q%d', '', '%%', '%%%s', '%n%%d']); prof = ['--profile'] if s.flip(0.3) else []; sens = []
    if s.flip(0.3): open(d+'/sens', 'w').write('1 2\n-1.5 3\n'); open(d+'/B.sens', 'w').close(); sens = ['-s', '../sens']
    t = p.lua()+'S.caption=%s S.time="%d/%d" S.dt="%d/%d" S.dt_save="%d/%d" S.finish=%s\n' % (lua_str(cap), t0*dt[0], dt[1], dt[0], dt[1], dt[0]*s.range(1, 2), dt[1], num((t0+n)*dt[0]/dt[1]))
    os.makedirs(d+'/A'); os.makedirs(d+'/B'); s.nontrivial(n and p.nbodies); s.describe(t.replace('\n', '; ')+' '.join(prof+sens))
    save = s.pick(['S:save("../p.h5") simulate()', 'S:save("../p.h5") S:load("../p.h5") simulate()'])
    open(d+'/s.lua', 'w').write(t+save)
    r = run(['vvflow']+prof+sens+['../s.lua'], d+'/A'); check(r.rc == 0 and r.err == '' and r.out == '', 'exit', '%r', r)
    r = run(['vvflow']+prof+sens+['../p.h5'], d+'/B'); check(r.rc == 0 and r.err == '' and r.out == '', 'exit', 'from the snapshot: %r', r)
    a, b = tree(d+'/A'), tree(d+'/B'); check('results_%s/' % cap in a and 'stepdata_%s.h5' % cap in a, 'files', 'the run of %r leaves %s', cap, sorted(a)); check(sorted(a) == sorted(b), 'files', 'the script gives %s, its snapshot %s', sorted(a), sorted(b))
    l = [k for k in sorted(a) if k.endswith('.h5')]
    for k in a:
        if not k.endswith('.h5'): check(a[k] == b[k], 'files', '%s differs', k)
    for k, x, y in zip(l, h5([d+'/A/'+k for k in l]), h5([d+'/B/'+k for k in l])):
        x, y = strip(x), strip(y); check(repr(x) == repr(y), 'files', '%s differs at %s', k, next(((q, str(x.get(q))[:300], str(y.get(q))[:300]) for q in sorted(set(x) | set(y)) if repr(x.get(q)) != repr(y.get(q))), None))
def progress(s):
    """--progress only talks; --profile only adds"""
    d = pbt.scratch(); p = problem.generate(s, maxbodies=2); n = s.range(0, 4); open(d+'/s.lua', 'w').write(p.lua()+'S.caption="q" S.dt=0.1 S.dt_save=0.1 S.finish=%s simulate()' % num(n/10)); s.describe(p.lua().replace('\n', '; ')); s.nontrivial(n)
    out = []
    for k, o in enumerate([[], ['--progress'], ['--profile'], s.pick([['--no-progress'], ['--no-profile'], ['--profile', '--no-profile'], ['--progress', '--no-progress']])]):
        os.makedirs(d+'/%d' % k); r = run(['vvflow']+o+['../s.lua'], d+'/%d' % k); check(r.rc == 0 and r.out == '' and bool(r.err) == (k == 1), 'exit', '%s: %r', o, r)
        if k == 1: check(r.err.count('\r') == n+1, 'progress', '%d reports of %d steps', r.err.count('\r'), n+1)
        fs = [x for x in sorted(tree(d+'/%d' % k)) if x.endswith('.h5')]; out.append(dict(zip(fs, map(strip, h5([d+'/%d/%s' % (k, x) for x in fs])))))
    check(repr(out[0]) == repr(out[1]), 'progress', '--progress changes the files')
    check(repr(out[0]) == repr(out[3]), 'no', 'a --no- option changes the files')
    check(sorted(out[0]) == sorted(out[2]), 'profile', 'other files')
    for f in out[0]:
        for k in out[0][f]: check(repr(out[0][f][k]) == repr(out[2][f].get(k)), 'profile', '--profile changes %s of %s', k, f)

if __name__ == '__main__':
    sys.exit(pbt.main('C30', [pbt.Sub('args', 800, 20000, args), pbt.Sub('failures', 800, 20000, failures), pbt.Sub('informs', 60, 300, informs), pbt.Sub('again', 250, 6000, again), pbt.Sub('progress', 80, 2000, progress)]))
