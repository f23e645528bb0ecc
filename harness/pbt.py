"""The engine of pbt.hpp for checks that drive whole programs.

Every random decision of a case is a recorded integer choice (0 = simplest), so a failing
case is a list of integers: it is shrunk by deleting/zeroing/halving choices, replayed from
a file, and is a pure function of (seed, property, sub, index)."""
import json, math, mmap, os, resource, shutil, struct, subprocess, sys, tempfile, time, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
M = (1 << 64) - 1

class Fail(Exception):
    def __init__(self, key, msg): Exception.__init__(self, msg); self.key = key; self.msg = msg
class Discard(Exception): pass
def check(cond, key, msg, *a):
    if not cond: raise Fail(key, msg % a if a else msg)

def mix(z):
    z = (z + 0x9E3779B97F4A7C15) & M
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M
    return z ^ (z >> 31)
def fnv(s):
    h = 1469598103934665603
    for c in s.encode(): h = ((h ^ c) * 1099511628211) & M
    return h

class Src:
    def __init__(self, seed=0, pre=None, thorough=False):
        self.rng, self.pre, self.thorough = seed, pre, thorough
        self.rec, self.labels, self.nontriv, self.desc = [], {}, False, ''
    def draw(self, n):
        n = max(1, n)
        if self.pre is not None:
            v = self.pre[len(self.rec)] if len(self.rec) < len(self.pre) else 0
            if v >= n: v %= n
        else:
            self.rng = mix(self.rng)
            v = (self.rng * n) >> 64
        self.rec.append(v)
        if len(self.rec) > 200000: raise RuntimeError('generator drew too much')
        return v
    def flip(self, p=0.5): return self.draw(1000) >= 1000*(1-p)
    def range(self, lo, hi): return lo + self.draw(hi-lo+1)
    def sized(self, lo, hi):
        span = hi-lo; bits = 0
        while (1 << bits) <= span: bits += 1
        return lo + self.draw(min(span, (1 << self.draw(bits+1))-1)+1)
    def pick(self, seq): return seq[self.draw(len(seq))]
    def unit(self): return (self.draw(1 << 53)+0.5)/(1 << 53)
    def fine(self, lo, hi): return lo + (hi-lo)*self.unit()
    def real(self, lo, hi):
        if self.draw(5) == 0: return lo + (hi-lo)*[8,12,4,16,0,10,6,14,2,9,7,11,5,13,3,15,1][self.draw(17)]/16.0
        return self.fine(lo, hi)
    def short(self, lo, hi, digits=2):
        """a decimal number with few digits"""
        k = 10**digits
        a, b = math.ceil(lo*k-1e-9), math.floor(hi*k+1e-9)
        z = min(max(0, a), b)
        v = self.draw(b-a+1)
        x = z+v if z+v <= b else z-(v-(b-z))
        return x/k
    def logreal(self, lo, hi): return math.exp(math.log(lo)+(math.log(hi)-math.log(lo))*self.unit())
    def shuffle(self, seq):
        l = list(seq)
        for i in range(len(l)-1, 0, -1):
            j = i-self.draw(i+1); l[i], l[j] = l[j], l[i]
        return l
    def label(self, l): self.labels[l] = self.labels.get(l, 0)+1
    def nontrivial(self, b=True): self.nontriv = self.nontriv or bool(b)
    def describe(self, s):
        if len(self.desc) < 6000: self.desc += str(s)

# ------------------------------------------------------------------ scratch and programs
ROOT = None
BIN = os.path.join(build.B, 'opt', 'bin')
_n = 0
def scratch():
    """a fresh directory of this case; the engine removes it"""
    global _n
    _n += 1
    d = os.path.join(ROOT, str(os.getpid()), 'd%d' % _n)
    os.makedirs(d)
    return d
def clean():
    d = os.path.join(ROOT, str(os.getpid()))
    assert d.startswith('/tmp/verif')
    shutil.rmtree(d, ignore_errors=True)
class Result:
    def __init__(self, rc, out, err): self.rc, self.out, self.err = rc, out, err
    def __repr__(self): return 'exit %s, stdout %r, stderr %r' % (self.rc, self.out[-400:], self.err[-400:])
def run(argv, cwd, timeout=60, env=None, stdin=None, binary=False):
    """runs a program of the tree under test (or any other); a signal shows as a negative rc"""
    e = dict(os.environ, OMP_NUM_THREADS='1', OMP_WAIT_POLICY='passive', OPENBLAS_NUM_THREADS='1', LC_ALL='C', HOME=cwd, PATH=BIN + ':' + os.path.join(build.R, 'utils/scripts') + ':' + os.environ.get('PATH', ''))
    if env: e.update(env)
    # a program that takes all the memory is stopped before it harms the others (sanitizers reserve terabytes)
    lim = None if 'ASAN_OPTIONS' in e or '/asan/' in str(argv[0]) else lambda: resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    try:
        p = subprocess.run(argv, preexec_fn=lim, cwd=cwd, env=e, input=stdin, stdin=None if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Fail('hang', '%s did not end within %d s' % (' '.join(map(str, argv))[:200], timeout))
    if binary: return Result(p.returncode, p.stdout, p.stderr)
    return Result(p.returncode, p.stdout.decode('utf-8', 'backslashreplace'), p.stderr.decode('utf-8', 'backslashreplace'))
def h5(paths, cwd='/'):
    """the contents of HDF5 files as read by the plain HDF5 library (harness/h5json)"""
    many = isinstance(paths, (list, tuple))
    l = list(paths) if many else [paths]
    if not l: return []
    p = subprocess.run([os.path.join(BIN, 'h5json')] + l, cwd=cwd, stdout=subprocess.PIPE)
    r = [json.loads(x) for x in p.stdout.decode('latin-1').splitlines()]
    if len(r) != len(l): raise Fail('h5json', 'a file can not be read back: %r' % (l,))
    return r if many else r[0]
def txt(s):
    """a text attribute (h5json gives one character per byte)"""
    return s.encode('latin-1').decode('utf-8', 'surrogateescape') if isinstance(s, str) else s
def num(x):
    """a number as a script reads it, exactly"""
    if x != x: return 'nan'
    if x in (math.inf, -math.inf): return 'inf' if x > 0 else '-inf'
    return repr(float(x)) if not isinstance(x, int) else str(x)
def bits(x): return struct.pack('<d', x)
def same(a, b): return bits(a) == bits(b) or (a != a and b != b)
def lua_str(s):
    o = '"'
    for c in s.encode('utf-8', 'surrogateescape') if isinstance(s, str) else s:
        o += chr(c) if 32 <= c < 127 and c not in (34, 92) else '\\%03d' % c
    return o + '"'

# ------------------------------------------------------------------ engine
class Sub:
    # races: a failure under some schedules of the threads need not show at every replay
    def __init__(self, name, quick, thorough, f, races=False): self.name, self.quick, self.thorough, self.f, self.races = name, quick, thorough, f, races
def run_case(sub, s):
    try: sub.f(s)
    except Fail as f: return (f.key, f.msg)
    except Discard: s.nontriv = False; s.label('discarded')
    except Exception as e: return ('exception', 'unexpected %s: %s at %s' % (type(e).__name__, e, '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in traceback.extract_tb(e.__traceback__)[-4:])))
    finally: clean()
    return None
def spawn(fn):
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 1
        try:
            out = json.dumps(fn()).encode()
            with os.fdopen(w, 'wb') as f: f.write(out)
            code = 0
        except BaseException: traceback.print_exc()
        finally: os._exit(code)
    os.close(w)
    return pid, r
def collect(pid, r):
    with os.fdopen(r, 'rb') as f: b = f.read()
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(os.path.join(ROOT, str(pid)), ignore_errors=True)
    if st or not b: return None
    return json.loads(b)
def replay(sub, choices, thorough):
    def f():
        s = Src(pre=choices, thorough=thorough)
        o = run_case(sub, s)
        return dict(fail=o, rec=s.rec, desc=s.desc)
    return f
def shrink(sub, best, key, thorough, budget, jobs):
    t0 = time.time()
    def better(c, b): return len(c) < len(b) or (len(c) == len(b) and c < b)
    def tryall(cands):
        """the first candidate (in order) that still fails and is simpler"""
        nonlocal best
        for i in range(0, len(cands), jobs):
            if time.time()-t0 > budget: return False
            ps = [spawn(replay(sub, c, thorough)) for c in cands[i:i+jobs]]
            rs = [collect(*p) for p in ps]
            for r in rs:
                if r and r['fail'] and r['fail'][0] == key:
                    n = r['rec']
                    while n and n[-1] == 0: n.pop()
                    if better(n, best): best = n; return True
        return False
    progress = True
    while progress and time.time()-t0 < budget:
        progress = False
        chunk = max(1, len(best)//2)
        while chunk >= 1 and time.time()-t0 < budget:
            while True:
                c = [best[:i]+best[i+chunk:] for i in range(0, max(0, len(best)-chunk+1), chunk)]
                c += [best[:i]+[0]*chunk+best[i+chunk:] for i in range(0, max(0, len(best)-chunk+1), chunk) if any(best[i:i+chunk])]
                if not tryall(c): break
                progress = True
            chunk //= 2
        c = []
        for i, v in enumerate(best):
            if v > 1: c += [best[:i]+[v//2]+best[i+1:]]
            if v > 0: c += [best[:i]+[v-1]+best[i+1:]]
        if tryall(c): progress = True
    return best
def main(ident, subs):
    global ROOT
    a = dict(seed=1, tier='quick', out='', replays='.', scale=1.0, cap=0.0, only='', jobs=8)
    known, rep, av = [], None, sys.argv[1:]
    while av:
        k = av.pop(0)
        if k == '--known': known.append(av.pop(0))
        elif k == '--replay': rep = (av.pop(0), av.pop(0) if av else '')
        elif k.startswith('--') and k[2:] in a: a[k[2:]] = type(a[k[2:]])(av.pop(0))
    thorough = a['tier'] == 'thorough'
    ROOT = tempfile.mkdtemp(prefix='verif', dir='/tmp')
    here = os.getcwd()
    os.chdir(ROOT)
    for k in ('out', 'replays'):
        if a[k]: a[k] = os.path.join(here, a[k])
    try:
        if rep:
            for sub in subs:
                if sub.name == rep[0]:
                    for _ in range(40 if sub.races else 1):
                        r = collect(*spawn(replay(sub, [int(x) for x in rep[1].split(',') if x], thorough)))
                        f = r['fail']
                        if f: break
                    print('HOLDS' if not f else 'FAILS\nkey=%s\n%s' % tuple(f)); print('case:', r['desc'])
                    return 1 if f else 0
            return 3
        result, violation, T0 = [], None, time.time()
        for sub in subs:
            if a['only'] and a['only'] != sub.name: continue
            N = max(1, int((sub.thorough if thorough else sub.quick)*a['scale']))
            deadline = a['cap'] or (3000 if thorough else 240)
            t0 = time.time()
            low = mmap.mmap(-1, 8); low[:8] = struct.pack('<q', 1 << 60)
            jobs = min(a['jobs'], N)
            def seed_of(i): return mix(fnv(ident + '/' + sub.name) ^ mix((a['seed']*1000003+i) & M))
            def worker(w):
                def f():
                    r = dict(ev=0, labels={}, known={}, hashes=[], samples=[], fail=None)
                    for i in range(w, N, jobs):
                        if time.time()-t0 > deadline or i > struct.unpack('<q', low[:8])[0]: break
                        s = Src(seed_of(i), thorough=thorough)
                        o = run_case(sub, s)
                        r['ev'] += 1
                        for l in s.labels: r['labels'][l] = r['labels'].get(l, 0)+1
                        if s.nontriv:
                            h = 7
                            for v in s.rec: h = mix(h ^ v)
                            r['hashes'].append(h)
                            if len(r['samples']) < 2 and s.desc: r['samples'].append(s.desc[:900])
                        if o:
                            if o[0] in known: r['known'][o[0]] = r['known'].get(o[0], 0)+1; continue
                            r['fail'] = [i, o[0], o[1], s.rec]
                            if i < struct.unpack('<q', low[:8])[0]: low[:8] = struct.pack('<q', i)
                            break
                    return r
                return f
            ps = [spawn(worker(w)) for w in range(jobs)]
            rs = [collect(*p) for p in ps]
            if None in rs: print('a worker died', file=sys.stderr); return 3
            ev = sum(r['ev'] for r in rs); labels, kn, hashes, samples = {}, {}, set(), []
            for r in rs:
                for l, v in r['labels'].items(): labels[l] = labels.get(l, 0)+v
                for l, v in r['known'].items(): kn[l] = kn.get(l, 0)+v
                hashes.update(r['hashes']); samples += r['samples']
            for i, key, msg, ch in sorted(r['fail'] for r in rs if r['fail']):
                # 3 replays must fail before it is reported
                rr = [collect(*p) for p in [spawn(replay(sub, ch, thorough)) for _ in range(3)]]
                bad = [r for r in rr if r and r['fail'] and r['fail'][0] not in known]
                if sub.races and len(bad) < 3:
                    # the difference was seen; it has to be seen again under some schedule
                    for _ in range(8):
                        if bad: break
                        bad = [r for r in [collect(*p) for p in [spawn(replay(sub, ch, thorough)) for _ in range(8)]] if r and r['fail'] and r['fail'][0] not in known]
                    if bad: key = bad[0]['fail'][0]; best = ch; r = bad[0]
                elif len(bad) == 3:
                    key = bad[0]['fail'][0]
                    best = shrink(sub, bad[0]['rec'], key, thorough, 120 if thorough else 40, a['jobs'])
                    r = collect(*spawn(replay(sub, best, thorough)))
                    if not (r and r['fail']): best = ch; r = bad[0]
                if len(bad) < (1 if sub.races else 3):
                    print('%s/%s case %d failed once (%s: %s) but %d of 3 replays failed: not reported' % (ident, sub.name, i, key, msg, len(bad)), file=sys.stderr)
                    continue
                path = os.path.join(a['replays'], '%s-%s.json' % (ident, sub.name))
                with open(path, 'w') as f:
                    json.dump(dict(property=ident, sub=sub.name, tier=a['tier'], seed=a['seed'], index=i, key=r['fail'][0], message=r['fail'][1], case=r['desc'], choices=best), f)
                violation = path
                print('%s/%s case %d: [%s] %s\n  case: %s' % (ident, sub.name, i, r['fail'][0], r['fail'][1], r['desc']), file=sys.stderr)
                break
            result.append(dict(name=sub.name, requested=N, evaluations=ev, distinct_nontrivial=len(hashes), wall_s=round(time.time()-t0, 2), labels=labels, known=kn, samples=samples[:3]))
            if violation: break
        o = dict(property=ident, subs=result, evaluations=sum(s['evaluations'] for s in result), distinct_nontrivial=sum(s['distinct_nontrivial'] for s in result), wall_s=round(time.time()-T0, 2), violation=violation)
        if a['out']:
            with open(a['out'], 'w') as f: json.dump(o, f)
        else: print(json.dumps(o))
        return 1 if violation else 0
    finally:
        os.chdir('/')
        assert ROOT.startswith('/tmp/verif')
        shutil.rmtree(ROOT, ignore_errors=True)
