"""Builds the library, the tools and the harnesses from /repo's working tree with ninja.
Nothing is written below /repo: objects and binaries go to /verif/build (git-ignored)."""
import glob, os, shutil, subprocess, sys, zlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build') if R == '/repo' else os.path.join(V, 'build', 'alt-%08x' % zlib.crc32(R.encode()))
def _cflags(pkgdirs):
    return ' '.join('-I' + d for d in pkgdirs if os.path.isdir(d))
INC = _cflags(['/usr/include/hdf5/serial', '/usr/include/lua5.2'])
LIBS = '-L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 -llua5.2 -llapack -lblas -larchive -lz -ldl -lm -lpthread'
FLAVORS = {
    'opt': '-O2 -g1 -fopenmp',
    'asan': '-O1 -g -fopenmp -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS',
}
def _lib_sources():
    s = [p for p in sorted(glob.glob(R + '/libvvhd/src/**/*.c*', recursive=True)) if os.path.basename(p) != 'gitinfo.cpp' and p.endswith(('.cpp', '.cc', '.c'))]
    return s
def _tool_sources(t):
    s = sorted(glob.glob(R + '/utils/%s/*.cpp' % t) + glob.glob(R + '/utils/%s/*.c' % t))
    # sensors.cpp is #included by vvflow.cpp
    text = {p: open(p, errors='replace').read() for p in s}
    return [p for p in s if not any('#include "%s"' % os.path.basename(p) in t for q, t in text.items() if q != p)]
def gen():
    os.makedirs(B, exist_ok=True)
    gi = os.path.join(B, 'gitinfo.cpp')
    txt = 'extern const char *libvvhd_gitrev, *libvvhd_gitinfo, *libvvhd_gitdiff;\nconst char* libvvhd_gitrev = "verif";\nconst char* libvvhd_gitinfo = "verif-info";\nconst char* libvvhd_gitdiff = "";\n'
    if not os.path.exists(gi) or open(gi).read() != txt: open(gi, 'w').write(txt)
    o = ['ninja_required_version = 1.3', 'builddir = ' + B]
    o += ['rule cxx', '  command = g++ $fl -std=c++11 -w %s -I%s/libvvhd/headers $xi -MMD -MF $out.d -c $in -o $out' % (INC, R), '  depfile = $out.d', '  deps = gcc']
    o += ['rule cxx17', '  command = g++ $fl -std=c++17 -w %s -I%s/libvvhd/headers $xi -MMD -MF $out.d -c $in -o $out' % (INC, R), '  depfile = $out.d', '  deps = gcc']
    o += ['rule cc', '  command = gcc $fl -w %s -I%s/libvvhd/headers -MMD -MF $out.d -c $in -o $out' % (INC, R), '  depfile = $out.d', '  deps = gcc']
    o += ['rule link', '  command = g++ $fl -rdynamic -o $out $in $ll ' + LIBS]
    o += ['rule so', '  command = gcc -shared -fPIC -O1 -w -o $out $in -ldl']
    o += ['rule ar', '  command = rm -f $out && ar crs $out $in']
    targets = {}
    for fl, flags in FLAVORS.items():
        objs = []
        def obj(src, sub, rule=None, xi=''):
            out = '%s/%s/%s/%s.o' % (B, fl, sub, os.path.basename(src))
            rule = rule or ('cc' if src.endswith('.c') else 'cxx')
            o.append('build %s: %s %s' % (out, rule, src)); o.append('  fl = ' + flags)
            if xi: o.append('  xi = ' + xi)
            return out
        for s in _lib_sources() + [gi]: objs.append(obj(s, 'lib'))
        lib = '%s/%s/libvvhd.a' % (B, fl)
        o.append('build %s: ar %s' % (lib, ' '.join(objs)))
        for t in ('vvflow', 'vvxtract', 'vvplot'):
            to = [obj(s, t, xi='-I%s/utils/%s' % (R, t)) for s in _tool_sources(t)]
            b = '%s/%s/bin/%s' % (B, fl, t)
            o.append('build %s: link %s %s' % (b, ' '.join(to), lib)); o.append('  fl = ' + flags)
            targets['%s/%s' % (fl, t)] = b
        for h in sorted(glob.glob(V + '/harness/*.cpp')):
            n = os.path.basename(h)[:-4]
            ho = obj(h, 'harness', 'cxx17', '-I%s/harness' % V)
            b = '%s/%s/bin/%s' % (B, fl, n)
            o.append('build %s: link %s %s' % (b, ho, lib)); o.append('  fl = ' + flags)
            targets['%s/%s' % (fl, n)] = b
    for h in sorted(glob.glob(V + '/harness/*.c')):
        n = os.path.basename(h)[:-2]
        b = '%s/opt/bin/%s.so' % (B, n)
        o.append('build %s: so %s' % (b, h))
        targets['so/%s' % n] = b
    txt = '\n'.join(o) + '\n'
    nf = os.path.join(B, 'build.ninja')
    if not os.path.exists(nf) or open(nf).read() != txt: open(nf, 'w').write(txt)
    return targets
_targets = {}
def build(names):
    global _targets
    _targets = gen()
    if not names: return
    p = subprocess.run(['ninja', '-f', os.path.join(B, 'build.ninja')] + [_targets[n] for n in names], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write('\n'.join(l for l in p.stdout.splitlines() if not l.startswith('['))[-4000:] + '\nbuild failed\n')
        sys.exit(3)
def path(name): return _targets[name]
