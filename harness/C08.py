"""C08: the Lua object model against a plain Python model of the same containers."""
import os, sys, math, copy, struct
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbt
from pbt import check, run, num, lua_str, h5
PRE = r'''
local function q(v, d)
  local t = type(v)
  if t == "number" then return string.format("%.17g", v)
  elseif t == "string" then return "'" .. v:gsub(".", function(c) return string.format("%02x", c:byte()) end) .. "'"
  elseif t == "table" then local o = {} for i = 1, #v do o[i] = q(v[i]) end return "{" .. table.concat(o, ",") .. "}"
  elseif t == "userdata" and v.r and v.r.x then return "{" .. q(v.r.x) .. "," .. q(v.r.y) .. "," .. q(v.g or v.o) .. "}"
  elseif t == "userdata" and v.x then return "{" .. q(v.x) .. "," .. q(v.y) .. "}"
  else return tostring(v) end
end
function P(f, ...)
  local r = table.pack(pcall(f))
  if not r[1] then print("E " .. tostring(r[2]):gsub("\n", " ")) return end
  local o = {} for i = 2, r.n do o[i-1] = q(r[i]) end
  print("V " .. table.concat(o, " "))
end
'''
class Near:
    """a number known up to rounding"""
    def __init__(n, v, scale=1): n.v, n.scale = v, scale
class Err:
    def __init__(e, has=''): e.has = has
def parse(t):
    t = t.strip()
    if t.startswith('{'): return [parse(x) for x in split(t[1:-1])]
    if t.startswith("'"): return bytes.fromhex(t[1:-1])
    if t == 'nil': return None
    if t in ('true', 'false'): return t == 'true'
    return float(t)
def split(t):
    out, depth, cur = [], 0, ''
    for c in t:
        if c == ',' and depth == 0: out.append(cur); cur = ''; continue
        depth += (c == '{')-(c == '}'); cur += c
    if cur: out.append(cur)
    return out
def agree(got, want):
    if isinstance(want, Near): return isinstance(got, float) and (abs(got-want.v) <= 1e-9*want.scale+1e-12*abs(want.v))
    if isinstance(want, (list, tuple)): return isinstance(got, list) and len(got) == len(want) and all(agree(a, b) for a, b in zip(got, want))
    if isinstance(want, str): return got == want.encode()
    if isinstance(want, bool) or want is None: return got is want
    if isinstance(want, (int, float)): return isinstance(got, float) and pbt.same(got, float(want))
    return got == want
def show(w):
    if isinstance(w, Near): return '~%r' % w.v
    if isinstance(w, (list, tuple)): return [show(x) for x in w]
    return w

class Body:
    def __init__(b, poly, slip=False):
        b.poly = [list(p) for p in poly]; b.exact = True
        b.v3 = dict(holder_pos=[0.0]*3, delta_pos=[0.0]*3, speed=[0.0]*3, collision_min=[math.nan]*3, collision_max=[math.nan]*3, spring_const=[math.inf]*3, spring_damping=[0.0]*3)
        b.ev = dict(holder_vx='', holder_vy='', holder_vo='', holder_mo='')
        b.sc = dict(label='', density=1.0, bounce=0.0, special_segment=0)
        b.slip, b.root, b.mag = slip, None, 1
    def axis(b): return b.v3['holder_pos'][0]+b.v3['delta_pos'][0], b.v3['holder_pos'][1]+b.v3['delta_pos'][1]
    def geo(b):
        P = b.poly; n = len(P); A = cx = cy = I = 0; x0, y0 = P[0]
        for i in range(n):
            x1, y1, x2, y2 = P[i][0]-x0, P[i][1]-y0, P[(i+1) % n][0]-x0, P[(i+1) % n][1]-y0
            c = x1*y2-x2*y1; A += c/2; cx += (x1+x2)*c/6; cy += (y1+y2)*c/6; I += (x1*x1+x1*x2+x2*x2+y1*y1+y1*y2+y2*y2)*c/12
        cx /= A; cy /= A; I -= A*(cx*cx+cy*cy)
        return -A, cx+x0, cy+y0, -I
    def slen(b): return sum(math.hypot(b.poly[i][0]-b.poly[i-1][0], b.poly[i][1]-b.poly[i-1][1]) for i in range(len(b.poly)))
    def moved(b, dx, dy, do):
        ax, ay = b.axis(); c, s = math.cos(do), math.sin(do)
        for p in b.poly: x, y = p[0]-ax, p[1]-ay; p[0], p[1] = ax+x*c-y*s+dx, ay+x*s+y*c+dy
        b.mag += abs(ax)+abs(ay)+abs(dx)+abs(dy); h = b.v3['holder_pos']; h[0] += dx; h[1] += dy; h[2] += do; b.exact = False
    def illegal(b):
        v = b.v3
        return not b.poly or any(not math.isfinite(x) for x in v['spring_damping']) or any(math.isnan(x) or x < 0 for x in v['spring_const']) or any(a >= c for a, c in zip(v['collision_min'], v['collision_max']))
    size = property(lambda b: b.mag+max([abs(c) for p in b.poly for c in p], default=0))
V3 = ['holder_pos', 'delta_pos', 'speed', 'collision_min', 'collision_max', 'spring_const', 'spring_damping']
EV = ['holder_vx', 'holder_vy', 'holder_vo', 'holder_mo']
TT = ['time', 'dt', 'dt_save', 'dt_streak', 'dt_profile']
LI = ['vort_list', 'sink_list', 'streak_source_list', 'streak_domain_list']
EXPR = [('2', lambda t: 2.0), ('t', lambda t: t), ('3*t+1', lambda t: 3*t+1), ('t*t', lambda t: t*t), ('-t/2', lambda t: -t/2)]
BADEXPR = ['1+', 't)', ')', '2 3', 'sin(']
def val(s):
    k = s.draw(8)
    if k == 0: return s.pick([0.0, -0.0, 1.0, 1e300, -1e-300, math.inf, -math.inf, 5e-324])
    if k < 5: return float(s.short(-9, 9))
    return s.fine(-100, 100)
def bad(s, what):
    """a Lua expression that is no <what>"""
    c = ['nil', 'true', '{}', '{1}', '{1,2,3,4}', 'print', '{{},1,2}', '"x y"', 'S', 'S.body_list', '{"a","b","c"}', '{1,"b"}']
    if what == 'number': c = ['nil', 'true', '{}', '{1}', 'print', '"abc"', 'S', 'S.gravity', '""', '"1 2"']
    if what == 'string': c = ['nil', 'true', '{}', 'print', 'S', '5', 'S.gravity']
    if what == 'vec': c += ['5', '{1,2,3}', '{nil,1}']
    if what == 'vec3': c += ['5', '{1,2}', 'S.gravity']
    if what == 'obj': c += ['5', '{1,2}', 'S.gravity']
    if what == 'expr': c = ['nil', 'true', '{}', '5', 'S', 'S.gravity'] + [lua_str(e) for e in BADEXPR]
    if what == 'time': c = ['nil', 'true', '{}', '{1}', '{1,2,3}', '{1,0}', '{1,-2}', '"1/0"', '"1/2x"', '"x"', '"1"', '"/3"', '{"a",2}', '{1,"b"}', 'S', 'nan', 'inf', '-inf', '""']
    if what == 'bool': c = ['nil', '1', '0', '"true"', '{}']
    if what == 'body': c = ['5', 'true', 'false', '0', '"b"', '{}', 'S', 'S.gravity', 'S.body_list']
    return s.pick(c)
class World:
    def __init__(w, s):
        w.s, w.lines, w.want = s, [], []
        w.sc = dict(caption='', re=math.inf, finish=math.inf, inf_g=0.0)
        w.tt = dict(time=(0, 1), dt=(1, 1), dt_save=(0, 1), dt_streak=(0, 1), dt_profile=(0, 1))
        w.ev = dict(inf_vx='', inf_vy=''); w.gravity = [0.0, 0.0]
        w.li = {k: [] for k in LI}; w.bl = []; w.h = {}
        w.saved = {}; w.files = {}; w.nbad = 0
    def p(w, code, *want):
        w.lines.append('P(function() %s end)' % code); w.want.append((code, want))
    def refuse(w, code, has=''): w.nbad += 1; w.p(code, Err(has))
    def text(w): return w.s.pick(['', 'a', 'two words', 'q"uote\\', '\xe9t\xe9', 'x'*40, 'y'*300, 'a\tb', "it's", '100%'])
    # sometimes something else is written first: the last value counts
    def before(w, what): return '%s=%s ' % (what, lua_str(w.text())) if w.s.flip() else ''
    # a Lua expression for a body of the model, and the body
    def ref(w):
        c = ['h%d' % i for i, b in w.h.items() if b]
        c += ['S.body_list[%d]' % (i+1) for i in range(len(w.bl))]
        if not c: return None
        e = w.s.pick(c)
        return e, (w.h[int(e[1:])] if e[0] == 'h' else w.bl[int(e[12:-1])-1])
    def alive(w): return [b for b in w.h.values() if b]+w.bl
    def rootof(w, b): return b.root if b.root is not None and any(x is b.root for x in w.alive()) else None
    def get_body(w, e, b):
        s = w.s; k = s.draw(12)
        if k == 0: f = s.pick(V3); w.p('local v=%s.%s return v.r.x,v.r.y,v.o' % (e, f), *[Near(x, 1) if not math.isfinite(x) is False and f == 'holder_pos' and not b.exact else x for x in b.v3[f]])
        elif k == 1: f = s.pick(V3); w.p('return %s.%s:totable()' % (e, f), [Near(x) if f == 'holder_pos' and not b.exact and math.isfinite(x) else x for x in b.v3[f]])
        elif k == 2: f = s.pick(sorted(b.sc)); w.p('return %s.%s' % (e, f), b.sc[f])
        elif k == 3: f = s.pick(EV); w.p('return tostring(%s.%s), %s.%s:tostring()' % (e, f, e, f), b.ev[f], b.ev[f])
        elif k == 4: w.p('return %s.slip' % e, b.slip)
        elif k == 5:
            w.p('collectgarbage() collectgarbage() return %s.root ~= nil' % e, w.rootof(b) is not None)
            r = w.rootof(b)
            for i, x in w.h.items():
                if x: w.p('return %s.root == h%d' % (e, i), r is x)
        elif k == 6: w.p('return #%s' % e, len(b.poly))
        elif k == 7: w.p('return %s:totable()' % e, [[Near(c, b.size) if not b.exact else c for c in p] for p in b.poly])
        elif k == 8 and not b.poly: w.p('return %s:get_slen(), %s:get_area()' % (e, e), 0.0, Near(0.0))
        elif k == 8:
            A, cx, cy, I = b.geo(); z = b.size
            if z < 1e6 and A > 1e-6:
                w.p('return %s:get_slen(), %s:get_area(), %s:get_cofm(), %s:get_moi_cofm()' % (e, e, e, e), Near(b.slen(), z), Near(A, z*z), [Near(cx, z**3/A), Near(cy, z**3/A)], Near(I, z**4))
                ax, ay = b.axis()
                if abs(ax)+abs(ay) < 1e6: z += abs(ax)+abs(ay); w.p('return %s:get_axis(), %s:get_moi_axis()' % (e, e), [ax, ay] if b.exact else [Near(ax, z), Near(ay, z)], Near(I+A*((ax-cx)**2+(ay-cy)**2), z**5/A))
        elif k == 9: f = s.pick(V3); w.p('return %s.%s.d' % (e, f), Near(math.degrees(b.v3[f][2]), 1) if math.isfinite(b.v3[f][2]) else b.v3[f][2])
        elif k == 10: w.p('return %s.%s' % (e, s.pick(['foo', 'R', 'holder', 'xx'])), None)
        else: f = s.pick(EV); g = [x for x in EXPR if x[0] == b.ev[f]]; t = s.short(-5, 5); w.p('return %s.%s:eval(%s)' % (e, f, num(t)), g[0][1](t) if g else 0.0)
    def set_body(w, e, b):
        s = w.s; k = s.draw(14)
        if k == 0: f = s.pick(V3); v = [val(s) for _ in range(3)]; w.p('%s.%s={%s,%s,%s}' % (e, f, num(v[0]), num(v[1]), num(v[2]))); b.v3[f][:] = v
        elif k == 1: f = s.pick(V3); v = [val(s), val(s)]; w.p('%s.%s.r={%s,%s}' % (e, f, num(v[0]), num(v[1]))); b.v3[f][:2] = v
        elif k == 2: f = s.pick(V3); i = s.draw(3); v = val(s); w.p('%s.%s.%s=%s' % (e, f, ['r.x', 'r.y', 'o'][i], num(v))); b.v3[f][i] = v
        elif k == 3:
            f = s.pick(V3); v = s.pick([0, 90, 180, -45, 360]); w.p('%s.%s.d=%s' % (e, f, num(v))); b.v3[f][2] = v*math.pi/180.0
        elif k == 4:
            r = w.ref(); f, g = s.pick(V3), s.pick(V3); w.p('%s.%s=%s.%s' % (e, f, r[0], g)); b.v3[f][:] = list(r[1].v3[g])
        elif k == 5:   # a vector taken out refers to the member
            f = s.pick(V3); v = val(s); w.p('local v=%s.%s v.o=%s local r=v.r r.x=%s r.y=v.r.x' % (e, f, num(v), num(v))); b.v3[f][:] = [v]*3
        elif k == 6: f = s.pick(['density', 'bounce']); v = val(s); w.p('%s.%s=%s' % (e, f, num(v))); b.sc[f] = v
        elif k == 7: v = s.range(-3, 40) if s.flip(0.7) else s.pick([255, 256, -129, 32768, -32769, 65536, 2**31-1, -2**31]); w.p('%s.special_segment=%d' % (e, v)); b.sc['special_segment'] = v
        elif k == 8: v = w.text(); w.p('%s%s.label=%s' % (w.before(e+'.label'), e, lua_str(v))); b.sc['label'] = v
        elif k == 9: f = s.pick(EV); v = s.pick(EXPR)[0]; w.p('%s.%s=%s' % (e, f, lua_str(v))); b.ev[f] = v
        elif k == 10: r = w.ref(); f, g = s.pick(EV), s.pick(EV); w.p('%s.%s=%s.%s' % (e, f, r[0], g)); b.ev[f] = r[1].ev[g]
        elif k == 11: v = s.flip(); w.p('%s.slip=%s' % (e, 'true' if v else 'false')); b.slip = v if b.poly else False
        elif k == 12:
            r = w.ref()
            if s.flip(0.3) : w.p('%s.root=nil' % e); b.root = None
            else:
                w.p('%s.root=%s' % (e, r[0])); b.root = r[1]   # even to itself: a run refuses that
        else:
            ok = all(math.isfinite(x) and abs(x) < 1e4 for f in ('holder_pos', 'delta_pos') for x in b.v3[f])
            if ok:
                m = s.draw(3)
                if m == 0: v = s.short(-5, 5), s.short(-5, 5); w.p('%s:move_r{%s,%s}' % (e, num(v[0]), num(v[1]))); b.moved(v[0], v[1], 0)
                elif m == 1: v = s.short(-7, 7); w.p('%s:move_o(%s)' % (e, num(v))); b.moved(0, 0, v)
                else: v = s.range(-720, 720); w.p('%s:move_d(%d)' % (e, v)); b.moved(0, 0, v*math.pi/180)
    def bad_body(w, e, b):
        s = w.s; k = s.draw(9)
        if k == 0: w.refuse('%s.%s=%s' % (e, s.pick(V3), bad(s, 'vec3')))
        elif k == 1: w.refuse('%s.%s.r=%s' % (e, s.pick(V3), bad(s, 'vec')))
        elif k == 2: w.refuse('%s.%s.%s=%s' % (e, s.pick(V3), s.pick(['o', 'd', 'r.x', 'r.y']), bad(s, 'number')))
        elif k == 3: w.refuse('%s.%s=%s' % (e, s.pick(['density', 'bounce', 'special_segment']), bad(s, 'number')))
        elif k == 4: w.refuse('%s.label=%s' % (e, bad(s, 'string')))
        elif k == 5: w.refuse('%s.%s=%s' % (e, s.pick(EV), bad(s, 'expr')))
        elif k == 6: w.refuse('%s.slip=%s' % (e, bad(s, 'bool')))
        elif k == 7 and s.flip(): w.refuse('%s.special_segment=%s' % (e, s.pick(['4294967296', '2^31', '-2^31-1', '2^40+1', '1e300', 'inf', 'nan'])))
        elif k == 7: w.refuse('%s.root=%s' % (e, bad(s, 'body')))
        else: w.refuse(s.pick(['%s.foo=1', '%s.foo.x=1', '%s[1]=2', '%s.holder_pos.z=1', '%s.holder_pos.r.z=1', '%s:move_r(5)', '%s:move_o("a")', '%s:move_d{}', '%s.holder_vx:eval()', '%s.holder_vx.x=1']) % e)
    def illegal(w): return any(b.illegal() or (w.rootof(b) is not None and not any(x is w.rootof(b) for x in w.bl)) for b in w.bl)
    def store(w, f):
        """S:save(f): the file keeps a copy of everything but the handles"""
        w.lines.append('collectgarbage() collectgarbage()')     # roots nobody holds any more are none
        if w.illegal(): w.refuse('S:save(%s)' % lua_str(f)); return
        for b in w.alive(): b.root = w.rootof(b)
        w.p('S:save(%s)' % lua_str(f)); w.saved[f] = copy.deepcopy((w.sc, w.tt, w.ev, w.gravity, w.li, w.bl)); w.s.label('saved')
    def fetch(w, f):
        w.lines.append('collectgarbage() collectgarbage()')
        for b in w.alive(): b.root = w.rootof(b)
        w.p('S:load(%s)' % lua_str(f)); w.sc, w.tt, w.ev, w.gravity, w.li, w.bl = copy.deepcopy(w.saved[f]); w.s.label('loaded')
    def psi(w):
        s = w.s; x, y = s.short(-5, 5)+0.01, s.short(-5, 5); l = w.li['vort_list']; t = w.tt['time'][0]/w.tt['time'][1]
        if w.bl or w.li['sink_list'] or not all(math.isfinite(c) and abs(c) < 1e6 for o in l for c in o) or any(math.hypot(x-o[0], y-o[1]) < 1e-9 for o in l): return
        U = [([z[1](t) for z in EXPR if z[0] == w.ev[f]] or [0.0])[0] for f in ('inf_vx', 'inf_vy')]
        z = [y*U[0], -x*U[1]]+[-o[2]*math.log((x-o[0])**2+(y-o[1])**2)/(4*math.pi) for o in l]
        w.p('return S:XStreamfunction{%s,%s}' % (num(x), num(y)), Near(sum(z), sum(map(abs, z)))); s.label('streamfunction')
    def step(w):
        s = w.s; k = s.draw(24)
        r = w.ref()
        if k >= 20:
            f = s.pick(['m.h5', 'n 2.h5', '%d%s.h5'])
            if k == 20: w.store(f)
            elif k == 21 and w.saved:
                if s.flip(0.2): w.refuse(s.pick(['S:load("none.h5")', 'S:load("")', 'S:load("no/such")']))   # nothing is said about what is there now
                w.fetch(s.pick(sorted(w.saved)))
            elif k == 22: w.psi()
            elif k == 23: w.refuse(s.pick(['S:save()', 'S:load()', 'S:load({})', 'S:save(nil)', 'S:save("no/such.h5")', 'S.load("m.h5")', 'S:XStreamfunction(%s)' % bad(s, 'vec')]))
            return
        if k <= 4 and r: w.set_body(*r)
        elif k <= 7 and r: w.get_body(*r)
        elif k == 8 and r: w.bad_body(*r)
        elif k == 9:   # handles
            i = s.range(1, 5); m = s.draw(4)
            if m == 0 and w.h.get(i): w.lines.append('h%d=nil' % i); w.h[i] = None
            elif m == 1 and r: w.lines.append('h%d=%s' % (i, r[0])); w.h[i] = r[1]
            elif s.flip(0.2):
                n = s.pick([0, 0, 3, 4, 6]); f = 'b%d.txt' % len(w.files); sl = [s.flip() for _ in range(n)] if s.flip() else [s.flip()]*n
                P = [[math.cos(2*math.pi*j/n)+j/8, -math.sin(2*math.pi*j/n)] for j in range(n)]
                w.files[f] = ''.join('%r %r %d\n' % (x, y, v) for (x, y), v in zip(P, sl)).encode()
                w.lines.append('h%d=load_body(%s)' % (i, lua_str(f))); w.h[i] = Body(P, (sl[0] if len(set(sl)) == 1 else None) if n else False); s.label('body from a file')
            else:
                n = s.pick([3, 4, 5, 8]); R = s.pick([1, 0.5, 2])
                w.lines.append('h%d=gen_cylinder{R=%s,N=%d}' % (i, num(R), n))
                w.h[i] = Body([(R*math.cos(2*math.pi*(1-j/n)), R*math.sin(2*math.pi*(1-j/n))) for j in range(n)]); w.h[i].exact = False
        elif k <= 11:   # the list of bodies
            m = s.draw(7)
            if m <= 1 and r:
                if any(b is r[1] for b in w.bl): w.refuse('S.body_list:insert(%s)' % r[0], 'twice')
                else: w.p('S.body_list:insert(%s)' % r[0]); w.bl.append(r[1])
            elif m == 2 and r:
                if any(b is r[1] for b in w.bl): w.p('S.body_list:erase(%s)' % r[0]); w.bl = [b for b in w.bl if b is not r[1]]
                else: w.refuse('S.body_list:erase(%s)' % r[0], 'not in list')
            elif m == 3 and s.flip(0.3): w.p('S.body_list:clear()'); w.bl = []
            elif m == 4:
                w.p('return #S.body_list', len(w.bl)); w.p('local n,o=0,{} for i,b in ipairs(S.body_list) do n=n+1 o[n]=b.label if i~=n then error("order") end end return n,o', len(w.bl), [b.sc['label'] for b in w.bl])
                for i, b in w.h.items():
                    if b:
                        for j in range(len(w.bl)): w.p('return S.body_list[%d]==h%d' % (j+1, i), w.bl[j] is b)
            elif m == 5: w.p('return S.body_list[%s]' % s.pick(['0', '-1', str(len(w.bl)+1), '1e9', 'true and 0', '"foo"']), None)
            else: w.refuse(s.pick(['S.body_list[1]=%s' % (r[0] if r else '5'), 'S.body_list:insert(%s)' % bad(s, 'body'), 'S.body_list:erase(%s)' % bad(s, 'body'), 'S.body_list={}', 'S.body_list.x=1', 'S.body_list:insert()']))
        elif k <= 14:   # lists of particles
            f = s.pick(LI); l = w.li[f]; m = s.draw(9)
            o = lambda: [val(s) for _ in range(3)]
            if s.flip(0.1):
                v = [o() for _ in range(s.range(0, 5))]; n = 'l%d' % len(w.files)
                if s.flip(): w.files[n] = ''.join('%r %r %r\n' % tuple(x) for x in v).encode(); w.p('S.%s:load(%s)' % (f, lua_str(n)))
                else: w.files[n] = b''.join(struct.pack('<3d', *x) for x in v); w.p('S.%s:load_bin(%s)' % (f, lua_str(n)))
                l.extend(v); s.label('list from a file')
            elif s.flip(0.03): w.refuse('S.%s:%s("none")' % (f, s.pick(['load', 'load_bin'])), 'can not load')
            elif m <= 1:
                v = [o() for _ in range(s.range(1, 3) if s.flip(0.8) else s.range(4, 30))]; w.p('S.%s:append(%s)' % (f, ','.join('{%s,%s,%s}' % tuple(map(num, x)) for x in v))); l.extend(v)
            elif m == 2:
                g = s.pick(LI)
                if w.li[g]:
                    i = s.draw(len(w.li[g])); w.p('S.%s:append(S.%s[%d])' % (f, g, i+1)); l.append(list(w.li[g][i]))
            elif m == 3 and l:
                i = s.draw(len(l)); v = val(s); j = s.draw(4)
                if j == 3: w.p('S.%s[%d].r={%s,1}' % (f, i+1, num(v))); l[i][0] = v; l[i][1] = 1.0
                else: w.p('local o=S.%s[%d] o.%s=%s' % (f, i+1, ['r.x', 'r.y', 'g'][j], num(v))); l[i][j] = v
            elif m == 4: w.p('return #S.%s,S.%s:totable()' % (f, f), len(l), [list(x) for x in l])
            elif m == 5: w.p('local o={} for i,x in ipairs(S.%s) do o[i]={x.r.x,x.r.y,x.g} end return o' % f, [list(x) for x in l])
            elif m == 6: w.p('return S.%s[%s]' % (f, s.pick(['0', '-1', str(len(l)+1), '1e9', '"foo"'])), None)
            elif m == 7 and s.flip(0.3): w.p('S.%s:clear()' % f); l.clear()
            else: w.refuse(s.pick(['S.%s[1]={1,2,3}' % f, 'S.%s={}' % f, 'S.%s:append(%s%s)' % (f, ''.join('{%d,2,3},' % i for i in range(s.sized(0, 4))), bad(s, 'obj')), 'S.%s.x=1' % f, 'S.%s:append(nil)' % f] + (['S.%s[1].g=%s' % (f, bad(s, 'number')), 'S.%s[1].r=%s' % (f, bad(s, 'vec')), 'S.%s[1].z=1' % f] if l else [])))
        elif k == 15:
            f = s.pick(['re', 'finish', 'inf_g']); m = s.draw(3)
            if m == 0: v = val(s); w.p('S.%s=%s' % (f, num(v))); w.sc[f] = v
            elif m == 1: w.refuse('S.%s=%s' % (f, bad(s, 'number')), f)
            else: w.p('return S.%s' % f, w.sc[f])
        elif k == 16:
            f = s.pick(TT); m = s.draw(4)
            if m == 0: v, t = s.range(-50, 50), s.pick([1, 2, 3, 7, 10, 64, 1000]); w.p('S.%s=%s' % (f, s.pick(['{%d,%d}', '"%d/%d"', '" %d/%d"']) % (v, t))); w.tt[f] = (v, t)
            elif m == 1: v = s.range(-500, 500); w.p('S.%s=%s' % (f, num(v/100))); w.tt[f] = (v, 100)
            elif m == 2: w.refuse('S.%s=%s' % (f, bad(s, 'time')), f)
            else: w.p('return S.%s' % f, w.tt[f][0]/w.tt[f][1])
        elif k == 17:
            m = s.draw(6); g = w.gravity
            if m == 0: v = [val(s), val(s)]; w.p('S.gravity={%s,%s}' % (num(v[0]), num(v[1]))); g[:] = v
            elif m == 1: v = val(s); i = s.draw(2); w.p('local g=S.gravity g.%s=%s' % ('xy'[i], num(v))); g[i] = v
            elif m == 2: w.refuse(s.pick(['S.gravity=%s' % bad(s, 'vec'), 'S.gravity.x=%s' % bad(s, 'number'), 'S.gravity.z=1']))
            elif m == 3: w.p('local g=S.gravity return g.x,g.y,g:totable()', g[0], g[1], list(g))
            elif m == 4:
                big = any(not math.isfinite(x) or abs(x) > 1e150 or 0 < abs(x) < 1e-150 for x in g)
                if not big: w.p('return S.gravity:abs2(),S.gravity:abs()', Near(g[0]**2+g[1]**2, g[0]**2+g[1]**2), Near(math.hypot(*g), math.hypot(*g)))
            elif r: f = s.pick(V3); w.p('S.gravity=%s.%s.r' % (r[0], f)); g[:] = r[1].v3[f][:2]
        elif k == 18:
            f = s.pick(['inf_vx', 'inf_vy']); m = s.draw(5)
            if m == 0: v = s.pick(EXPR)[0]; w.p('S.%s=%s' % (f, lua_str(v))); w.ev[f] = v
            elif m == 1: w.refuse('S.%s=%s' % (f, bad(s, 'expr')), f)
            elif m == 2: w.p('return tostring(S.%s)' % f, w.ev[f])
            elif m == 3: g = [x for x in EXPR if x[0] == w.ev[f]]; t = s.short(-5, 5); w.p('return S.%s:eval(%s)' % (f, num(t)), g[0][1](t) if g else 0.0)
            elif r: g = s.pick(EV); w.p('S.%s=%s.%s' % (f, r[0], g)); w.ev[f] = r[1].ev[g]
        else:
            m = s.draw(4)
            if m == 0: v = w.text(); w.p('%sS.caption=%s' % (w.before('S.caption'), lua_str(v))); w.sc['caption'] = v
            elif m == 1: w.p('return S.caption', w.sc['caption'])
            elif m == 2: w.refuse(s.pick(['S.caption=%s' % bad(s, 'string'), 'S.foo=1', 'S[1]=1', 'S.vort=1', 'S.Re=5']))
            else: w.p('return S.%s' % s.pick(['foo', 'Re', 'bodies', 'vort']), None)
def model(s):
    w = World(s)
    for i in range(1, 3):
        n = s.pick([3, 4, 6]); w.lines.append('h%d=gen_cylinder{R=1,N=%d}' % (i, n)); w.h[i] = Body([(math.cos(2*math.pi*(1-j/n)), math.sin(2*math.pi*(1-j/n))) for j in range(n)]); w.h[i].exact = False
    if s.flip(0.2):   # a longer list to begin with
        for i in range(1, s.range(3, 5)+1):
            w.lines.append('h%d=gen_cylinder{R=1,N=4} S.body_list:insert(h%d)' % (i, i)); w.h[i] = Body([(math.cos(2*math.pi*(1-j/4)), math.sin(2*math.pi*(1-j/4))) for j in range(4)]); w.h[i].exact = False; w.bl.append(w.h[i])
    n = s.sized(1, 60)
    for _ in range(n): w.step()
    d = pbt.scratch()
    illegal = w.illegal()
    w.lines.append('collectgarbage() collectgarbage()')
    if illegal: w.refuse('S:save("a.h5")')
    else: w.p('S:save("a.h5")')
    with open(d+'/s.lua', 'wb') as f: f.write((PRE+'\n'.join(w.lines)+'\n').encode())
    for f, b in w.files.items():
        with open(d+'/'+f, 'wb') as o: o.write(b)
    s.describe(' '.join(x for x in w.lines)[:1500]); s.label('refusals' if w.nbad else 'no refusal'); s.nontrivial(len(w.want) > 5)
    r = run(['vvflow', 's.lua'], d)
    check(r.rc == 0 and (r.err == '' or r.err.startswith('HDF5-DIAG') and w.nbad), 'exit', 'run: %r', r)
    out = r.out.split('\n')[:-1]
    check(len(out) == len(w.want), 'lines', '%d lines, %d expected: %r', len(out), len(w.want), r)
    for i, (o, (code, want)) in enumerate(zip(out, w.want)):
        if want and isinstance(want[0], Err):
            check(o.startswith('E'), 'accepted', 'operation %d: %s accepted', i, code)
            check(want[0].has in o, 'message', 'operation %d: %s: message lacks %r: %s', i, code, want[0].has, o)
            continue
        check(o.startswith('V'), 'refused', 'operation %d: %s refused: %s', i, code, o)
        got = [parse(x) for x in o[2:].split(' ')] if o[2:] else []
        check(agree(got, list(want)), 'value', 'operation %d: %s gives %s, expected %s', i, code, got, show(list(want)))
    # the snapshot holds the same; nothing is written when a body is refused
    check(os.path.exists(d+'/a.h5') != illegal, 'saved', 'refused %r, file there %r', illegal, os.path.exists(d+'/a.h5'))
    if illegal: s.label('save refused'); return
    a = h5(d+'/a.h5'); root = a['/']
    for m, z in [('re', 're'), ('finish', 'time_to_finish'), ('inf_g', 'inf_circulation')]: check(pbt.same(root[z], w.sc[m]), 'saved', '%s is %r, expected %r', z, root[z], w.sc[m])
    for m in TT: check(root[m]['value']*w.tt[m][1] == root[m]['timescale']*w.tt[m][0], 'saved', '%s is %s, expected %s', m, root[m], w.tt[m])
    check(len([k for k in a if k.startswith('body')]) == len(w.bl), 'saved', '%d bodies, expected %d', len([k for k in a if k.startswith('body')]), len(w.bl))
    for i, b in enumerate(w.bl):
        at = a['body%02d' % i]['attrs']
        check(pbt.same(at['density'], b.sc['density']) and at['special_segment_no'] == b.sc['special_segment'], 'saved', 'body %d: %s', i, at)
        check(all(pbt.same(float(at['speed_slae'][c]), x) for c, x in zip('xyo', b.v3['speed'])), 'saved', 'body %d speed %s, expected %s', i, at['speed_slae'], b.v3['speed'])
        rt = w.rootof(b); ix = next((j for j, x in enumerate(w.bl) if x is rt), None)
        want = 'body%02d' % ix if ix is not None else None
        check(at.get('root_body') == want, 'saved', 'body %d root %r, expected %r', i, at.get('root_body'), want)
sys.exit(pbt.main('C08', [pbt.Sub('model', 6000, 60000, model)]))
