"""Random small problems as vvflow scripts (for the checks of whole runs)."""
import math
from pbt import num, lua_str

def shape(s, seg=12, kinds=None):
    """(lua constructor, radius of a disc around its origin holding it)"""
    k = s.pick(kinds or ['cyl', 'ell', 'par', 'semi', 'plate'])
    R = s.short(0.3, 0.7)
    if k == 'cyl': return 'gen_cylinder{R=%s,N=%d}' % (num(R), s.range(5, seg)), R, 'cylinder'
    if k == 'ell':
        ry = round(R*s.short(0.7, 1), 3)
        return 'gen_ellipse{Rx=%s,Ry=%s,N=%d}' % (num(R), num(ry), s.range(18, max(seg, 22))), R, 'ellipse'
    if k == 'par': return 'gen_parallelogram{L=%s,H=%s,d=%s,N=%d}' % (num(R), num(round(R*s.short(0.5, 1), 3)), num(s.range(60, 120)), s.range(8, seg)), 2.2*R, 'parallelogram'
    if k == 'semi': return 'gen_semicyl{R=%s,N=%d}' % (num(R), s.range(8, seg)), R, 'semicyl'
    return 'gen_plate{R1=%s,R2=%s,L=%s,N=%d}' % (num(round(R*0.3, 3)), num(round(R*0.2, 3)), num(R), s.range(8, seg)), 1.3*R, 'plate'

def expr(s, amp=1.0):
    k = s.draw(6); a = s.short(-amp, amp)
    if k == 0: return num(a)
    if k == 1: return '%s*sin(%s*t)' % (num(a), num(s.short(0.5, 4, 1)))
    if k == 2: return '%s*cos(3*t)+%s' % (num(a), num(s.short(-0.3, 0.3)))
    if k == 3: return '%s*t' % num(a)
    if k == 4: return '%s*exp(-t)' % num(a)
    return '0'

class Problem:
    """lines: everything but caption, time, dt, schedule and finish"""
    def __init__(p): p.lines, p.nbodies, p.viscous, p.labels, p.reach = [], 0, False, set(), 0.0
    def lua(p): return '\n'.join(p.lines)+'\n'

def generate(s, maxbodies=3, motion=True, springs=True, links=True, viscous=None, streaks=True, sinks=True, vort=True, seg=12, slip=True, kinds=None, minbodies=0, stops=False):
    p = Problem(); L = p.lines
    p.viscous = s.flip(0.5) if viscous is None else viscous
    if p.viscous: L.append('S.re=%s' % num(s.pick([100, 30, 400, 1000])))
    L.append('S.inf_vx=%s' % lua_str(s.pick(['1', '0', 'cos(2*t)', '1+0.3*sin(t)'])))
    if s.flip(0.4): L.append('S.inf_vy=%s' % lua_str(expr(s, 0.5)))
    if s.flip(0.2): L.append('S.inf_g=%s' % num(s.short(-1, 1)))
    if s.flip(0.4): L.append('S.gravity={%s,%s}' % (num(s.short(-1, 1)), num(s.short(-1, 1))))
    n = p.nbodies = max(minbodies, s.draw(maxbodies+1) if not minbodies else s.range(minbodies, maxbodies))
    if n: L.append('local b,B={}')
    spots = [(0, 0), (2.2, 0.4), (-0.5, 2.3), (1.8, -2.1), (-2.4, -0.7)]
    for i in range(n):
        c, R, lab = shape(s, seg, kinds)
        p.labels.add(lab)
        L.append('b[%d]=%s' % (i+1, c)) if False else L.append(('local b%d=' % (i+1))+c)
        v = 'b%d' % (i+1)
        x, y = spots[i]; x += s.short(-0.1, 0.1); y += s.short(-0.1, 0.1)
        L.append('%s:move_r{%s,%s}' % (v, num(x), num(y)))
        if s.flip(0.3): L.append('%s:move_o(%s)' % (v, num(s.short(-3, 3))))
        if s.flip(0.3): L.append('%s.label=%s' % (v, lua_str('body%c' % (65+i))))
        if motion and s.flip(0.5):
            p.labels.add('moving')
            for m in ('vx', 'vy', 'vo'):
                if s.flip(0.4): L.append('%s.holder_%s=%s' % (v, m, lua_str(expr(s, 0.4))))
        if springs and s.flip(0.4):
            p.labels.add('springs')
            f = lambda lo, hi: num(s.short(lo, hi))
            inf = lambda lo, hi: 'inf' if s.flip(0.4) else f(lo, hi)
            L.append('%s.spring_const={%s,%s,%s}' % (v, inf(0, 30), inf(0, 30), inf(0, 30)))
            L.append('%s.spring_damping={%s,%s,%s}' % (v, f(0, 3), f(0, 3), f(0, 3)))
            if s.flip(0.4): L.append('%s.delta_pos={%s,%s,%s}' % (v, f(-0.1, 0.1), f(-0.1, 0.1), f(-0.3, 0.3)))
            if s.flip(0.4): L.append('%s.speed={%s,%s,%s}' % (v, f(-0.3, 0.3), f(-0.3, 0.3), f(-0.3, 0.3)))
            L.append('%s.density=%s' % (v, num(s.pick([1, 2, 5, 1.5, 0.8]))))
            if stops and s.flip():   # stops, near enough to be reached
                p.labels.add('stops'); f = lambda: num(s.pick([0.002, 0.01, 0.03, 0.1])) if s.flip(0.8) else 'inf'
                L.append('%s.collision_min={-%s,-%s,-%s} %s.collision_max={%s,%s,%s} %s.bounce=%s' % (v, f(), f(), f(), v, f(), f(), f(), v, num(s.pick([0, 0.5, 1]))))
        if slip and s.flip(0.15): L.append('%s.slip=true' % v); p.labels.add('slip')
        if s.flip(0.1): L.append('%s.special_segment=%d' % (v, s.range(0, 4)))
        if links and i and s.flip(0.25): L.append('%s.root=b%d' % (v, s.range(1, i))); p.labels.add('linked')
        L.append('S.body_list:insert(%s)' % v)
    if vort and s.flip(0.5):
        m = s.range(1, 12); p.labels.add('vortices')
        for _ in range(m): L.append('S.vort_list:append({%s,%s,%s})' % (num(s.fine(3.2, 5.5)), num(s.fine(-2, 2)), num(s.short(-0.4, 0.4))))
    if sinks and s.flip(0.2):
        p.labels.add('sinks')
        for _ in range(s.range(1, 2)): L.append('S.sink_list:append({%s,%s,%s})' % (num(s.fine(-5, -3.5)), num(s.fine(-2, 2)), num(s.short(-0.5, 0.5))))
    if streaks and s.flip(0.3):
        p.labels.add('streaks')
        L.append('S.streak_source_list:append({%s,%s,0})' % (num(s.fine(-3.4, -3.0)), num(s.fine(-2, 2))))
        if s.flip(): L.append('S.streak_domain_list:append({%s,%s,0})' % (num(s.fine(3.0, 5)), num(s.fine(-2, 2))))
        L.append('S.dt_streak="%d/%d"' % (s.pick([1, 1, 3]), s.pick([10, 5, 20])))
    return p
