"""C13: keyframe look-up (any number of keyframes) and constant / linear interpolation."""
from fractions import Fraction
import z3

from .fixed import SymZ, SymR, SymSeq, LoopSpec, land, lor, lnot, mkbool, zt

CONST, LINEAR, BEZIER, CUBIC = 2, 3, 5, 6


class Point:
    def __init__(self, time, value, idx=None):
        self.time, self.value, self.idx = time, value, idx

    @property
    def tangents(self):
        raise AssertionError('tangents')


def clip(e, points, kind, cls=None):
    c = (cls or e.components.ParamClip).__new__(cls or e.components.ParamClip, root=None)
    c.property_data['control_points'] = points
    c.property_data['interp_kind'] = kind
    return c


class Curve:
    """n >= 1 keyframes; TIME, VAL uninterpreted"""

    def __init__(self, x):
        self.TIME = z3.Function('TIME', z3.IntSort(), z3.RealSort())
        self.VAL = z3.Function('VAL', z3.IntSort(), z3.RealSort())
        self.points = x.seq('n', lambda i: Point(SymR(self.TIME(zt(i))), SymR(self.VAL(zt(i))), i))
        self.n = self.points.n

    def answer(self, r, t):
        """r is the last keyframe at or before t (0 if there is none): with keyframes in time order it suffices that the
        next one is later"""
        T = self.TIME
        return land(r >= 0, r < self.n, mkbool(z3.Or(zt(r) == 0, T(zt(r)) <= t.t)),
                    mkbool(z3.Or(zt(r) == zt(self.n) - 1, T(zt(r) + 1) > t.t)))


def lookup(x, e):
    x.exact = True
    c = Curve(x)
    x.assume(c.n > 0)
    t = x.real('t')
    x.assume(lor(c.n == 1, SymR(c.TIME(0)) <= SymR(c.TIME(1))))       # keyframes in time order (the instance needed)

    def inv(x, v):
        s, d, n, T = zt(v.start), zt(v.end), zt(c.n), c.TIME
        return [mkbool(z3.And(s >= 0, d <= n - 1, s <= d + 1)), mkbool(z3.Or(s == 0, T(s - 1) <= t.t)),
                mkbool(z3.Or(d == n - 1, T(d + 1) > t.t))]
    x.loops = {'ParamClip.nearest_index#0': LoopSpec(
        {'start': lambda x: SymZ(x.fresh_int('start')), 'end': lambda x: SymZ(x.fresh_int('end'))}, inv,
        variant=lambda x, v: v.end - v.start + 1)}
    x.check(c.answer(clip(e, c.points, LINEAR).nearest_index(t), t), 'the last keyframe at or before the time, or the first')


def lookup_empty(x, e):
    x.exact = True
    for f in ('nearest_index', 'value_at'):
        try:
            getattr(clip(e, [], CONST), f)(x.real('t'))
        except ValueError:
            continue
        x.fail('%s without keyframes is refused' % f)


def value(kind):
    def prop(x, e):
        x.exact = True
        n, I = x.integer('n'), x.integer('I')
        t, t1, t2, v1, v2 = (x.real(k) for k in ('t', 't1', 't2', 'v1', 'v2'))
        # contract of nearest_index for keyframes in time order
        x.assume(land(I >= 0, I < n))
        x.assume(lor(I == 0, t1 <= t))
        x.assume(lor(I == n - 1, land(t2 > t, t1 <= t2)))

        def at(i):
            if x.branch(zt(i) == zt(I)):
                return Point(t1, v1)
            if x.branch(zt(i) == zt(I) + 1):
                return Point(t2, v2)
            k = str(zt(i))
            return Point(x.real('t_' + k), x.real('v_' + k))

        class C(e.components.ParamClip):
            __slots__ = ()

            def nearest_index(self, u):
                x.check(u == t, 'the time asked for is looked up')
                return I
        got = clip(e, SymSeq(n, at), kind, C)
        if bool(t < t1):                     # then I == 0: before the first keyframe
            x.check(got.value_at(t) == v1, 'the first value before the first keyframe')
        elif bool(I == n - 1):
            x.check(got.value_at(t) == v1, 'the last value from the last keyframe on')
        elif kind == CONST:
            x.check(got.value_at(t) == v1, 'a constant curve keeps the value of the keyframe before')
        elif kind == LINEAR:
            r = got.value_at(t)
            if bool(t == t1):
                x.check(r == v1, 'the value of the keyframe at its time')
            x.check((r - v1) * (t2 - t1) == (v2 - v1) * (t - t1), 'a linear curve lies on the straight line')
    return prop


def point_time(x, e):
    x.exact = True
    P = e.components.ParamControlPoint
    p = P.__new__(P, root=None)
    num, den, ts = x.integer('num'), x.integer('den'), x.integer('ts')
    p.property_data['offset'] = [num, den]
    p.property_data['timescale'] = ts
    if bool(lor(den == 0, ts == 0)):
        try:
            p.time
        except ValueError:
            return
        x.fail('a zero denominator or time scale is refused')
    r = p.time
    x.check(r * den == SymR(z3.ToReal(zt(num))) * ts, 'the time of a keyframe is offset * timescale')


def lerp(x, e):
    x.exact = True
    a, b, t = x.real('a'), x.real('b'), x.real('t')
    x.check(e.interpolation.lerp(a, b, t) == a + t * (b - a), 'lerp')


# ------------------------------------------------------------------ real objects (concrete, or few keyframes)

def c_point(x, e):
    x.exact = True
    P = e.components.ParamControlPoint
    p = P.__new__(P, root=None)
    num = x.integer('num', lambda r: r.randrange(-2 ** 31, 2 ** 31))
    den = x.integer('den', lambda r: r.choice([0, 1, 24, 30000, -1, r.randrange(1, 2 ** 31)]))
    ts = x.integer('ts', lambda r: r.choice([0, 1, 1, 1001, -2]))
    p.property_data['offset'] = [num, den]
    p.property_data['timescale'] = ts
    if bool(lor(den == 0, ts == 0)):
        try:
            p.time
        except ValueError:
            return
        x.fail('a zero denominator or time scale is refused')
    if x.symbolic:
        x.check(p.time * den == SymR(z3.ToReal(zt(num))) * ts, 'the time of a keyframe is offset * timescale')
    else:
        w = Fraction(num, den) * ts
        x.check(abs(Fraction(p.time) - w) <= abs(w) / 10 ** 12, 'the time of a keyframe is offset * timescale')


def keyframes(x, e):
    """few symbolic keyframes, or many concrete ones, in time order"""
    n = x.count('n', 2, 9) + 1
    if x.symbolic or x.m is not None:
        ts = [x.real('t%d' % i) for i in range(n)]
        vs = [x.real('v%d' % i) for i in range(n)]
        for a, b in zip(ts, ts[1:]):
            x.assume(a <= b)
        return [Point(t, v) for t, v in zip(ts, vs)]
    r = x.rng
    P = e.components.ParamControlPoint
    out = []
    isint = r.random() < .4
    for i in range(n):
        p = P.__new__(P, root=None)
        p.property_data['offset'] = [r.randrange(-20, 60) * r.choice([1, 1, 7]), r.choice([1, 1, 1, 2, 4, 8, 30])]
        p.property_data['timescale'] = r.choice([1, 1, 1, 2])
        p.property_data['value'] = r.randrange(-100, 100) if isint else r.choice([r.random() * 100, -2.5, 0.0, r.randrange(-9, 9) / 8])
        p.property_data['pp'] = []
        out.append(p)
    out.sort(key=lambda p: p.time)
    x.note('keyframes', [(p.time, p.value) for p in out])
    return out


def c_curve(kinds, look):
    def prop(x, e):
        x.exact = True
        ps = keyframes(x, e)
        if x.symbolic or x.m is not None:
            ts = [x.real('t')]
        else:
            r = x.rng
            ts = [p.time for p in ps] + [p.time + d for p in ps for d in (.25, -.25)] + [
                (a.time + b.time) / 2 for a, b in zip(ps, ps[1:])] + [r.uniform(-30, 80) for _ in range(3)]
        kind = x.choose('kind', kinds)
        c = clip(e, ps, kind)
        for t in ts:
            r = 0
            for i in range(len(ps)):
                if bool(ps[i].time <= t):
                    r = i
            if look:
                x.check(c.nearest_index(t) == r, 'the last keyframe at or before the time, or the first')
                continue
            v1 = ps[r].value
            if bool(t < ps[r].time) or r == len(ps) - 1 or kind == CONST:
                x.check(c.value_at(t) == v1, 'the value of the keyframe before (the end ones outside their range)')
                continue
            if kind != LINEAR:
                continue
            got, t1, t2, v2 = c.value_at(t), ps[r].time, ps[r + 1].time, ps[r + 1].value
            if bool(t == t1):
                x.check(got == v1, 'the value of the keyframe at its time')
            if x.symbolic:
                x.check((got - v1) * (t2 - t1) == (v2 - v1) * (t - t1), 'a linear curve lies on the straight line')
            else:
                t, t1, t2, v1, v2 = (Fraction(k) for k in (t, t1, t2, v1, v2))
                w = v1 + (v2 - v1) * (t - t1) / (t2 - t1)
                x.check(abs(Fraction(got) - w) <= (abs(v1) + abs(v2)) / 10 ** 9, 'a linear curve lies on the straight line')
    return prop


def c_lerp(x, e):
    x.exact = True
    a, b, t = (x.real(k, lambda r: r.uniform(-9, 9)) for k in 'abt')
    d = e.interpolation.lerp(a, b, t) - (a * (1 - t) + b * t)
    x.check(land(d < 1e-9, d > -1e-9), 'lerp')


PROPS = [('ParamClip.nearest_index', lookup, c_curve([LINEAR], True)),
         ('ParamClip without keyframes', lookup_empty),
         ('ParamClip.value_at constant', value(CONST), c_curve([CONST], False)),
         ('ParamClip.value_at linear', value(LINEAR), c_curve([LINEAR], False)),
         ('ParamClip.value_at outside bezier', value(BEZIER), c_curve([BEZIER], False)),
         ('ParamClip.value_at outside cubic', value(CUBIC), c_curve([CUBIC], False)),
         ('ParamControlPoint.time', point_time, c_point),
         ('lerp', lerp, c_lerp)]
