"""C12: Sequence.length, positions, nearest_index_at_time, nearest_component_at_time for sequences of any length.

A component is known only by its class id and its length, which are uninterpreted functions of its index, so the proofs
cover every list of components.  POS(k) is the running total before component k, LAST(k) the last non-empty component
before k."""
import z3

from .fixed import SymZ, SymBuf, SymSeq, LoopSpec, Infeasible, land, lor, lnot, implies, mkbool, mkz, zt

TNFX = int.from_bytes(b'TNFX', 'big')
END = object()


class Item:
    """a component: only its class id and length can be observed"""

    def __init__(self, class_id, length, idx):
        self.class_id, self.length, self.idx = class_id, length, idx


class Model:
    """n components; CID, LEN uninterpreted; POS, LAST defined by recursion (unfolded at the terms where it is needed)"""

    def __init__(self, x):
        self.x = x
        self.CID = z3.Function('CID', z3.IntSort(), z3.BitVecSort(32))
        self.LEN = z3.Function('LEN', z3.IntSort(), z3.IntSort())
        self.POS = z3.Function('POS', z3.IntSort(), z3.IntSort())
        self.LAST = z3.Function('LAST', z3.IntSort(), z3.IntSort())
        self.NONE = z3.Function('NONE', z3.IntSort(), z3.BoolSort())
        x.assume_t(self.POS(0) == 0)
        x.assume_t(self.LAST(0) == -1)
        x.assume_t(self.NONE(0))
        self.comps = x.seq('n', self.comp)
        self.n = self.comps.n

    def comp(self, i):
        i = zt(i)
        c = self.CID(i)
        return Item(SymBuf([z3.Extract(31 - 8 * j, 24 - 8 * j, c) for j in range(4)]), SymZ(self.LEN(i)), SymZ(i))

    def tn(self, i):
        return self.CID(i) == TNFX

    def start(self, i):
        return z3.If(self.tn(i), self.POS(i) - self.LEN(i), self.POS(i))

    def stop(self, i, t):
        """component i decides the look-up of time t, none before it did"""
        s = self.start(i)
        return z3.And(self.LEN(i) != 0, z3.Or(self.inside(i, t), z3.And(self.LAST(i) >= 0, s >= t)))

    def inside(self, i, t):
        s = self.start(i)
        return z3.And(self.tn(i), s <= t, t < s + self.LEN(i))

    def unfold(self, k, t=None):
        a = self.x.assume_t
        a(self.POS(k + 1) == z3.If(self.tn(k), self.POS(k) - self.LEN(k), self.POS(k) + self.LEN(k)))
        a(self.LAST(k + 1) == z3.If(self.LEN(k) != 0, k, self.LAST(k)))
        if t is not None:
            a(self.NONE(k + 1) == z3.And(self.NONE(k), z3.Not(self.stop(k, t))))


def B(t):
    return mkbool(t)


def make(e, comps, cls=None):
    s = (cls or e.components.Sequence).__new__(cls or e.components.Sequence, root=None)
    s.property_data['components'] = comps
    return s


def length(x, e):
    m = Model(x)

    def inv(x, v):
        if not isinstance(v.k, int):
            m.unfold(v.k.t)
        return [v.length == SymZ(m.POS(zt(v.k)))]
    x.loops = {'Sequence.length#0': LoopSpec({'length': lambda x: SymZ(x.fresh_int('length'))}, inv)}
    x.check(make(e, m.comps).length == SymZ(m.POS(zt(m.n))), 'length is the signed sum of the component lengths')


def positions(x, e):
    m = Model(x)
    g = {'done': 0}

    def inv(x, v):
        if not isinstance(v.k, int):
            m.unfold(v.k.t)
        return [v.length == SymZ(m.POS(zt(v.k))), g['done'] == v.k]

    def heap(x, k):
        g['done'] = k
    x.loops = {'Sequence.positions#0': LoopSpec({'length': lambda x: SymZ(x.fresh_int('length'))}, inv, heap=heap)}
    for t in make(e, m.comps).positions():
        i = g['done']
        x.check(i < m.n, 'no entry beyond the components')
        x.check(land(len(t) == 3, t[0] == i), 'entries carry their index in order')
        x.check(t[1] == mkz(m.start(zt(i))), 'position of a component')
        x.check(t[2].idx == i, 'entries carry their component')
        g['done'] = i + 1
    x.check(g['done'] == m.n, 'one entry for every component')


def nearest(x, e):
    m = Model(x)
    t = x.integer('t')

    class S(e.components.Sequence):
        __slots__ = ()

        def positions(self):            # contract of positions(), verified by the obligation 'positions'
            return SymSeq(m.n, lambda i: (i, mkz(m.start(zt(i))), m.comp(i)))

    def last_comp(x):
        j = x.fresh_int('last')
        if x.branch(z3.Bool('nolast')):
            return None
        return m.comp(SymZ(j))

    def inv(x, v):
        k = zt(v.k)
        if not isinstance(v.k, int):
            m.unfold(k, t.t)
        lk = SymZ(m.LAST(k))
        out = [B(m.NONE(k)), B(z3.And(m.LAST(k) >= -1, m.LAST(k) < k))]
        if v.last_component is None:
            return out + [lk == -1, v.last_index == 0, v.last_pos == 0]
        return out + [lk >= 0, v.last_component.idx == lk, v.last_index == lk, v.last_pos == mkz(m.start(lk.t))]
    x.loops = {'Sequence.nearest_index_at_time#0': LoopSpec(
        {'last_component': last_comp, 'last_index': lambda x: SymZ(x.fresh_int('li')), 'last_pos': lambda x: SymZ(x.fresh_int('lp'))}, inv)}
    i, p = make(e, m.comps, S).nearest_index_at_time(t)
    k = x.turn.k
    if x.branch(k < zt(m.n)):
        x.check(B(z3.And(m.NONE(k), m.stop(k, t.t))), 'returns early only at the first component that decides the look-up')
        if x.branch(m.inside(k, t.t)):
            x.check(land(i == SymZ(k), p == mkz(m.start(k))), 'the transition that contains the time')
        else:
            x.check(land(i == SymZ(m.LAST(k)), p == mkz(m.start(m.LAST(k)))), 'the component before the first one at or after the time')
    else:
        x.check(B(m.NONE(k)), 'no component decided the look-up')
        if x.branch(m.LAST(k) >= 0):
            x.check(land(i == SymZ(m.LAST(k)), p == mkz(m.start(m.LAST(k)))), 'the last non-empty component')
        else:
            x.check(land(i == 0, p == 0), '(0, 0) without non-empty component')


def nearest_component(x, e):
    m = Model(x)
    x.assume(m.n > 0)
    i, p, t = x.integer('i'), x.integer('p'), x.integer('t')
    x.assume(land(i >= 0, i < m.n))          # contract of nearest_index_at_time

    class S(e.components.Sequence):
        __slots__ = ()

        def nearest_index_at_time(self, edit_unit):
            x.check(edit_unit == t, 'the time asked for is looked up')
            return i, p
    c, q = make(e, m.comps, S).nearest_component_at_time(t)
    x.check(land(c.idx == i, q == p), 'the component with the index and position looked up')


# ------------------------------------------------------------------ the same on real objects (concrete, or few components)

def small_len(r):
    return r.choice([0, 0, 1, 2, 3, 5, r.randrange(0, 30), r.randrange(0, 30), r.getrandbits(31)])


def build(x, e):
    n = x.count('n', 3, 9)
    comps, lens, tns = [], [], []
    f = None if x.symbolic else e.avb.open()
    for i in range(n):
        kind = x.choose('kind%d' % i, ['clip', 'tnfx'] if x.symbolic or x.m is not None else ['clip', 'tnfx', 'fill', 'nested', 'selector'])
        v = x.integer('len%d' % i, small_len)
        if x.symbolic:
            c = Item(b'TNFX' if kind == 'tnfx' else b'SCLP', v, i)
        else:
            if kind == 'nested':
                c = f.create.Sequence()
                c.components = []
                for w in (v - v // 2, v // 2):
                    c.components.append(f.create.Filler())
                    c.components[-1].length = w
            else:
                c = getattr(f.create, dict(clip='SourceClip', tnfx='TransitionEffect', fill='Filler', selector='Selector')[kind])()
                c.length = v
        comps.append(c)
        lens.append(v)
        tns.append(kind == 'tnfx')
    if x.symbolic:
        return make(e, comps), comps, lens, tns
    s = f.create.Sequence()
    if x.choose('reflist', [False, True]):
        s.components = e.core.AVBRefList.__new__(e.core.AVBRefList, root=f, parent=s)
        s.components.extend(comps)
    else:
        s.components = comps
    return s, comps, lens, tns


def oracle(x, e):
    s, comps, lens, tns = build(x, e)
    total, starts = 0, []
    for v, tn in zip(lens, tns):
        if tn:
            total = total - v
            starts.append(total)
        else:
            starts.append(total)
            total = total + v
    return s, comps, lens, tns, starts, total


def s_length(x, e):
    s, comps, lens, tns, starts, total = oracle(x, e)
    x.check(s.length == total, 'length is the signed sum of the component lengths')


def s_positions(x, e):
    s, comps, lens, tns, starts, total = oracle(x, e)
    got = list(s.positions())
    x.check(len(got) == len(comps), 'one entry for every component')
    for i, t in enumerate(got):
        x.check(land(t[0] == i, t[1] == starts[i], t[2] is comps[i]), 'index, position and component of an entry')


def lookup(lens, tns, starts, t):
    last = None
    for i in range(len(lens)):
        if lens[i] == 0:
            continue
        if tns[i] and starts[i] <= t and t < starts[i] + lens[i]:
            return i, starts[i]
        if last is not None and starts[i] >= t:
            return last, starts[last]
        last = i
    return (0, 0) if last is None else (last, starts[last])


def times(x, starts, total):
    if x.symbolic or x.m is not None:
        return [x.integer('t')]
    ts = {-1, 0, 1, total, total - 1, total + 1, x.integer('t', lambda r: r.randrange(-5, 60))}
    for p in starts:
        ts |= {p, p - 1, p + 1}
    return sorted(ts)


def s_nearest(x, e):
    s, comps, lens, tns, starts, total = oracle(x, e)
    for t in times(x, starts, total):
        i, p = s.nearest_index_at_time(t)
        wi, wp = lookup(lens, tns, starts, t)
        x.check(land(i == wi, p == wp), 'looked up index and position')


def s_nearest_component(x, e):
    s, comps, lens, tns, starts, total = oracle(x, e)
    if not comps:
        return
    for t in times(x, starts, total):
        c, p = s.nearest_component_at_time(t)
        wi, wp = lookup(lens, tns, starts, t)
        x.check(land(c is comps[wi], p == wp), 'looked up component and position')


PROPS = [('Sequence.length', length, s_length), ('Sequence.positions', positions, s_positions),
         ('Sequence.nearest_index_at_time', nearest, s_nearest),
         ('Sequence.nearest_component_at_time', nearest_component, s_nearest_component)]
