"""C15: TrackGroup.dependant_mobs on any finite graph of mobs, cycles and missing mobs included.

Mobs are identified by their ids (integers here).  CH(m, j): the mob of source clip j of
mob m.  R is any set of mobs that contains the start and is closed under CH, K any transitive relation containing CH: what is proved for all such R and K
holds for reachability itself.  Sets, the stack and the mobs are ghost objects recording the operations of the real code."""
import itertools
import random
import z3

from .fixed import SymZ, Sym, SymSeq, LoopSpec, Unsupported, Infeasible, land, lor, lnot, mkbool, mkz, zt

I, BOOL = z3.IntSort(), z3.BoolSort()
SETS, INTS = z3.ArraySort(I, BOOL), z3.ArraySort(I, I)


class Ident(Sym):
    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return mkbool(self.t == o.t) if isinstance(o, Ident) else False

    def __ne__(self, o):
        return lnot(self.__eq__(o))


class Mob:
    """a mob of the bin; two of them are the same object if their ids are equal"""

    def __init__(self, t):
        self.t = t
        self.mob_id = Ident(t)

    def pyvc_same(a, b):
        return mkbool(a.t == b.t) if isinstance(b, Mob) else False


class Set(Sym):
    def __init__(self, arr, room=None):
        self.arr, self.room = arr, room

    def __contains__(self, k):
        return bool(mkbool(z3.Select(self.arr, k.t)))

    def add(self, k):
        if self.room is not None:
            from .fixed import CUR
            self.room = z3.If(z3.Select(self.arr, k.t), self.room, self.room - 1)
            CUR.x.assume_t(self.room >= 0)            # there are finitely many mobs
        self.arr = z3.Store(self.arr, k.t, True)


class Stack(Sym):
    """a list of mobs; last: ghost, the highest position of a mob (-1: not on the stack)"""

    def __init__(self, arr, n, last):
        self.arr, self.n, self.last = arr, n, last

    def __bool__(self):
        return bool(mkbool(self.n > 0))

    def __getitem__(self, i):
        if i != -1:
            raise Unsupported('stack[%r]' % (i,))
        if not self:
            raise IndexError('list index out of range')
        return Mob(z3.Select(self.arr, self.n - 1))

    def append(self, mob):
        self.arr = z3.Store(self.arr, self.n, mob.t)
        self.last = z3.Store(self.last, mob.t, self.n)
        self.n = z3.simplify(self.n + 1)

    def pop(self, i=-1):
        top = self[-1]
        if i != -1:
            raise Unsupported('stack.pop(%r)' % (i,))
        from .fixed import CUR
        x = CUR.x
        p = x.fresh_int('prev')                       # the highest position of the popped mob below the top
        n = self.n - 1
        j = z3.Int('j!')
        x.assume_t(z3.And(p >= -1, p < n, z3.Implies(p >= 0, z3.Select(self.arr, p) == top.t)))
        x.assume_t(z3.ForAll([j], z3.Implies(z3.And(j > p, j < n), z3.Select(self.arr, j) != top.t),
                             patterns=[z3.Select(self.arr, j)]))
        self.last = z3.Store(self.last, top.t, p)
        self.n = z3.simplify(n)
        return top


def listing(x, e):
    x.ex.quant = True
    NW = z3.Function('NW', I, I)
    CLIP = z3.Function('CLIP', I, I, BOOL)
    CH = z3.Function('CH', I, I, I)
    R = z3.Function('R', I, BOOL)
    K = z3.Function('K', I, I, BOOL)
    a, b, c, i, j = z3.Ints('a! b! c! i! j!')
    A = lambda vs, body, *pats: z3.ForAll(vs, body, patterns=list(pats)) if pats else z3.ForAll(vs, body)
    ax = x.assume_t
    S = z3.Int('self')
    ax(S >= 0)
    ax(A([a], NW(a) >= 0, NW(a)))

    def edge(a, j):
        return z3.And(j >= 0, j < NW(a), CLIP(a, j), CH(a, j) >= 0)
    ax(R(S))
    ax(A([a, j], z3.Implies(z3.And(R(a), edge(a, j)), R(CH(a, j))), CH(a, j)))
    ax(A([a, j], z3.Implies(edge(a, j), K(a, CH(a, j))), CH(a, j)))
    ax(A([a, b, c], z3.Implies(z3.And(K(a, b), K(b, c)), K(a, c)), z3.MultiPattern(K(a, b), K(b, c))))
    sel = z3.Select
    ghost = {'Y': z3.K(I, z3.BoolVal(False))}

    def setof(v):
        if isinstance(v, Set):
            return v.arr
        if isinstance(v, set) and not v:
            return z3.K(I, z3.BoolVal(False))
        raise Unsupported('set of mobs: %r' % (v,))

    def stackof(v):
        if isinstance(v, Stack):
            return v.arr, v.n, v.last
        if isinstance(v, list) and all(isinstance(m, Mob) for m in v):
            arr, last = z3.K(I, z3.IntVal(-5)), z3.K(I, z3.IntVal(-1))
            for p, m in enumerate(v):
                arr, last = z3.Store(arr, p, m.t), z3.Store(last, m.t, p)
            return arr, z3.IntVal(len(v)), last
        raise Unsupported('stack of mobs: %r' % (v,))

    def coherent(arr, n, last):
        return [n >= 0, sel(arr, -1) == -5, sel(last, -5) == -1,     # (nowhere: keeps the instantiation finite)
                A([i], z3.Implies(z3.And(i >= 0, i < n), sel(last, sel(arr, i)) >= i), sel(arr, i)),
                A([a], z3.And(sel(last, a) >= -1, z3.Implies(sel(last, a) >= 0, z3.And(sel(last, a) < n, sel(arr, sel(last, a)) == a))),
                  sel(last, a))]

    def outer(x, v):
        V, X = setof(v.visited), setof(v.expanded)
        arr, n, last = stackof(v.stack)
        Y = ghost['Y']
        grey = lambda m: z3.And(sel(X, m), z3.Not(sel(V, m)))
        out = coherent(arr, n, last)
        out += [A([i], z3.Implies(z3.And(i >= 0, i < n), R(sel(arr, i))), sel(arr, i)),
                A([a], z3.Implies(sel(V, a), sel(X, a))),
                A([a], z3.Implies(grey(a), sel(last, a) >= 0)),
                A([a, j], z3.Implies(z3.And(grey(a), edge(a, j)),
                                     z3.Or(sel(X, CH(a, j)), sel(last, CH(a, j)) > sel(last, a))), CH(a, j)),
                A([a, i], z3.Implies(z3.And(grey(a), sel(last, a) < i, i < n), K(a, sel(arr, i))),
                  z3.MultiPattern(sel(last, a), sel(arr, i))),
                A([a, j], z3.Implies(z3.And(sel(V, a), edge(a, j)), sel(X, CH(a, j))), CH(a, j)),
                z3.Or(sel(V, S), z3.And(n >= 1, sel(arr, 0) == S)),
                A([a], sel(Y, a) == z3.And(sel(V, a), a != S))]
        return [mkbool(t) for t in out]

    entry = {}

    def inner(x, v):
        X = setof(v.expanded)
        arr, n, last = stackof(v.stack)
        if v.phase == 'init':
            entry['arr'], entry['n'], entry['last'] = arr, n, last
        arr0, n0, last0 = entry['arr'], entry['n'], entry['last']
        m = v.mob.t
        k = zt(v.k)
        out = coherent(arr, n, last)
        out += [n >= n0,
                A([i], z3.Implies(z3.And(i >= 0, i < n0), sel(arr, i) == sel(arr0, i)), sel(arr, i)),
                A([i], z3.Implies(z3.And(i >= n0, i < n), z3.And(R(sel(arr, i)), K(m, sel(arr, i)), z3.Not(sel(X, sel(arr, i))))), sel(arr, i)),
                A([a], z3.Or(sel(last, a) == sel(last0, a), sel(last, a) >= n0), sel(last, a)),
                A([j], z3.Implies(z3.And(j >= 0, j < k, CLIP(m, j), CH(m, j) >= 0),
                                  z3.Or(sel(X, CH(m, j)), sel(last, CH(m, j)) >= n0)), CH(m, j)),
                (n == n0) == z3.BoolVal(v.children_processed) if isinstance(v.children_processed, bool) else
                (n == n0) == v.children_processed.t]
        return [mkbool(t) for t in out]

    class Clip(e.components.SourceClip):
        __slots__ = ()

        @property
        def mob(self):
            t = CH(*WHERE[id(self)][1])
            return None if x.branch(t < 0) else Mob(t)
    WHERE = {}

    def clip(m, k):
        if not x.branch(CLIP(m, k)):
            return object()
        o = Clip.__new__(Clip, root=None)
        WHERE[id(o)] = (o, (m, k))
        return o

    def walk(mob):
        if not isinstance(mob, Mob):
            raise Unsupported('walk_references(%r)' % (mob,))
        return SymSeq(SymZ(NW(mob.t)), lambda k: clip(mob.t, zt(k)))
    e.trackgroups.walk_references = walk

    def mkset(name, room=False):
        def f(x):
            x.n += 1
            r = x.fresh_int('room') if room else None
            if room:
                x.assume_t(r >= 0)
            return Set(z3.Const('%s!%d' % (name, x.n), SETS), r)
        return f

    def mkstack(x):
        x.n += 1
        return Stack(z3.Const('arr!%d' % x.n, INTS), x.fresh_int('len'), z3.Const('last!%d' % x.n, INTS))

    def heap(x, k):
        x.n += 1
        ghost['Y'] = z3.Const('Y!%d' % x.n, SETS)

    def cp(x):
        from .fixed import SymBool
        x.n += 1
        return SymBool(z3.Bool('cp!%d' % x.n))
    q = 'TrackGroup.dependant_mobs#'
    x.loops = {
        q + '0': LoopSpec({'visited': mkset('V'), 'expanded': mkset('X', True), 'stack': mkstack}, outer, heap=heap,
                          variant=lambda x, v: (mkz(v.expanded.room), mkz(v.stack.n))),
        q + '1': LoopSpec({'stack': mkstack, 'children_processed': cp}, inner)}
    for mob in e.trackgroups.TrackGroup.dependant_mobs(Mob(S)):
        y, Y = mob.t, ghost['Y']
        ck = lambda t, s: x.check(mkbool(t), s)
        ck(y != S, 'the mob itself is not listed')
        ck(z3.Not(sel(Y, y)), 'each mob is listed once')
        ck(R(y), 'only mobs reachable through source clips are listed')
        ck(A([j], z3.Implies(edge(y, j), z3.Or(sel(Y, CH(y, j)), CH(y, j) == S, K(CH(y, j), y))), CH(y, j)),
           'a mob follows all mobs it depends on (unless they depend on it)')
        ghost['Y'] = z3.Store(Y, y, True)
    Y = ghost['Y']
    x.check(mkbool(A([a, j], z3.Implies(z3.And(z3.Or(sel(Y, a), a == S), edge(a, j)), z3.Or(sel(Y, CH(a, j)), CH(a, j) == S)), CH(a, j))),
            'every reachable mob is listed')


def clip_mob(x, e):
    """SourceClip.mob: the bin's mob with the clip's mob id"""
    from types import SimpleNamespace as NS
    C = e.components.SourceClip
    found = object()
    asked = []

    def find(i):
        asked.append(i)
        return found
    c = C.__new__(C, root=NS(content=NS(find_by_mob_id=find)))
    x.check(c.mob is None and not asked, 'a clip without mob id has no mob')
    mid = Ident(z3.IntVal(7))
    c.property_data['mob_id'] = mid
    x.check(c.mob is found and len(asked) == 1 and asked[0] is mid, "the bin's mob with the mob id of the clip")


# ------------------------------------------------------------------ real mobs

def build(e, n, edges, missing=(), rng=None):
    f = e.avb.open()
    r = rng or random.Random(0)
    mobs = [f.create.Composition(mob_type=r.choice(['MasterMob', 'CompositionMob', 'SourceMob'])) for i in range(n)]
    for m in mobs:
        f.content.add_mob(m)
        m.usage_code = r.choice([0, 0, 1, 3])
    for i in range(n):
        refs = [mobs[b].mob_id for (a, b) in edges if a == i]
        for k in range(missing.count(i) if isinstance(missing, list) else int(i in missing)):
            refs.insert(r.randrange(len(refs) + 1), e.mobid.MobID.new() if r.random() < .7 else None)
        parts = []
        for ref in refs:
            c = f.create.SourceClip()
            c.track_id, c.start_time, c.length = r.choice([0, 0, 1, 2]), r.choice([0, 5]), r.choice([0, 10])
            c.media_kind = r.choice(['picture', 'sound', 'timecode'])
            if ref is not None:
                c.mob_id = ref
            place = r.random()
            if place < .2:
                t = f.create.Track()
                t.component = c
                c = f.create.Selector()
                c.tracks = [t]
            elif place < .3:
                q = f.create.Sequence()
                q.components = [c]
                c = q
            parts.append(c)
        while parts:
            k = r.randrange(1, len(parts) + 1)
            t = f.create.Track()
            if k == 1:
                t.component = parts[0]
            else:
                seq = f.create.Sequence()
                seq.components = parts[:k]
                t.component = seq
            del parts[:k]
            mobs[i].tracks.append(t)
    return f, mobs


def verify(e, x, n, edges, missing=(), order=None, rng=None):
    f, mobs = build(e, n, order or edges, missing, rng)
    reach = {i: set() for i in range(n)}
    for i in range(n):
        todo = [b for a, b in edges if a == i]
        while todo:
            k = todo.pop()
            if k not in reach[i]:
                reach[i].add(k)
                todo += [b for a, b in edges if a == k]
    for s in range(n):
        out = list(itertools.islice(mobs[s].dependant_mobs(), 3 * n + 5))
        got = [next((i for i in range(n) if mobs[i] is m), None) for m in out]
        what = 'mob %d of edges %s: %s' % (s, sorted(edges), got)
        x.check(len(got) == len(set(got)), 'each mob is listed once: ' + what)
        x.check(set(got) == reach[s] - {s}, 'exactly the other reachable mobs are listed: ' + what)
        for p, m in enumerate(got):
            for d in {b for a, b in edges if a == m} - {m, s}:
                x.check(d in got[:p] or m in reach[d], 'a mob follows all mobs it refers to: ' + what)


def c_random(x, e):
    r = x.rng
    n = r.randrange(1, 8)
    edges = {(r.randrange(n), r.randrange(n)) for _ in range(r.randrange(0, 2 * n + 2))}
    if r.random() < .5:
        edges = {(a, b) for a, b in edges if a < b}
    order = sorted(edges)
    r.shuffle(order)
    order += [r.choice(order)] if order and r.random() < .4 else []
    x.note('edges', order)
    verify(e, x, n, edges, [i for i in range(n) for k in range(2) if r.random() < .2], order, r)


def c_all3(x, e):
    """every graph of three mobs (loops included)"""
    pairs = [(a, b) for a in range(3) for b in range(3)]
    for bits in range(512):
        edges = [p for i, p in enumerate(pairs) if bits >> i & 1]
        verify(e, x, 3, edges)


def c_places(x, e):
    """source clips at every place of a mob are followed"""
    f = e.avb.open()
    cr = f.create
    m = cr.Composition(mob_type='CompositionMob')
    leaf = []

    def clip():
        d = cr.Composition(mob_type='MasterMob')
        f.content.add_mob(d)
        leaf.append(d)
        c = cr.SourceClip()
        c.mob_id = d.mob_id
        return c

    def track(component=None, filler=None):
        t = cr.Track()
        if component is not None:
            t.component = component
        if filler is not None:
            t.filler_proxy = filler
        return t
    f.content.add_mob(m)
    m.tracks.append(track(clip()))
    m.tracks.append(track(cr.Filler(), clip()))
    sel = cr.Selector()
    sel.tracks = [track(clip()), track(clip())]
    eff = cr.TrackEffect()
    eff.tracks = [track(clip())]
    seq = cr.Sequence()
    inner = cr.Sequence()
    inner.components = [cr.Filler(), clip()]
    seq.components = [clip(), sel, eff, inner, clip()]
    m.tracks.append(track(seq))
    got = list(itertools.islice(m.dependant_mobs(), 50))
    x.check(len(got) == len(leaf) and all(any(g is w for g in got) for w in leaf), 'clips in tracks, filler proxies, selectors, '
            'effects and nested sequences are followed')


PROPS = [('TrackGroup.dependant_mobs', listing, (c_random,)), ('SourceClip.mob', clip_mob, 'symbolic'),
         ('all graphs of 3 mobs', c_all3, 'once'), ('clips at every place', c_places, 'once')]
