"""C14: bin items, filters, add_mob and look-up by mob id, for bins with any number of items."""
import z3

from .fixed import SymZ, Sym, SymSeq, LoopSpec, Unsupported, land, lor, lnot, mkbool, zt

KINDS = {1: 'CompositionMob', 2: 'MasterMob', 3: 'SourceMob'}


class Ident(Sym):
    """a mob id: only compared for equality and used as a dictionary key"""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return mkbool(self.t == o.t) if isinstance(o, Ident) else False

    def __ne__(self, o):
        return lnot(self.__eq__(o))


class Map(Sym):
    """a dictionary from mob ids to mobs of the bin (by item index; -1: absent)"""

    def __init__(self, items, arr, empty):
        self.items, self.arr, self.empty = items, arr, empty

    def __bool__(self):
        return not bool(self.empty)

    def __setitem__(self, k, mob):
        self.arr = z3.Store(self.arr, k.t, zt(mob.idx))
        self.empty = False

    def get(self, k, default=None):
        i = SymZ(z3.Select(self.arr, k.t))
        return default if bool(i < 0) else self.items(i)

    def __contains__(self, k):
        return bool(SymZ(z3.Select(self.arr, k.t)) >= 0)

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return self.get(k)


class Items(SymSeq):
    """the items list: symbolic items plus appended ones"""
    __slots__ = ('appended',)

    def append(self, v):
        self.appended = getattr(self, 'appended', []) + [v]

    def __getattr__(self, n):
        if n == 'appended':
            raise AttributeError(n)
        raise Unsupported('items.%s' % n)


class Item:
    def __init__(self, mob):
        self.mob = mob


class Model:
    def __init__(self, x, e):
        self.x, self.e = x, e
        I, B = z3.IntSort(), z3.BitVecSort(256)
        self.ID = z3.Function('ID', I, B)
        self.TYPE = z3.Function('TYPE', I, I)
        self.USAGE = z3.Function('USAGE', I, I)
        self.items = Items(SymZ(z3.Int('n')), self.item)
        self.n = self.items.n
        x.assume(self.n >= 0)

    def mob(self, i):
        i = zt(i)
        C = self.e.trackgroups.Composition
        m = IdMob(C)
        pd = m.property_data
        pd['mob_type_id'], pd['usage_code'] = SymZ(self.TYPE(i)), SymZ(self.USAGE(i))
        pd['mob_id'] = Ident(self.ID(i))
        self.x.assume_t(z3.And(self.TYPE(i) >= 1, self.TYPE(i) <= 3))
        MOBIDX[id(m)] = (m, SymZ(i))
        return m

    def item(self, i):
        return Item(self.mob(i))

    def bin(self, cls=None, items=None):
        B = cls or self.e.bin.Bin
        b = B.__new__(B, root=None)
        b.property_data['items'] = self.items if items is None else items
        return b


MOBIDX = {}


def IdMob(C):
    return C.__new__(C, root=None)


def idx(m):
    return MOBIDX[id(m)][1]


def with_mobs(m):
    """a Bin whose mobs obey the contract of Bin.mobs (verified by its own obligation)"""
    class B(m.e.bin.Bin):
        __slots__ = ()

        @property
        def mobs(self):
            return SymSeq(m.n, m.mob)
    return B


def generic(lid, take, run, what):
    def prop(x, e):
        MOBIDX.clear()
        m = Model(x, e)
        g = {'k': None, 'out': 0}

        def inv(x, v):
            if v.phase == 'step':             # end of a turn: exactly the matching item was produced
                want = 1 if bool(take(m, g['k'])) else 0
                return [g['out'] == want]
            return []

        def heap(x, k):
            g['k'], g['out'] = k, 0
        x.loops = {lid: LoopSpec({}, inv, heap=heap)}
        seq = run(m)
        for mob in seq:
            k = g['k']
            x.check(k is not None and k < m.n, '%s: nothing beyond the items' % what)
            x.check(g['out'] == 0, '%s: each mob once' % what)
            x.check(take(m, k), '%s: only matching mobs' % what)
            x.check(idx(mob) == k, '%s: the mob of the item' % what)
            g['out'] += 1
        x.check(SymZ(x.turn.k) == m.n, '%s: goes through all items' % what)
    return prop


def mtype(m, k):
    return mkbool(m.TYPE(zt(k)) == 1)


gen_mobs = generic('Bin.mobs#0', lambda m, k: True, lambda m: m.bin().mobs, 'mobs')
gen_top = generic('Bin.toplevel#0', lambda m, k: land(mtype(m, k), mkbool(m.USAGE(zt(k)) == 0)),
                  lambda m: m.bin(with_mobs(m)).toplevel(), 'toplevel')
gen_comp = generic('Bin.compositionmobs#0', mtype, lambda m: m.bin(with_mobs(m)).compositionmobs(), 'compositionmobs')
gen_master = generic('Bin.mastermobs#0', lambda m, k: mkbool(m.TYPE(zt(k)) == 2),
                     lambda m: m.bin(with_mobs(m)).mastermobs(), 'mastermobs')


class Lookup:
    """q: the id looked up; LI(k): the last of the first k items with that id (-1: none)"""

    def __init__(self, m, q):
        self.m, self.q = m, q
        self.LI = z3.Function('LI', z3.IntSort(), z3.IntSort())
        m.x.assume_t(self.LI(0) == -1)

    def unfold(self, k):
        k = zt(k)
        self.m.x.assume_t(self.LI(k + 1) == z3.If(self.m.ID(k) == self.q.t, k, self.LI(k)))

    def at(self, k):
        return SymZ(self.LI(zt(k)))

    def lemma(self, k):
        k = zt(k)
        v = self.LI(k)
        return mkbool(z3.And(v >= -1, v < k, z3.Or(v == -1, self.m.ID(v) == self.q.t)))


def fresh_map(x, m, name, empty):
    return Map(lambda i: wrap(m, i), z3.Const(name, z3.ArraySort(z3.BitVecSort(256), z3.IntSort())), empty)


class Mob:
    """a mob as the cache sees it"""

    def __init__(self, idx, mob_id):
        self.idx, self.mob_id = idx, mob_id


def wrap(m, i):
    return Mob(i, Ident(m.ID(zt(i))))


def lemma_li(x, e):
    m = Model(x, e)
    L = Lookup(m, Ident(z3.BitVec('q', 256)))
    x.check(L.lemma(0), 'base')
    k = x.integer('k')
    x.assume(k >= 0)
    x.assume(L.lemma(k))
    L.unfold(k)
    x.check(L.lemma(k + 1), 'step')


def find(x, e):
    m = Model(x, e)
    q = Ident(z3.BitVec('q', 256))
    L = Lookup(m, q)
    empty = x.boolean('empty')
    cache = fresh_map(x, m, 'cache', empty)
    at = lambda: SymZ(z3.Select(cache.arr, q.t))
    # the invariant of a bin: its cache is empty or agrees with its items
    if bool(empty):
        cache.arr = z3.K(z3.BitVecSort(256), z3.IntVal(-1))
    else:
        x.assume(at() == L.at(m.n))

    class B(e.bin.Bin):
        __slots__ = ()

        @property
        def mobs(self):
            return SymSeq(m.n, lambda i: wrap(m, i))
    b = m.bin(B)
    b._mob_dict = cache

    def inv(x, v):
        if not isinstance(v.k, int):
            L.unfold(v.k)
        return [at() == L.at(v.k)]

    def heap(x, k):
        cache.arr = z3.Const('cache2', cache.arr.sort())
        cache.empty = x.boolean('empty2')
    x.loops = {'Bin.find_by_mob_id#0': LoopSpec({}, inv, heap=heap)}
    x.assume(L.lemma(m.n))             # proved by induction: obligation 'lemma last item with an id'
    r = b.find_by_mob_id(q)
    if bool(L.at(m.n) < 0):
        x.check(r is None, 'nothing is found if no item has the id')
    else:
        x.check(r is not None and land(r.idx == L.at(m.n), r.mob_id == q), 'the mob of an item with the id is found')
    x.check(b._mob_dict is cache and (at() == L.at(m.n)), 'the cache agrees with the items afterwards')


def add(x, e):
    m = Model(x, e)
    q = Ident(z3.BitVec('q', 256))
    L = Lookup(m, q)
    L.unfold(m.n)
    empty = x.boolean('empty')
    cache = fresh_map(x, m, 'cache', empty)
    at = lambda: SymZ(z3.Select(cache.arr, q.t))
    if not bool(empty):
        x.assume(at() == L.at(m.n))
    new = wrap(m, m.n)                # ID(n) is the id of the new mob
    b = m.bin()
    b._mob_dict = cache
    from types import SimpleNamespace as NS
    made = []

    class Create:
        def BinItem(self):
            B = e.bin.BinItem
            i = B.__new__(B, root=NS(reading=False))
            i.__init__()
            made.append(i)
            return i
    b.root = NS(create=Create(), reading=False)
    r = b.add_mob(new)
    x.check(len(made) == 1 and getattr(m.items, 'appended', None) == [made[0]] and r is made[0], 'exactly one item is appended and returned')
    x.check(b.property_data['items'] is m.items, 'the other items stay')
    x.check(r.mob is new, 'the item is for the mob')
    x.check((r.x, r.y, r.keyframe, r.user_placed) == (-30000, -30000, 0, True), 'default placement')
    x.check(lor(cache.empty, at() == L.at(m.n + 1)), 'the cache is empty or agrees with the items and the new one')


# ------------------------------------------------------------------ real bins

def c_bin(x, e):
    r = x.rng
    f = e.avb.open()
    b = f.content if r.random() < .6 else f.create.BinFirst() if r.random() < .5 else f.create.Bin()
    mobs = []
    probes = []

    def verify(when):
        x.check([i.mob for i in b.items] == mobs, 'items are those of the mobs added %s' % when)
        same(list(b.mobs), mobs, 'mobs ' + when)
        same(list(b.toplevel()), [m for m in mobs if m.mob_type_id == 1 and m.usage_code == 0], 'toplevel ' + when)
        same(list(b.compositionmobs()), [m for m in mobs if m.mob_type_id == 1], 'compositionmobs ' + when)
        same(list(b.mastermobs()), [m for m in mobs if m.mob_type_id == 2], 'mastermobs ' + when)

    def same(a, w, what):
        x.check(len(a) == len(w) and all(p is q for p, q in zip(a, w)), what)

    def look():
        for m in mobs:
            if r.random() < .7:
                i = m.mob_id if r.random() < .5 else e.mobid.MobID(bytes_le=bytearray(m.mob_id.bytes_le))
                x.check(b.find_by_mob_id(i) is m, 'a mob of the bin is found by its id')
        for i in probes:
            x.check(b.find_by_mob_id(i) is None, 'an id no mob of the bin has finds nothing')
    if r.random() < .3:
        probes.append(e.mobid.MobID.new())
        look()
    log = []
    for step in range(r.randrange(0, 9)):
        if r.random() < .7:
            kind = r.choice(list(KINDS.values()))
            m = f.create.Composition(mob_type=kind)
            m.usage_code = r.choice([0, 0, 0, 1, 2, 5, 14])
            if r.random() < .1:
                m.mob_id = e.mobid.MobID()
                if any(o.mob_id == m.mob_id for o in mobs):
                    continue
            if r.random() < .2:
                probes.append(m.mob_id)
                x.check(b.find_by_mob_id(m.mob_id) is None, 'not found before it is added')
                probes.pop()
            it = b.add_mob(m)
            mobs.append(m)
            log.append('add ' + kind)
            x.check(b.items[-1] is it and it.mob is m, 'one item is appended')
            x.check((it.x, it.y, it.keyframe, it.user_placed) == (-30000, -30000, 0, True), 'default placement')
        elif r.random() < .5:
            look()
            log.append('look')
        else:
            probes.append(e.mobid.MobID.new())
            verify('on the way')
    x.note('history', log)
    verify('at the end')
    look()
    if mobs and b is f.content and r.random() < .15:
        import os
        import tempfile
        d = tempfile.mkdtemp()
        try:
            p = os.path.join(d, 'x.avb')
            f.write(p)
            with e.avb.open(p) as g:
                b2 = g.content
                x.check([m.mob_id for m in b2.mobs] == [m.mob_id for m in mobs], 'mobs after reopening')
                for m in mobs:
                    got = b2.find_by_mob_id(m.mob_id)
                    x.check(got is not None and got.mob_id == m.mob_id, 'found after reopening')
                n = g.create.Composition(mob_type='MasterMob')
                b2.add_mob(n)
                x.check(b2.find_by_mob_id(n.mob_id) is n, 'added mob found after reopening')
                x.check(len(list(b2.mobs)) == len(mobs) + 1, 'mob count after reopening')
        finally:
            import shutil
            shutil.rmtree(d)


def small(name, take):
    """bins of few items, any mob type and usage code"""
    def prop(x, e):
        n = x.count('n', 3, 5)
        mobs = []
        for i in range(n):
            m = IdMob(e.trackgroups.Composition)
            t, u = x.integer('type%d' % i, lambda r: r.randrange(1, 4)), x.integer('usage%d' % i, lambda r: r.randrange(0, 99))
            x.assume(land(t >= 1, t <= 3))
            m.property_data['mob_type_id'], m.property_data['usage_code'] = t, u
            mobs.append(m)
        b = e.bin.Bin.__new__(e.bin.Bin, root=None)
        b.property_data['items'] = [Item(m) for m in mobs]
        want = [m for m in mobs if bool(take(m.property_data['mob_type_id'], m.property_data['usage_code']))]
        got = getattr(b, name)
        got = list(got if name == 'mobs' else got())
        x.check(len(got) == len(want) and all(a is w for a, w in zip(got, want)), '%s: exactly the matching mobs in order' % name)
    return prop


s_mobs = small('mobs', lambda t, u: True)
s_top = small('toplevel', lambda t, u: land(t == 1, u == 0))
s_comp = small('compositionmobs', lambda t, u: t == 1)
s_master = small('mastermobs', lambda t, u: t == 2)


def mob_type(x, e):
    C = e.trackgroups.Composition
    m = C.__new__(C, root=None)
    t = x.integer('t', lambda r: r.randrange(-2, 7))
    m.property_data['mob_type_id'] = t
    for i, name in KINDS.items():
        if bool(t == i):
            x.check(m.mob_type == name, 'mob_type of %s' % name)
            return
    try:
        m.mob_type
    except ValueError:
        return
    x.fail('an unknown mob type is refused')


def stale(x, e):
    """known finding: items removed from the list directly after a look-up are still found"""
    f = e.avb.open()
    m = f.create.Composition()
    f.content.add_mob(m)
    f.content.find_by_mob_id(m.mob_id)
    del f.content.items[0]
    x.check(f.content.find_by_mob_id(m.mob_id) is None, 'a mob whose item was deleted after a look-up is still found')


PROPS = [('Bin.mobs', gen_mobs, (c_bin, s_mobs)), ('Bin.toplevel', gen_top, (c_bin, s_top)), ('Bin.compositionmobs', gen_comp, (c_bin, s_comp)),
         ('Bin.mastermobs', gen_master, (c_bin, s_master)), ('lemma last item with an id', lemma_li, 'symbolic'), ('Bin.find_by_mob_id', find, (c_bin,)), ('Bin.add_mob', add, (c_bin,)),
         ('Composition.mob_type', mob_type), ('stale lookup', stale, 'concrete')]
