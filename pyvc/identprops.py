"""C09: identity of loaded objects and tracking of edits."""
import gc
import io
import os
import random
import tempfile

import z3

from . import ghost
from .fixed import SymZ, Sym, SymSeq, LoopSpec, Unsupported, Infeasible, land, lor, lnot, mkbool, zt
from .ghost import mkz

I = z3.IntSort()


# ------------------------------------------------------------------------------------------------ concrete runs

def save(f, byte_order='little'):
    fd, path = tempfile.mkstemp(suffix='.avb')
    os.close(fd)
    try:
        f.write(path, byte_order)
        with open(path, 'rb') as h:
            return h.read()
    finally:
        os.unlink(path)


def reopen(e, data):
    return e.avb.open(io.BytesIO(data), use_ext=False)


def sample_file(e, r):
    """a file holding every kind of container of references"""
    f = e.avb.open()
    cr = f.create
    pool = []

    def some():
        if pool and r.random() < .3:
            return r.choice(pool)
        c = r.choice(['Filler', 'Timecode', 'SourceClip'])
        o = getattr(cr, c)()
        o.length = r.randrange(100)
        pool.append(o)
        return o

    def attrs(depth=0):
        a = cr.Attributes()
        for i in range(r.randrange(0, 4)):
            k = 'k%d' % i
            a[k] = r.choice([lambda: r.randrange(100), lambda: u'text%d' % i, lambda: bytearray(b'xyz'), lambda: None,
                             lambda: attrs(depth + 1) if depth < 2 else 5])()
        if depth < 1:
            a['_plist'] = plist(cr.ParameterList)
            a['_crumbs'] = plist(cr.TimeCrumbList)
        return a

    def plist(make):
        p = make()
        for i in range(r.randrange(0, 4)):
            p.append(cr.Attributes() if r.random() < .3 and make is not None else some())
        return p
    m = cr.Composition(name=u'mob', mob_type=r.choice(['CompositionMob', 'MasterMob', 'SourceMob']))
    m.attributes = attrs()
    for k in range(r.randrange(1, 3)):
        t = cr.Track()
        t.index = k + 1
        s = cr.Sequence()
        s.components = [some() for i in range(r.randrange(0, 5))]
        s.attributes = attrs()
        t.component = s
        m.tracks.append(t)
    md = cr.MultiDescriptor()
    defaults(e, md)
    md.descriptors = []
    for i in range(r.randrange(0, 3)):
        d = cr.TapeDescriptor()
        defaults(e, d)
        md.descriptors.append(d)
    m.descriptor = md
    f.content.add_mob(m)
    return f


VALUES = {'int32': 1, 'int16': 1, 'uint32': 1, 'uint16': 1, 'uint8': 1, 'int8': 1, 'bool': True, 'string': u'x', 'uint64': 1, 'int64': 1}


def defaults(e, o):
    """give a value to the plain properties that have none"""
    for p in o.propertydefs:
        if p.name not in o.property_data and p.type in VALUES:
            o.property_data[p.name] = VALUES[p.type]


LIST_OPS = [
    ('append', lambda l, a: l.append(a.new())),
    ('append again', lambda l, a: l.append(a.old())),
    ('extend', lambda l, a: l.extend([a.new(), a.old()])),
    ('extend none', lambda l, a: l.extend([])),
    ('extend tuple', lambda l, a: l.extend((a.new(),))),
    ('extend generator', lambda l, a: l.extend(x for x in [a.new(), a.old()])),
    ('insert', lambda l, a: l.insert(a.pos(), a.new())),
    ('remove', lambda l, a: l.remove(a.old())),
    ('remove equal', lambda l, a: l.remove(a.twin())),
    ('extend itself', lambda l, a: l.extend(l)),
    ('+= itself', lambda l, a: l.__iadd__(l) is l),
    ('remove new', lambda l, a: l.remove(a.new())),
    ('pop', lambda l, a: l.pop()),
    ('pop at', lambda l, a: l.pop(a.pos())),
    ('clear', lambda l, a: l.clear()),
    ('sort key', lambda l, a: l.sort(key=a.rank)),
    ('sort key reverse', lambda l, a: l.sort(key=a.rank, reverse=True)),
    ('reverse', lambda l, a: l.reverse()),
    ('set', lambda l, a: l.__setitem__(a.pos(), a.new())),
    ('set slice', lambda l, a: l.__setitem__(slice(a.pos(), a.pos()), [a.new(), a.old()])),
    ('set slice empty', lambda l, a: l.__setitem__(slice(a.pos(), a.pos()), [])),
    ('set step', lambda l, a: l.__setitem__(slice(None, None, 2), [a.new() for i in range((len(l) + 1) // 2)])),
    ('set step wrong', lambda l, a: l.__setitem__(slice(None, None, -1), [a.new() for i in range(len(l) + 1)])),
    ('del', lambda l, a: l.__delitem__(a.pos())),
    ('del slice', lambda l, a: l.__delitem__(slice(a.pos(), a.pos()))),
    ('del step', lambda l, a: l.__delitem__(slice(a.pos(), None, 2))),
    ('+=', lambda l, a: l.__iadd__([a.new()]) is l),
    ('*=', lambda l, a: l.__imul__(a.times()) is l),
]
LIST_READS = [
    ('len', lambda l, a: len(l)), ('iter', lambda l, a: list(l)), ('index', lambda l, a: l.index(a.old())), ('bool', lambda l, a: bool(l)),
    ('index new', lambda l, a: l.index(a.new())), ('index from', lambda l, a: l.index(a.old(), a.pos())),
    ('count', lambda l, a: l.count(a.old())), ('in', lambda l, a: a.old() in l), ('not in', lambda l, a: a.new() in l),
    ('get', lambda l, a: l[a.pos()]), ('slice', lambda l, a: l[a.pos():a.pos()]), ('step', lambda l, a: l[::-2]), ('reversed', lambda l, a: list(reversed(l))),
    ('sorted', lambda l, a: sorted(l, key=a.rank)),
    ('in equal', lambda l, a: a.twin() in l), ('index equal', lambda l, a: l.index(a.twin())), ('count equal', lambda l, a: l.count(a.twin())),
]
DICT_OPS = [
    ('set', lambda d, a: d.__setitem__(a.key(), a.value())), ('del', lambda d, a: d.__delitem__(a.key())),
    ('pop', lambda d, a: d.pop(a.key())), ('pop default', lambda d, a: d.pop(a.key(), 7)),
    ('popitem', lambda d, a: d.popitem()), ('popitem first', lambda d, a: d.popitem(last=False)),
    ('setdefault', lambda d, a: d.setdefault(a.key(), a.value())), ('update', lambda d, a: d.update({a.key(): a.value(), a.key(): 3})),
    ('update pairs', lambda d, a: d.update([(a.key(), a.value())])), ('update kw', lambda d, a: d.update(zz=4)),
    ('clear', lambda d, a: d.clear()), ('move_to_end', lambda d, a: d.move_to_end(a.key())),
    ('move_to_end first', lambda d, a: d.move_to_end(a.key(), last=False)), ('|=', lambda d, a: d.__ior__({a.key(): a.value()}) is d),
]
DICT_READS = [
    ('len', lambda d, a: len(d)), ('get', lambda d, a: d.get(a.key())), ('get default', lambda d, a: d.get(a.key(), 9)),
    ('item', lambda d, a: d[a.key()]), ('in', lambda d, a: a.key() in d), ('keys', lambda d, a: list(d)), ('keys()', lambda d, a: list(d.keys())),
    ('items', lambda d, a: list(d.items())), ('values', lambda d, a: list(d.values())), ('bool', lambda d, a: bool(d)),
]


class Args:
    """the same arguments for the real container and for its plain counterpart"""

    def __init__(self, log, pick, items, keys):
        self.log, self.pick, self.i, self.items, self.keys = log, pick, 0, items, keys

    def _next(self, make):
        if self.i == len(self.log):
            self.log.append(make())
        self.i += 1
        return self.log[self.i - 1]

    def new(self):
        return self._next(lambda: self.pick.obj())

    def old(self):
        return self._next(lambda: self.pick.r.choice(self.items) if self.items else self.pick.obj())

    def twin(self):
        return self._next(lambda: self.pick.obj(True))

    def pos(self):
        n = len(self.items)
        return self._next(lambda: self.pick.r.choice([0, 1, -1, n, n - 1, -n, n + 2, -n - 2, 2, n // 2]))

    def times(self):
        return self._next(lambda: self.pick.r.choice([0, 1, 2, 3, -1]))

    def key(self):
        return self._next(lambda: self.pick.r.choice(self.keys) if self.keys and self.pick.r.random() < .7 else u'new%d' % self.pick.r.randrange(3))

    def value(self):
        return self._next(lambda: self.pick.r.choice([lambda: 5, lambda: u'v', lambda: bytearray(b'q'), self.pick.obj])())

    @staticmethod
    def rank(o):
        return (o.instance_id * 7919) % 13


class Pick:
    def __init__(self, f, r):
        self.f, self.r = f, r

    def obj(self, twin=False):
        if twin or self.r.random() < .3:
            return self.f.create.Attributes()          # equal to every other empty one
        return self.f.create.Filler()


def outcome(fn, c, args):
    try:
        return ('returned', fn(c, args))
    except Exception as ex:
        return ('raised', type(ex).__name__)


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and not hasattr(a, 'class_id') and not hasattr(b, 'class_id'):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    if isinstance(a, (int, str, type(None), bytes, bytearray, bool)) and not isinstance(b, (list, dict)):
        return type(a) is type(b) and a == b
    return a is b


def stored(e, f):
    """(owner, kind, how to get it again) of every container of references of a loaded file; nothing is kept alive"""
    out = []
    for i in range(1, len(f.object_positions)):
        o = f.read_object(i)
        if isinstance(o, e.attributes.Attributes):
            out.append((i, 'dict', lambda o: o))
        elif isinstance(o, e.core.AVBRefList):
            out.append((i, 'list', lambda o: o))
        else:
            for k, v in list(o.property_data.items()):
                if isinstance(v, e.core.AVBRefList) and not hasattr(v, 'class_id'):
                    out.append((i, 'list', lambda o, k=k: o.property_data[k]))
    return out


def content_of(c):
    return list(c.items()) if isinstance(c, dict) else list(c)


def c_edits(x, e):
    """any operation on any container of a loaded file: same effect as on the plain container, owner registered"""
    r = x.rng
    f0 = sample_file(e, r)
    f = reopen(e, save(f0, r.choice(['little', 'big'])))
    x.check(not f.modified_objects, 'opening a file marks nothing as modified')
    places = stored(e, f)
    x.check(not f.modified_objects, 'reading objects marks nothing as modified')
    if not places:
        return
    r.shuffle(places)
    for i, kind, get in places[:3]:
        f.modified_objects.clear()
        owner = f.read_object(i)
        c = get(owner)
        if r.random() < .3 and kind == 'list':        # half of the items already resolved or replaced
            for k in range(len(c)):
                if r.random() < .5:
                    c[k] = c[k]
            f.modified_objects.clear()
        plain = dict(c.items()) if kind == 'dict' else list(c)
        import collections
        plain = collections.OrderedDict(plain) if kind == 'dict' else plain
        touched = False
        for step in range(r.randrange(1, 4)):
            reads = r.random() < .4
            name, fn = r.choice((DICT_READS if reads else DICT_OPS) if kind == 'dict' else (LIST_READS if reads else LIST_OPS))
            log, pick = [], Pick(f, r)
            items, keys = (list(plain), []) if kind == 'list' else ([], list(plain))
            before = content_of(plain)
            want = outcome(fn, plain, Args(log, pick, items, keys))
            f.modified_objects.clear()
            got = outcome(fn, c, Args(log, pick, items, keys))
            what = '%s of %s #%d %r' % (name, type(c).__name__, i, type(owner).__name__)
            x.note('operation', what)
            x.check(got[0] == want[0] and same(got[1], want[1]), '%s: %s, a plain container: %s' % (what, got, want))
            x.check(same(content_of(c), content_of(plain)), '%s: the items are those of a plain container' % what)
            marked = dict(f.modified_objects)
            for k in [k for k, v in marked.items() if k > len(f.object_positions)]:
                del marked[k]                          # new items
            if reads:
                x.check(not marked, '%s marks nothing' % what)
            elif not same(before, content_of(plain)):
                x.check(marked.get(i) is owner, '%s registers its owner as modified' % what)
                touched = True
            x.check(all(k == i for k in marked), '%s registers nothing else' % what)
            if touched:
                f.add_modified(owner)
        if touched:
            keep = content_of(plain)
            owner_id = id(owner)
            del owner, c
            gc.collect()
            again = f.read_object(i)
            x.check(id(again) == owner_id and same(content_of(get(again)), keep), '%s: the edited object stays loaded' % what)


def c_identity(x, e):
    """every access path gives the one live instance, loaded at most once"""
    r = x.rng
    f0 = sample_file(e, r)
    class Counting(io.BytesIO):
        log = []

        def seek(self, *a):
            self.log.append(a[0])
            return io.BytesIO.seek(self, *a)
    f = e.avb.open(Counting(save(f0, r.choice(['little', 'big']))), use_ext=False)
    n = len(f.object_positions)
    alive = {}
    for step in range(40):
        i = r.randrange(0, n)
        f.f.log.clear()
        o = f.read_object(i)
        x.check(i not in alive or not f.f.log, 'an object that is alive is not read again (#%d)' % i)
        if i == 0:
            x.check(o is None, 'index 0 is the null reference')
            continue
        if i in alive:
            x.check(o is alive[i], 'reading an object again gives the same object (#%d)' % i)
        x.check(o.instance_id == i and o.root is f, 'a loaded object knows its index and file')
        if r.random() < .7:
            alive[i] = o
        vals = []
        if isinstance(o, e.attributes.Attributes):
            vals += list(o.items()) + [(k, o[k]) for k in o] + [(k, o.get(k)) for k in o] + list(zip(o, o.values()))
        elif isinstance(o, e.core.AVBRefList):
            vals += list(enumerate(o)) + [(k, o[k]) for k in range(len(o))] + list(enumerate(o[:])) + [
                (len(o) - 1 - k, v) for k, v in enumerate(reversed(o))]
        else:
            for k, v in list(o.property_data.items()):
                vals += [(k, v), (k, getattr(o, k)), (k, o.property_data[k]), (k, o.property_data.get(k)), (k, o.get(k, None))]
                if isinstance(v, e.core.AVBRefList) and not hasattr(v, 'class_id'):
                    vals += [((k, j), w) for j, w in enumerate(v)] + [((k, j), v[j]) for j in range(len(v))]
        seen = {}
        for k, v in vals:
            if hasattr(v, 'class_id'):
                x.check(not isinstance(v, e.utils.AVBObjectRef), 'access path %r gives the object itself' % (k,))
                x.check(f.read_object(v.instance_id) is v, 'access path %r gives the live instance' % (k,))
                x.check(seen.setdefault(k, v) is v, 'all access paths %r give one instance' % (k,))
                if v.instance_id in alive:
                    x.check(alive[v.instance_id] is v, 'access path %r gives the live instance' % (k,))
        if r.random() < .2:
            for k in list(alive):
                if r.random() < .5:
                    del alive[k]
            o = v = vals = seen = None
            gc.collect()
    x.check(not f.modified_objects, 'reading marks nothing as modified')


def c_fields(x, e):
    """assigning a field of a stored object takes effect and registers the object"""
    r = x.rng
    f = reopen(e, save(sample_file(e, r), r.choice(['little', 'big'])))
    ids = list(range(1, len(f.object_positions)))
    r.shuffle(ids)
    for i in ids[:6]:
        o = f.read_object(i)
        if isinstance(o, (e.attributes.Attributes, e.core.AVBRefList)):
            continue
        f.modified_objects.clear()
        p = r.choice(o.propertydefs)
        before = dict(o.property_data.items())
        v = object()
        setattr(o, p.name, v)
        x.check(f.modified_objects.get(i) is o and len(f.modified_objects) == 1, 'assigning %s of a %s registers it' % (p.name, type(o).__name__))
        before[p.name] = v
        after = dict(o.property_data.items())
        x.check(set(before) == set(after) and all(before[k] is after[k] for k in before) and getattr(o, p.name) is v,
                'assigning %s of a %s changes that field only' % (p.name, type(o).__name__))
        oid = id(o)
        del o
        gc.collect()
        o = f.read_object(i)
        x.check(id(o) == oid and getattr(o, p.name) is v, 'an edited object is neither dropped nor reloaded')
        for bad in ('no_such_field', 'foo'):
            if not any(q.name == bad for q in o.propertydefs):
                try:
                    setattr(o, bad, 1)
                    x.fail('assigning an unknown field fails')
                except AttributeError:
                    pass


def c_rewrite(x, e):
    """edits are what gets saved"""
    r = x.rng
    f = reopen(e, save(sample_file(e, r)))
    m = next(iter(f.content.mobs))
    name = u'renamed%d' % r.randrange(100)
    m.name = name
    m.attributes[u'edited'] = 5
    seq = m.tracks[0].component
    extra = f.create.Filler()
    extra.length = 4711
    seq.components.append(extra)
    n = len(seq.components)
    del m, seq, extra
    gc.collect()
    g = reopen(e, save(f))
    m = next(iter(g.content.mobs))
    x.check(m.name == name and m.attributes[u'edited'] == 5, 'edits are saved')
    s = m.tracks[0].component
    x.check(len(s.components) == n and s.components[n - 1].length == 4711, 'list edits are saved')


# ------------------------------------------------------------------------------------------------ proofs

ISREF = z3.Function('ISREF', I, z3.BoolSort())
IDX = z3.Function('IDX', I, I)
ISNUM = z3.Function('ISNUM', I, z3.BoolSort())
OBJ = z3.Function('OBJ', I, I)
NONE = ghost.NONE


def target(i):
    """contract of AVBFile.read_object: one live object per index, none for the null reference"""
    return z3.If(i <= 0, z3.IntVal(NONE), OBJ(i))


def DV(t):
    return z3.If(ISREF(t), target(IDX(t)), t)


class File:
    """ghost file: the objects at an index, a log of what is registered as modified"""
    debug_copy_refs = False
    check_refs = True

    def __init__(self, x):
        self.log = []
        self.reading = x.boolean('reading')

    def add_modified(self, o):
        self.log.append(o)

    def read_object(self, i):
        t = zt(i)
        i1 = z3.Int('i!')
        x = ghost.CUR.x
        if x.branch(t <= 0):
            return None
        o = OBJ(t)
        x.assume_t(z3.And(z3.Not(ISREF(o)), o != NONE))
        return ghost.Tok(o)


def space(x, e, root, numbers=False):
    """tokens are None, objects, or references; numbers: a reference may be a bare number (as the compiled reader leaves
    them in reference lists)"""
    class Ref(e.utils.AVBObjectRef):
        __slots__ = ('pyvc_token',)

    class Num(SymZ):
        pyvc_token = None
        value = property(lambda s: e.utils.AVBObjectRef(root, SymZ(s.t)).value)

    def make(t):
        t = z3.simplify(t)
        if x.branch(t == NONE):
            return None
        if x.branch(ISREF(t)):
            if numbers and x.branch(ISNUM(t)):
                r = Num(IDX(t))
                r.pyvc_token = t
                return r
            r = Ref(root, SymZ(IDX(t)))
            r.pyvc_token = t
            return r
        return ghost.Tok(t)
    i = z3.Int('i!')
    x.assume_t(z3.Not(ISREF(z3.IntVal(NONE))))
    x.assume_t(z3.ForAll([i], z3.And(z3.Not(ISREF(OBJ(i))), OBJ(i) != NONE), patterns=[OBJ(i)]))
    ghost.Space.make = staticmethod(make)
    return make


def reflist(x, e, root, quant=True):
    """an arbitrary reference list of the file, and who is registered when it changes"""
    x.ex.quant = quant
    owner = object()
    kind = x.choose('list', ['of a component', 'ParameterList', 'TimeCrumbList', 'of nothing'])
    cls = e.core.AVBRefList if kind.startswith('of') else getattr(e.attributes, kind)
    l = cls.__new__(cls, root=root, parent=owner if kind == 'of a component' else None)
    ghost.arbitrary_list(x, l, 'at')
    return l, ([owner] if kind == 'of a component' else [l] if kind != 'of nothing' else [])


def deref_seq(n, ft, tag):
    return ghost.Seq(n, lambda i: DV(ft(i)), ('deref', tag))


def plain_of(l):
    """the plain list of the values of a reference list"""
    return ghost.list_copy(deref_seq(l.n, l.ft, l.tag))


def outcome_of(f, *a):
    try:
        return 'ok', f(*a)
    except (IndexError, ValueError, KeyError, TypeError) as ex:
        return type(ex).__name__, None


def same_value(x, a, b, label):
    """results: numbers, booleans, None, values (compared by token), sequences"""
    if isinstance(a, ghost.SymSeq) or type(a) is ghost.GList or isinstance(b, ghost.SymSeq) or type(b) is ghost.GList:
        sa, sb = (v if isinstance(v, ghost.SymSeq) else v.pyvc_iter() for v in (a, b))
        x.check(mkz(sa.n) == mkz(sb.n), label + ' (length)')
        i = x.fresh_int('i')
        x.assume_t(z3.And(i >= 0, i < zt(sa.n)))
        x.check(mkbool(ghost.token(sa.at(SymZ(i))) == ghost.token(sb.at(SymZ(i)))), label + ' (items)')
        return
    if isinstance(a, (ghost.Tok, type(None))) or isinstance(b, (ghost.Tok, type(None))):
        x.check(type(a) is type(b) or isinstance(a, ghost.Tok) and isinstance(b, ghost.Tok), label)
        if a is not None:
            x.check(mkbool(a.t == b.t), label)
        return
    x.check(a == b, label)


def args_for(x, e, root):
    """arbitrary arguments"""
    make = ghost.Space.make

    class A:
        v = make(z3.Int('v'))
        o = None if x.branch(z3.Bool('o is None')) else ghost.Tok(z3.Int('o'))
        i, j, k = SymZ(z3.Int('i')), SymZ(z3.Int('j')), SymZ(z3.Int('k'))
        n = z3.Int('vs.n')
        f = z3.Function('vs', I, I)
        key = staticmethod(lambda o: o)
    A.vs = ghost.Seq(SymZ(A.n), lambda i: A.f(i), 'vs')
    x.assume_t(z3.And(A.n >= 0, z3.Not(ISREF(z3.Int('o'))), z3.Int('o') != NONE))
    return A


def raw(v):
    """the argument for the plain container: references stand for what they refer to"""
    if isinstance(v, ghost.Seq):
        return deref_seq(v.n, v.ft, v.tag)
    if hasattr(v, 'pyvc_token'):
        return v.value
    return v


def list_edit(name, op):
    def prop(x, e):
        f = File(x)
        space(x, e, f, True)
        l, owner = reflist(x, e, f)
        e.core.AVBRefList.pyvc_iter = lambda s: deref_seq(s.n, s.ft, s.tag)
        x.loops = loops_for(x)
        p, n0, ft0 = plain_of(l), l.n, l.ft
        A = args_for(x, e, f)
        want = outcome_of(op, p, A, raw)
        got = outcome_of(op, l, A, lambda v: v)
        x.check(got[0] == want[0], '%s fails as a list does' % name)
        same_value(x, got[1], want[1], 'result of %s' % name)
        x.check(mkz(l.n) == mkz(p.n), 'length after %s' % name)
        i = x.fresh_int('i')
        x.check(mkbool(z3.Implies(z3.And(i >= 0, i < zt(p.n)), DV(l.ft(i)) == p.ft(i))), 'items after %s' % name)
        x.check(all(o is w for o in f.log for w in owner) and bool(owner or not f.log), '%s registers nothing else' % name)
        if bool(f.reading):
            x.check(not f.log, '%s while reading registers nothing' % name)
        elif owner and not f.log:
            i = x.fresh_int('i')
            x.check(land(mkz(l.n) == mkz(n0), mkbool(z3.Implies(z3.And(i >= 0, i < zt(n0)), DV(l.ft(i)) == DV(ft0(i))))),
                    '%s registers the owner as modified' % name)
    return prop


def list_read(name, op):
    def prop(x, e):
        f = File(x)
        space(x, e, f, True)
        l, owner = reflist(x, e, f)
        e.core.AVBRefList.pyvc_iter = lambda s: deref_seq(s.n, s.ft, s.tag)
        x.loops = loops_for(x)
        p = plain_of(l)
        A = args_for(x, e, f)
        n, ft = l.n, l.ft
        want = outcome_of(op, p, A, raw)
        got = outcome_of(op, l, A, lambda v: v)
        x.check(got[0] == want[0], '%s fails as for a list' % name)
        same_value(x, got[1], want[1], 'result of %s' % name)
        x.check(l.n is n and l.ft is ft, '%s changes nothing' % name)
        x.check(not f.log, '%s registers nothing' % name)
    return prop


def loops_for(x):
    return {}


L_EDITS = [
    ('append', lambda l, a, w: l.append(w(a.v))),
    ('extend', lambda l, a, w: l.extend(w(a.vs))),
    ('insert', lambda l, a, w: l.insert(a.i, w(a.v))),
    ('remove', lambda l, a, w: l.remove(a.o)),
    ('pop', lambda l, a, w: l.pop()),
    ('pop at', lambda l, a, w: l.pop(a.i)),
    ('clear', lambda l, a, w: l.clear()),
    ('sort', lambda l, a, w: l.sort()),
    ('sort key', lambda l, a, w: l.sort(key=a.key, reverse=True)),
    ('reverse', lambda l, a, w: l.reverse()),
    ('set item', lambda l, a, w: l.__setitem__(a.i, w(a.v))),
    ('set slice', lambda l, a, w: l.__setitem__(slice(a.i, a.j), w(a.vs))),
    ('set open slice', lambda l, a, w: l.__setitem__(slice(None, a.j), w(a.vs))),
    ('set stepped slice', lambda l, a, w: l.__setitem__(slice(a.i, a.j, a.k), w(a.vs))),
    ('del item', lambda l, a, w: l.__delitem__(a.i)),
    ('del slice', lambda l, a, w: l.__delitem__(slice(a.i, a.j))),
    ('del stepped slice', lambda l, a, w: l.__delitem__(slice(a.i, a.j, a.k))),
    ('+=', lambda l, a, w: l.__iadd__(w(a.vs)) is l),
    ('*=', lambda l, a, w: l.__imul__(a.i) is l),
]
L_READS = [
    ('index', lambda l, a, w: l.index(a.o)),
    ('index from', lambda l, a, w: l.index(a.o, a.i)),
    ('index from to', lambda l, a, w: l.index(a.o, a.i, a.j)),
    ('count', lambda l, a, w: l.count(a.o)),
    ('item', lambda l, a, w: l[a.i]),
    ('slice', lambda l, a, w: l[a.i:a.j]),
    ('open slice', lambda l, a, w: l[a.i:]),
    ('stepped slice', lambda l, a, w: l[a.i:a.j:a.k]),
]

def iteration(method, at):
    """a generator of the list yields the value of item at(n, k) in its k-th turn, and exactly n of them"""
    def prop(x, e):
        f = File(x)
        space(x, e, f, True)
        l, owner = reflist(x, e, f)
        n, ft = l.n, l.ft
        g = {'y': SymZ(z3.IntVal(0))}

        def heap(x, k):
            g['y'] = k
        x.loops = {'AVBRefList.%s#0' % method: LoopSpec({}, lambda x, v: [g['y'] == v.k], heap=heap)}
        for v in getattr(l, method)():
            x.check(mkbool(ghost.token(v) == DV(ft(at(zt(n), zt(g['y']))))), '%s yields the values of the items in order' % method)
            x.check(not hasattr(v, 'pyvc_token'), '%s yields no references' % method)
            g['y'] = g['y'] + 1
        x.check(g['y'] == n, '%s yields all items' % method)
        x.check(l.n is n and l.ft is ft and not f.log, '%s changes and registers nothing' % method)
    return prop


def contains(x, e):
    f = File(x)
    space(x, e, f, True)
    l, owner = reflist(x, e, f)
    A = args_for(x, e, f)
    t = ghost.token(A.o)
    ft, n = l.ft, zt(l.n)
    j = z3.Int('j!')

    def match(i):
        v = DV(ft(i))
        # EQ is the equality of two values that are both there; None only equals None
        return z3.Or(v == t, z3.And(v != NONE, t != NONE, ghost.Tok.EQ(v, t)))
    x.assume_t(z3.ForAll([j], ghost.Tok.EQ(j, t) == ghost.Tok.EQ(t, j), patterns=[ghost.Tok.EQ(j, t)]))
    inv = lambda x, v: [mkbool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zt(v.k)), z3.Not(match(j)))))]
    x.loops = {'AVBRefList.__iter__#0': LoopSpec({}, inv), 'AVBRefList.__contains__#0': LoopSpec({}, inv)}
    got = A.o in l
    if x.turn is not None and not got:
        x.check(mkbool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(match(j))))), 'in is false only if no item is or equals the value')
    elif got:
        k = x.turn.k
        x.check(mkbool(z3.And(k >= 0, k < n, match(k))), 'in is true only if an item is or equals the value')
    x.check(not f.log, 'in registers nothing')


def deref(x, e):
    """a reference or an index stands for the object, anything else for itself"""
    f = File(x)
    make = space(x, e, f, True)
    l, owner = reflist(x, e, f)
    t = z3.Int('v')
    for o in (l, e.attributes.Attributes.__new__(e.attributes.Attributes, root=f)):
        w = make(t)
        if o is not l and isinstance(w, SymZ):
            continue
        v = o.deref(w)
        x.check(mkbool(ghost.token(v) == DV(t)), 'deref gives the object')
    i = SymZ(z3.Int('i'))
    x.check(mkbool(ghost.token(e.utils.AVBObjectRef(f, i).value) == target(i.t)), 'the value of a reference is the object at its index')
    x.check(not f.log, 'deref registers nothing')


def attrs(x, e, root):
    x.ex.quant = True
    d = e.attributes.Attributes.__new__(e.attributes.Attributes, root=root)
    ghost.arbitrary_dict(x, d)
    return d


def raw_copy(d):
    p = ghost.GDict.__new__(ghost.GDict)
    p.pres, p.val, p.ord, p.lo, p.hi = d.pres, d.val, d.ord, d.lo, d.hi
    return p


def dict_args(x):
    class A:
        k, k2 = ghost.Key(z3.Int('key')), ghost.Key(z3.Int('key2'))
        v, v2 = ghost.Space.make(z3.Int('v')), ghost.Space.make(z3.Int('v2'))
        o = None if x.branch(z3.Bool('o is None')) else ghost.Tok(z3.Int('o'))
        last = x.boolean('last')
    x.assume_t(z3.And(z3.Not(ISREF(z3.Int('o'))), z3.Int('o') != NONE))
    return A


def deref_result(v):
    if isinstance(v, tuple):
        return tuple(deref_result(w) for w in v)
    return v.value if hasattr(v, 'pyvc_token') else v


def same_results(x, a, b, label):
    if isinstance(a, tuple) and isinstance(b, tuple):
        x.check(len(a) == len(b), label)
        for p, q in zip(a, b):
            same_results(x, p, q, label)
        return
    if isinstance(a, ghost.Key) and isinstance(b, ghost.Key):
        return x.check(mkbool(a.t == b.t), label)
    x.check(not hasattr(a, 'pyvc_token'), label + ' is no reference')
    same_value(x, a, b, label)


def dict_same(x, d, p, label):
    sel = z3.Select
    q, r = x.fresh_int('q'), x.fresh_int('r')
    x.check(mkbool(sel(d.pres, q) == sel(p.pres, q)), label + ' (keys)')
    x.check(mkbool(z3.Implies(sel(p.pres, q), sel(d.val, q) == sel(p.val, q))), label + ' (values)')
    x.check(mkbool(z3.Implies(z3.And(sel(p.pres, q), sel(p.pres, r)), (sel(d.ord, q) < sel(d.ord, r)) == (sel(p.ord, q) < sel(p.ord, r)))),
            label + ' (order)')


def dict_op(name, op, edit):
    def prop(x, e):
        f = File(x)
        space(x, e, f)
        d = attrs(x, e, f)
        A = dict_args(x)
        p, before = raw_copy(d), raw_copy(d)
        want = outcome_of(op, p, A)
        got = outcome_of(op, d, A)
        x.check(got[0] == want[0], '%s fails as for a dictionary' % name)
        same_results(x, got[1], deref_result(want[1]), 'result of %s' % name)
        dict_same(x, d, p, 'contents after %s' % name)
        x.check(all(o is d for o in f.log), '%s registers nothing else' % name)
        if not edit:
            x.check(not f.log, '%s registers nothing' % name)
            dict_same(x, d, before, '%s changes nothing' % name)
        elif bool(f.reading):
            x.check(not f.log, '%s while reading registers nothing' % name)
        elif not f.log:
            dict_same(x, d, before, '%s registers the attributes as modified' % name)
    return prop


D_EDITS = [
    ('set', lambda d, a: d.__setitem__(a.k, a.v)), ('del', lambda d, a: d.__delitem__(a.k)), ('pop', lambda d, a: d.pop(a.k)),
    ('pop default', lambda d, a: d.pop(a.k, a.v)), ('popitem', lambda d, a: d.popitem()), ('popitem last', lambda d, a: d.popitem(last=a.last)),
    ('setdefault', lambda d, a: d.setdefault(a.k, a.o)), ('update', lambda d, a: d.update([(a.k, a.v), (a.k2, a.v2)])),
    ('|=', lambda d, a: d.__ior__([(a.k, a.v)]) is d), ('clear', lambda d, a: d.clear()), ('move_to_end', lambda d, a: d.move_to_end(a.k)),
    ('move_to_end last', lambda d, a: d.move_to_end(a.k, last=a.last)),
]
D_READS = [
    ('item', lambda d, a: d[a.k]), ('get', lambda d, a: d.get(a.k)), ('get default', lambda d, a: d.get(a.k, a.v)), ('in', lambda d, a: a.k in d)]


def dict_iteration(method):
    def prop(x, e):
        f = File(x)
        space(x, e, f)
        d = attrs(x, e, f)
        before = raw_copy(d)
        g = {'y': SymZ(z3.IntVal(0)), 'seq': None}

        def heap(x, k):
            g['y'] = k

        def inv(x, v):
            g['seq'] = v.seq
            return [g['y'] == v.k]
        x.loops = {'AVBPropertyData.%s#0' % method: LoopSpec({}, inv, heap=heap)}
        for v in getattr(d, method)():
            if not isinstance(g['seq'], ghost.Items):
                raise Unsupported('iteration over something else')
            k = g['seq'].key_at(zt(g['y']))
            if method == 'items':
                x.check(mkbool(v[0].t == k), 'items yields the keys in order')
                v = v[1]
            x.check(mkbool(ghost.token(v) == DV(z3.Select(before.val, k))), '%s yields the values in order' % method)
            x.check(not hasattr(v, 'pyvc_token'), '%s yields no references' % method)
            g['y'] = g['y'] + 1
        x.check(g['y'] == g['seq'].n, '%s yields all values' % method)
        dict_same(x, d, before, '%s changes nothing' % method)
        x.check(not f.log, '%s registers nothing' % method)
    return prop


def stored_object(x, e, f):
    """an arbitrary object with a property p"""
    x.ex.quant = True

    class Obj(e.core.AVBObject):
        propertydefs_dict = {'p': e.core.AVBPropertyDef('p', 'p', 'int32'), 'q': e.core.AVBPropertyDef('q', 'q', 'int32')}
        propertydefs = list(propertydefs_dict.values())
        __slots__ = ()
    o = Obj.__new__(Obj, root=f)
    ghost.arbitrary_dict(x, o.property_data)
    for k in ('instance_id', 'r', 'root', 'property_data'):           # keys of properties are names of properties
        x.assume_t(z3.Not(z3.Select(o.property_data.pres, ghost.key(k))))
    return o


def set_field(x, e):
    f = File(x)
    space(x, e, f)
    o = stored_object(x, e, f)
    has_id = x.branch(z3.Bool('stored'))
    if has_id:
        o.instance_id = 3
        x.check(not f.log, 'setting the id registers nothing')
    p = raw_copy(o.property_data)
    v = ghost.Space.make(z3.Int('v'))
    p['p'] = v
    o.p = v
    dict_same(x, o.property_data, p, 'assigning a field sets this field only')
    if bool(f.reading) or not has_id:
        x.check(not f.log, 'assigning while reading registers nothing')
    else:
        x.check(len(f.log) > 0 and all(w is o for w in f.log), 'assigning a field registers the object as modified')
    try:
        o.r = v
    except AttributeError:
        pass
    else:
        x.fail('assigning an unknown field fails')
    dict_same(x, o.property_data, p, 'assigning an unknown field changes nothing')


def get_field(x, e):
    f = File(x)
    space(x, e, f)
    o = stored_object(x, e, f)
    d = o.property_data
    pres, val = z3.Select(d.pres, ghost.key('p')), z3.Select(d.val, ghost.key('p'))
    before = raw_copy(d)
    try:
        v = o.p
    except AttributeError:
        x.check(mkbool(z3.Not(pres)), 'a field that is there is found')
    else:
        x.check(mkbool(z3.And(pres, ghost.token(v) == DV(val))), 'a field has its value, a reference is the object')
        x.check(not hasattr(v, 'pyvc_token'), 'a field is no reference')
    j = z3.Int('j!')
    seq = {}

    def inv(x, v):
        if not isinstance(v.seq, ghost.Items):
            raise Unsupported('iteration over something else')
        return [mkbool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zt(v.k)), v.seq.key_at(j) != ghost.key('p')), patterns=[v.seq.key_at(j)]))]
    x.loops = {'AVBPropertyData.items#0': LoopSpec({}, inv), 'AVBObject.get#0': LoopSpec({}, inv)}
    dflt = ghost.Tok(z3.Int('default'))
    v = o.get('p', dflt)
    x.check(mkbool(ghost.token(v) == z3.If(pres, DV(val), dflt.t)), 'get gives the value of the field or the default')
    dict_same(x, d, before, 'reading fields changes nothing')
    x.check(not f.log, 'reading fields registers nothing')


class Named(ghost.Tok):
    def __init__(self, t, i):
        ghost.Tok.__init__(self, t)
        self.instance_id = i


def add_modified(x, e):
    F = e.file.AVBFile
    f = F.__new__(F)
    x.ex.quant = True
    f.modified_objects = ghost.arbitrary_dict(x, ghost.GDict.__new__(ghost.GDict))
    p = raw_copy(f.modified_objects)
    i = SymZ(z3.Int('id'))
    o = Named(z3.Int('o'), i)
    f.add_modified(o)
    p[i] = o
    dict_same(x, f.modified_objects, p, 'add_modified keeps the object under its id, and all others')


PROPS = [('edits of containers', c_edits, 'concrete'), ('identity', c_identity, 'concrete'), ('fields', c_fields, 'concrete'),
         ('edits are saved', c_rewrite, 'concrete')]
PROPS += [('AVBRefList ' + n, list_edit(n, f), 'symbolic') for n, f in L_EDITS]
PROPS += [('AVBRefList ' + n, list_read(n, f), 'symbolic') for n, f in L_READS]
PROPS += [('AVBRefList.__iter__', iteration('__iter__', lambda n, k: k), 'symbolic'),
          ('AVBRefList.__reversed__', iteration('__reversed__', lambda n, k: n - 1 - k), 'symbolic'),
          ('AVBRefList.__contains__', contains, 'symbolic'), ('deref', deref, 'symbolic')]
PROPS += [('Attributes ' + n, dict_op(n, f, True), 'symbolic') for n, f in D_EDITS]
PROPS += [('Attributes ' + n, dict_op(n, f, False), 'symbolic') for n, f in D_READS]
PROPS += [('Attributes.' + n, dict_iteration(n), 'symbolic') for n in ('items', 'values')]
PROPS += [('AVBObject.__setattr__', set_field, 'symbolic'), ('AVBObject.__getattr__ and get', get_field, 'symbolic'),
          ('AVBFile.add_modified', add_modified, 'symbolic')]
