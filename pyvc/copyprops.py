"""C10: copies.

AVBObject.copy, AVBRefList.copy, Attributes.copy and copy_value, proved function by function, for objects with any number of
properties (items, entries) of any kind of value.  Contracts used in the proofs: the factory gives a new object of the named
class owned by its file, with some default properties (C18); copying a contained object gives a copy of it owned by the file
it is copied into (this property, by induction on the nesting); copy.deepcopy as documented; iterating a property map, a
reference list or an attribute map gives the values with references resolved (C09).
"""
import datetime
import random
import types
import uuid

import z3

from . import createprops, fixed, ghost
from .createprops import DEFAULTS, MODS, mutables, stored, scramble
from .fixed import CUR, LoopSpec, Sym, SymBuf, SymSeq, SymZ, Unsupported, land, mkbool, zt

OBJECTS = sorted(n for n in DEFAULTS if n not in ('Attributes', 'AVBRefList', 'ParameterList', 'TimeCrumbList'))
LISTS = ('AVBRefList', 'ParameterList', 'TimeCrumbList')


def package():
    from . import driver
    return fixed.SymPackage(driver.SRC + '/avb', MODS, {'pyvc_comp': hook_comp})


def nothing(self, *a, **k):
    raise Unsupported('a contained object is used without a call by contract')


class Name(ghost.Key):
    """a property name or an attribute key"""
    pyvc_text = True


class Text(createprops.Text):
    def __getitem__(self, s):
        if s == slice(None):
            return self
        raise Unsupported('part of a text')


class RList(list):
    """[f(v) for v in src] of a list of any length"""
    def __init__(self, src, f):
        self.src, self.f = src, f
    __iter__ = __len__ = __getitem__ = __setitem__ = append = extend = __add__ = __iadd__ = nothing


def hook_comp(f, it):
    if isinstance(it, RList):
        raise Unsupported('comprehension of a comprehension')
    if hasattr(type(it), 'pyvc_iter'):
        return RList(it, f)
    return [f(v) for v in it]


class World:
    """values of every kind in one run"""

    def __init__(self, x, e, same_file):
        self.x, self.e = x, e
        self.dst = types.SimpleNamespace(reading=False, add_modified=lambda o: None, name='destination')
        self.src = self.dst if same_file else types.SimpleNamespace(reading=False, add_modified=lambda o: None, name='source')
        self.made = []
        w = self

        class Create:
            def from_name(s, name, *a, **k):
                if a or k:
                    raise Unsupported('the factory is given arguments')
                C = w.e.utils.AVBClassName_dict.get(name)
                if C is None:
                    raise ValueError(name)
                o = w.fresh(C)
                w.made.append(o)
                return o

            def __getattr__(s, name):
                if name.startswith('__'):
                    raise AttributeError(name)
                return lambda *a, **k: s.from_name(name, *a, **k)
        self.dst.create = Create()
        if not same_file:
            def wrong(*a, **k):
                w.x.check(False, 'copies are created in the file they are copied into')
            self.src.create = types.SimpleNamespace(from_name=wrong)
        core, attributes = e.core, e.attributes

        def refuse(self, name):
            if name.startswith('__') or name in ('class_id', 'parent'):
                raise AttributeError(name)
            raise Unsupported('%s of a contained object' % name)

        class Copied:
            """what copying a contained object gives"""
            def __init__(self, of, root):
                self.of, self.root, self.parent = of, root, None

        def copy(self, root, parent=None):
            c = Copied(self, root)
            c.parent = parent
            return c

        class Child(core.AVBObject):
            propertydefs_dict = {}
            class_id = b'CHLD'
            __getattr__ = refuse

            def __new__(cls):
                return object.__new__(cls)
        Child.copy = copy

        class Helper(Child):
            class_id = None

        class ChildAttrs(attributes.Attributes):
            pass

        class ChildList(core.AVBRefList):
            pass

        class ChildListObject(core.AVBRefList):
            class_id = b'LSTX'
        for c in (ChildAttrs, ChildList, ChildListObject):
            c.copy = copy
            for n in ('__iter__', '__len__', '__getitem__', 'items', 'values', 'keys', 'append', '__setitem__', 'pyvc_iter'):
                if n != 'pyvc_iter':
                    setattr(c, n, nothing)

        class Plain(list):
            """a plain list of any length of any values"""
            depth = 0

            def pyvc_iter(self):
                return self.seq

            def __bool__(self):
                return bool(self.seq.n != 0)
            __iter__ = __len__ = __getitem__ = nothing
        self.Copied, self.Child, self.Helper, self.ChildAttrs, self.ChildList, self.ChildListObject, self.Plain = (
            Copied, Child, Helper, ChildAttrs, ChildList, ChildListObject, Plain)
        self.owner = Helper()
        self.owner.__dict__['tag'] = 'owner'

    def child(self, c):
        if issubclass(c, (list, dict)):
            o = (list if issubclass(c, list) else self.e.core.OrderedDict if hasattr(self.e.core, 'OrderedDict') else dict).__new__(c)
            if issubclass(c, list):
                o.root, o.parent = self.src, None
            else:
                o.root = self.src
            return o
        return c()

    def value(self, what, kinds, depth=0):
        x = self.x
        k = x.choose(what, kinds)
        return self.of_kind(k, what, depth)

    def of_kind(self, k, what, depth=0):
        x = self.x
        if k == 'null':
            return None
        if k == 'number':
            return SymZ(z3.Int(what + '.number'))
        if k == 'flag':
            return x.choose(what + '.flag', [True, False])
        if k == 'real':
            return x.choose(what + '.real', [0.0, 2.5])
        if k == 'text':
            return Text(x, what + '.text')
        if k == 'bytes':
            return x.choose(what + '.bytes', [b'', b'ab'])
        if k == 'data':
            return bytearray(x.choose(what + '.data', [b'', b'abc']))
        if k == 'uuid':
            return uuid.UUID(int=7)
        if k == 'time':
            return datetime.datetime(2001, 2, 3, 4, 5, 6)
        if k == 'mob id':
            m = self.e.mobid.MobID()
            m.bytes_le = SymBuf([x.integer('%s.byte%d' % (what, i)) if False else i for i in range(32)], bytearray)
            return m
        if k == 'dict':
            return {'a': 1, 'b': [1, [2]], 'c': {'d': bytearray(b'x')}, 'e': None}
        if k == 'pair':
            return (1, [2, 3])
        if k == 'object':
            return self.child(self.Child)
        if k == 'helper':
            return self.child(self.Helper)
        if k == 'attributes':
            return self.child(self.ChildAttrs)
        if k == 'list object':
            return self.child(self.ChildListObject)
        if k in ('references', 'owned references'):
            l = self.child(self.ChildList)
            l.parent = self.me if k == 'owned references' else None
            return l
        if k == 'list':
            l = list.__new__(self.Plain)
            l.depth = depth
            n = z3.Int(what + '.length')
            x.assume_t(n >= 0)
            memo = {}

            def at(i):
                t = str(z3.simplify(zt(i)))
                if t not in memo:
                    memo[t] = self.value('%s[%s]' % (what, t), ITEMS if depth == 0 else INNER, depth + 1)
                return memo[t]
            l.seq = SymSeq(SymZ(n), at)
            return l
        raise AssertionError(k)

    def fresh(self, C):
        """a new object of a class, as the factory gives it"""
        core = self.e.core
        if issubclass(C, list):
            w = self
            c = type(C.__name__, (C,), dict(append=GOut.append, extend=nothing, insert=nothing, __iadd__=nothing, __setitem__=nothing,
                                            __iter__=nothing, __len__=nothing, __getitem__=nothing, clear=GOut.wipe))
            o = list.__new__(c)
            o.root, o.parent = self.dst, None
            o.log, o.start = [], 'empty'
            return o
        if issubclass(C, dict):
            c = type(C.__name__, (C,), dict(__setitem__=GOut.put, __getitem__=GOut.got, clear=GOut.wipe, update=nothing, setdefault=nothing,
                                            items=nothing, values=nothing, keys=nothing, __iter__=nothing, __len__=nothing,
                                            pop=nothing, __contains__=nothing, __delitem__=nothing, mark_modified=lambda s: None))
            o = core.AVBPropertyData.__new__(c)
            o.root = self.dst
            o.log, o.start = [], 'empty'
            return o
        o = C.__new__(C, root=self.dst)
        g = GProps()
        g.log, g.start = [], 'defaults'
        object.__setattr__(o, 'property_data', g)
        return o


class GOut:
    """a container being filled"""

    def append(self, v):
        self.log.append((None, v))

    def put(self, k, v):
        self.log.append((k, v))

    def got(self, k):
        for a, v in reversed(self.log):
            if isinstance(a, ghost.Tok) and isinstance(k, ghost.Tok) and a.t.eq(k.t):
                return v
        raise Unsupported('reading an entry of the copy')

    def wipe(self):
        self.log, self.start = [], 'empty'


class GProps:
    __setitem__, __getitem__, clear = GOut.put, GOut.got, GOut.wipe

    def __getattr__(self, n):
        if n.startswith('__') or n in ('log', 'start'):
            raise AttributeError(n)
        raise Unsupported('properties.%s' % n)

    def _no(self, *a, **k):
        raise Unsupported('reading the properties of the copy')
    __contains__ = __iter__ = __len__ = __delitem__ = _no


class Source:
    """the properties or entries of the object that is copied: any number of distinct names with any values"""

    def __init__(self, w, kinds, keyed):
        self.w, self.kinds, self.memo, self.keyed = w, kinds, {}, keyed
        self.N = z3.Int('N')
        self.K = z3.Function('K', z3.IntSort(), z3.IntSort())
        w.x.assume_t(self.N >= 0)

    def at(self, i):
        t = z3.simplify(zt(i))
        s = str(t)
        if s not in self.memo:
            self.memo[s] = self.w.value('value %s' % s, self.kinds)
        return self.memo[s]

    def key(self, i):
        return Name(self.K(z3.simplify(zt(i))))

    def items(self):
        return SymSeq(SymZ(self.N), lambda i: (self.key(i), self.at(i)))

    def keys(self):
        return SymSeq(SymZ(self.N), self.key)

    def values(self):
        return SymSeq(SymZ(self.N), self.at)

    def get(self, k):
        for s in list(self.memo) + [None]:
            pass
        if isinstance(k, Name) and k.t.decl().eq(self.K):
            return self.at(SymZ(k.t.arg(0)))
        raise Unsupported('reading one entry')


KINDS = ['null', 'number', 'flag', 'real', 'text', 'bytes', 'data', 'uuid', 'time', 'mob id', 'dict', 'pair', 'object', 'helper', 'attributes',
         'list object', 'references', 'owned references', 'list']
ITEMS = ['null', 'number', 'flag', 'text', 'bytes', 'data', 'mob id', 'dict', 'pair', 'object', 'helper', 'attributes', 'list object',
         'references', 'list']
INNER = ITEMS[:]
REFS = ['null', 'object', 'helper', 'attributes', 'list object', 'number', 'text', 'data', 'dict', 'list']
ENTRIES = ['null', 'number', 'flag', 'text', 'data', 'object', 'attributes', 'list object']


def equal_apart(x, w, v, c, label):
    """c equals v and has no mutable part in common with it"""
    if isinstance(v, Sym) and not isinstance(v, SymBuf):
        if c is v:
            return
        if not isinstance(c, type(v)) and not isinstance(v, SymZ):
            return x.check(False, '%s is kept' % label)
        return x.check(c == v, '%s is kept' % label)
    if isinstance(v, (bytes, bytearray)) and isinstance(c, SymBuf):     # a buffer made anew
        x.check(c.kind is type(v), '%s keeps its type' % label)
        return x.check(c == v, '%s is kept' % label)
    if v is None or isinstance(v, (bool, int, float, str, bytes, uuid.UUID, datetime.datetime)):
        x.check(type(c) is type(v) and c == v, '%s is kept' % label)
        return
    if isinstance(v, SymBuf):
        x.check(isinstance(c, SymBuf) and c is not v and c.kind is v.kind, '%s is a copy' % label)
        return x.check(c == v, '%s is kept' % label)
    x.check(type(c) is type(v), '%s keeps its type' % label)
    if isinstance(v, (dict, list, tuple, bytearray)):
        if not isinstance(v, tuple):
            x.check(c is not v, '%s is shared with the copy' % label)
        x.check(len(c) == len(v), '%s keeps its length' % label)
        if isinstance(v, dict):
            x.check(list(c) == list(v), '%s keeps its keys' % label)
            for k in v:
                equal_apart(x, w, v[k], c[k], label)
        elif isinstance(v, bytearray):
            x.check(bytes(c) == bytes(v), '%s is kept' % label)
        else:
            for a, b in zip(v, c):
                equal_apart(x, w, a, b, label)
        return
    if type(v).__name__ == 'MobID':
        x.check(c is not v, '%s is shared with the copy' % label)
        return equal_apart(x, w, v.bytes_le, c.bytes_le, label)
    raise Unsupported('comparing %s' % type(v).__name__)


def good(x, w, v, c, label, holder=None, outer=None):
    """c is a copy of the value v"""
    if isinstance(v, (w.Child, w.ChildAttrs, w.ChildList, w.ChildListObject)):
        x.check(c is not v, '%s: a contained object is copied' % label)
        x.check(isinstance(c, w.Copied) and c.of is v, '%s: a contained object is copied' % label)
        x.check(c.root is w.dst, '%s: a contained object is owned by the destination' % label)
        if isinstance(v, w.ChildList):
            x.check(c.parent is None or c.parent is holder, '%s: a list does not report changes to an owner outside the copy' % label)
        return
    if isinstance(v, w.Plain):
        x.check(c is not v, '%s: a list is copied' % label)
        if not isinstance(c, RList):
            raise Unsupported('a list of any length made in another way')
        x.check(c.src is v, '%s: the items of the list are copied' % label)
        if v.depth and outer is not None and outer.__code__ is c.f.__code__ and cells(outer) == cells(c.f) and outer.__globals__ is c.f.__globals__:
            return      # the items of an inner list are copied by the same code: by induction
        if v.depth > 1:
            raise Unsupported('lists in lists are copied in different ways')
        j = x.fresh_int('j')
        x.assume_t(z3.And(j >= 0, j < zt(v.seq.n)))
        item = v.seq.at(SymZ(j))
        good(x, w, item, c.f(item), label + ' item', None, c.f)
        return
    equal_apart(x, w, v, c, label)


def cells(f):
    out = []
    for n, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
        v = c.cell_contents
        if isinstance(v, types.SimpleNamespace) or callable(v):
            out.append((n, id(v)))
    return out


class Filling:
    """invariant of the loop that fills the copy: after k turns it has the copies of the first k entries and nothing else"""

    def __init__(self, w, src, keyed):
        self.w, self.src, self.keyed = w, src, keyed
        self.count = None

    def target(self):
        made = self.w.made
        if len(made) != 1:
            raise Unsupported('%d objects are created' % len(made))
        o = made[0]
        return o, getattr(o, 'property_data', o) if not isinstance(o, (list, dict)) else o

    def spec(self):
        def heap(x, k):
            o, g = self.target()
            g.log, g.start, self.count = [], 'first', zt(k)

        def inv(x, v):
            o, g = self.target()
            if v.phase == 'init':
                return [g.start == 'empty' and not g.log]
            if v.phase == 'assume':
                return []
            ok = len(g.log) == 1 and g.start == 'first'
            if ok:
                self.entry(x, o, g.log[0], z3.simplify(self.count))
            return [ok]
        return LoopSpec({}, inv, heap=heap)

    def entry(self, x, o, kv, i):
        k, c = kv
        if self.keyed:
            x.check(isinstance(k, Name) and k == self.src.key(SymZ(i)), 'a value is stored under the name it has in the source')
        good(x, self.w, self.src.at(SymZ(i)), c, 'a value', o)

    def done(self, x, o):
        t, g = self.target()
        x.check(o is t, 'the new object is the result')
        x.check(g.start == 'first' and not g.log and bool(mkbool(self.count == self.src.N)), 'internal: the copy has been filled by the loop')


def finish(x, w, C, o, keyed=True):
    x.check(o.__class__.__name__ == C, 'the copy is of the same class')
    x.check(o.root is w.dst, 'the copy is owned by the destination')


def source_object(x, e, w, cls):
    C = e.utils.AVBClassName_dict[cls]
    s = C.__new__(C, root=w.src)
    src = Source(w, KINDS, True)
    kept = {}

    class Props:
        items, keys, values = src.items, src.keys, src.values

        def pyvc_iter(self):
            return src.keys()

        def __getitem__(self, k):
            return src.get(k)

        def __getattr__(self, n):
            raise Unsupported('properties.%s' % n)

        def _no(self, *a):
            x.check(False, 'copying changes the source')
        __setitem__ = __delitem__ = clear = pop = update = _no
    object.__setattr__(s, 'property_data', Props())
    w.me = s
    return s, src


def copy_object(cls, same_file):
    def p(x, e):
        w = World(x, e, same_file)
        s, src = source_object(x, e, w, cls)
        fill = Filling(w, src, True)
        x.loops = {'AVBObject.copy#0': fill.spec()}
        before = s.property_data
        o = s.copy(w.dst)
        x.check(s.property_data is before and s.root is w.src, 'copying changes the source')
        finish(x, w, cls, o)
        x.check(type(o) is type(s), 'the copy is of the same class')
        fill.done(x, o)
    return ('copy %s%s' % (cls, ' within its file' if same_file else ''), p, 'symbolic')


def copy_list(cls, same_file):
    def p(x, e):
        w = World(x, e, same_file)
        C = getattr(e.core, cls, None) or getattr(e.attributes, cls)
        src = Source(w, REFS, False)

        def no(self, *a):
            x.check(False, 'copying changes the source')
        c = type(cls, (C,), dict(pyvc_iter=lambda self: src.values(), __iter__=nothing, __len__=nothing, __getitem__=nothing,
                                 **{n: no for n in ('append', 'extend', 'insert', 'pop', 'clear', '__setitem__', '__delitem__', 'remove', 'reverse', 'sort')}))
        s = list.__new__(c)
        s.root, s.parent = w.src, x.choose('parent', [None, w.owner])
        w.me = s
        fill = Filling(w, src, False)
        x.loops = {'AVBRefList.copy#0': fill.spec()}
        o = s.copy(w.dst)
        finish(x, w, cls, o)
        x.check(isinstance(o, C), 'the copy is of the same class')
        x.check(o.parent is None or s.parent is None or o.parent is not s.parent, 'the copy does not report its changes to the owner of the source')
        fill.done(x, o)
    return ('copy %s%s' % (cls, ' within its file' if same_file else ''), p, 'symbolic')


def copy_attributes(same_file):
    def p(x, e):
        w = World(x, e, same_file)
        C = e.attributes.Attributes
        src = Source(w, ENTRIES, True)

        def no(self, *a):
            x.check(False, 'copying changes the source')
        c = type('Attributes', (C,), dict(items=lambda self: src.items(), keys=lambda self: src.keys(), values=lambda self: src.values(),
                                          pyvc_iter=lambda self: src.keys(), __getitem__=lambda self, k: src.get(k), __iter__=nothing,
                                          __len__=nothing, **{n: no for n in ('__setitem__', '__delitem__', 'clear', 'pop', 'popitem', 'update')}))
        s = e.core.AVBPropertyData.__new__(c)
        s.root = w.src
        w.me = s
        fill = Filling(w, src, True)
        x.loops = {'Attributes.copy#0': fill.spec()}
        o = s.copy(w.dst)
        finish(x, w, 'Attributes', o)
        x.check(isinstance(o, C), 'the copy is of the same class')
        fill.done(x, o)
    return ('copy Attributes%s' % (' within its file' if same_file else ''), p, 'symbolic')


def copy_value(kind):
    def p(x, e):
        w = World(x, e, False)
        w.me = w.owner
        v = w.of_kind(kind, 'v')
        c = e.core.copy_value(v, w.dst)
        if isinstance(v, w.ChildList):
            v.parent = None
        good(x, w, v, c, 'the value')
    return ('copy_value: %s' % kind, p, 'symbolic')


PROPS = [copy_object(c, False) for c in OBJECTS] + [copy_object(c, True) for c in ('Sequence', 'Composition', 'Bin', 'Track')]
PROPS += [copy_list(c, s) for c in LISTS for s in (False, True)] + [copy_attributes(s) for s in (False, True)]
PROPS += [copy_value(k) for k in KINDS]


# ------------------------------------------------------------------------------------------------ concrete runs

class Maker:
    """objects of any class with any properties, from the record layouts"""

    def __init__(self, e, r, f):
        from . import concrete, layout
        from .layouts import bins, components, essence, misc, trackgroups
        self.e, self.r, self.f = e, r, f
        self.concrete, self.layout = concrete, layout
        self.layouts = [l for m in (components, trackgroups, essence, misc, bins) for l in m.LAYOUTS if 'more items than' not in l.name]
        self.left = 25
        maker = self

        class H(concrete.Harness):
            def real(self, v, rng, parent=None, plain=False):
                from .concrete import VLeaf
                if isinstance(v, VLeaf) and v.kind == 'ref':
                    return maker.ref(plain)
                return super().real(v, rng, parent, plain)
        self.h = H(e.real, 'little')
        self.h.root = f

    def ref(self, plain=False):
        r = self.r
        if self.left <= 0 or r.random() < .4:
            return None
        self.left -= 1
        o = self.object(r.choice(self.layouts))
        if not plain and r.random() < .4 and getattr(o, 'class_id', None):
            return self.e.real['utils'].AVBObjectRef(self.f, o.instance_id)
        return o

    def object(self, lay):
        r, f = self.r, self.f
        reading, f.reading = f.reading, True
        try:
            env = self.layout.ConcEnv('little', self.concrete.RandChooser(self.e.real, random.Random(r.getrandbits(40))))
            v, segs = lay.make(env)
            o = self.h.real(v, r)
            if hasattr(o, 'property_data'):
                d = o.property_data
                import collections
                for k in list(dict.keys(d)):
                    c = r.random()
                    if c < .1:
                        collections.OrderedDict.__delitem__(d, k)
                    elif c < .15:
                        collections.OrderedDict.__setitem__(d, k, None)
            if getattr(o, 'class_id', None):
                f.next_object_id += 1
                o.instance_id = f.next_object_id
                f.object_cache[o.instance_id] = o
                f.modified_objects[o.instance_id] = o
            return o
        finally:
            f.reading = reading


def deref(e, f, v):
    if isinstance(v, e.real['utils'].AVBObjectRef):
        return v.value
    return v


def tree(e, v, where, path=()):
    """the contents of an object, contained ones in full; identities left out"""
    U = e.real['utils']
    v = deref(e, None, v)
    if hasattr(v, 'property_data'):
        return (type(v), [(k, tree(e, w, where)) for k, w in dict.items(v.property_data)])
    if isinstance(v, dict):
        return (type(v), [(k, tree(e, dict.__getitem__(v, k), where)) for k in list(v)])
    if isinstance(v, (list, tuple)):
        return ('references' if hasattr(v, 'root') else type(v), type(v) if hasattr(v, 'class_id') else None,
                [tree(e, w, where) for w in (list.__iter__(v) if isinstance(v, list) else v)])
    if type(v).__name__ == 'MobID':
        return ('mob id', bytes(v.bytes_le))
    return (type(v), v)


def owners(e, v, out):
    v = deref(e, None, v)
    if hasattr(v, 'property_data'):
        out.append(v)
        vs = list(dict.values(v.property_data))
    elif isinstance(v, dict):
        if hasattr(v, 'root'):
            out.append(v)
        vs = list(dict.values(v))
    elif isinstance(v, (list, tuple)):
        if hasattr(v, 'root'):
            out.append(v)
        vs = list(list.__iter__(v)) if isinstance(v, list) else list(v)
    else:
        return
    for w in vs:
        owners(e, w, out)


def difference(a, b, where=''):
    if a == b:
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, '%s/%s' % (where, x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i))
            if d:
                return d
    return '%s: %.80r became %.80r' % (where, a, b)


def resolve(e, o, seen=None):
    """the values of an object with its references resolved, for looking at what two objects have in common"""
    seen = {} if seen is None else seen
    todo = [o]
    while todo:
        v = deref(e, None, todo.pop())
        if id(v) in seen:
            continue
        if hasattr(v, 'property_data'):
            seen[id(v)] = v
            seen[id(v.property_data)] = v.property_data
            todo += list(dict.values(v.property_data))
        elif isinstance(v, dict):
            seen[id(v)] = v
            todo += list(dict.values(v))
        elif isinstance(v, list):
            seen[id(v)] = v
            todo += list(list.__iter__(v))
        elif isinstance(v, tuple):
            todo += list(v)
        elif isinstance(v, bytearray):
            seen[id(v)] = v
        elif type(v).__name__ == 'MobID':
            seen[id(v)] = v
            seen[id(v.bytes_le)] = v.bytes_le
    return seen


def c_copy(x, e):
    r = x.rng
    f = e.avb.open()
    g = f if r.random() < .4 else e.avb.open()
    m = Maker(e, r, f)
    lay = r.choice(m.layouts)
    o = m.object(lay)
    x.note('class', type(o).__name__)
    x.note('destination', 'the same file' if f is g else 'another file')
    if isinstance(o, dict):
        for i in range(r.randrange(0, 4)):
            o[u'entry%d' % i] = r.choice([0, True, -1, u'', u'\u00e9t\u00e9', bytearray(), bytearray(b'abc'), None])
    before = tree(e, o, '')
    x.note('source', repr(before)[:1500])
    c = o.copy(g)
    x.check(type(c) is type(o), 'the copy is a %s' % type(c).__name__)
    x.check(tree(e, o, '') == before, 'copying changes the source')
    d = difference(before, tree(e, c, ''))
    x.check(d is None, 'the copy differs from its source at %s' % d)
    mine = []
    owners(e, c, mine)
    for p in mine:
        x.check(p.root is g, 'the copy holds a %s owned by another file' % type(p).__name__)
        if getattr(p, 'class_id', None):
            x.check(g.modified_objects.get(p.instance_id) is p, 'a %s of the copy is registered for saving' % type(p).__name__)
        parent = getattr(p, 'parent', None) if isinstance(p, list) else None
        x.check(parent is None or any(parent is q for q in mine), 'a list of the copy belongs to an object outside it')
    a, b = resolve(e, o), resolve(e, c)
    both = [v for i, v in a.items() if i in b]
    x.check(not both, 'the copy and its source share %.80r' % both[:1])
    for one, other, which in ((c, o, 'copy'), (o, c, 'source')):
        kept = tree(e, other, '')
        for v in list(resolve(e, one).values()):
            change(r, v)
        d = difference(kept, tree(e, other, ''))
        x.check(d is None, 'a change to the %s is seen at %s of the other' % (which, d))


def change(r, v):
    if isinstance(v, bytearray):
        if len(v):
            v[0] ^= 255
        v.extend(b'z')
    elif type(v).__name__ == 'MobID':
        v.material = uuid.UUID(int=r.getrandbits(128))
    elif hasattr(v, 'property_data'):
        for k in list(dict.keys(v.property_data))[:2]:
            setattr(v, k, 77)
    elif isinstance(v, dict):
        v[u'changed'] = 5
    elif isinstance(v, list):
        v.append(None)


PROPS += [('copies', c_copy, 'concrete')]
