"""C18: objects obtained from the factory of a file.

State of a file, as far as creating is concerned: the counter next_object_id and the two registries.  Invariant: every
identifier in use in the file is at most the counter.  For every class, from any such state, the contract of creating says:
the new object and every object it brings along get different identifiers above the old counter and not above the new one
(so none is in use, and the invariant holds again), each is registered under its identifier in both registries, nothing else
is registered, the properties are the documented ones, and no mutable value reachable from the new object is reachable from
the package (class attributes, module globals, argument defaults, closures) or from the file otherwise.  Objects without
common mutable values cannot see each other's edits, so independence over all histories follows.
"""
import datetime
import gc
import io
import json
import os
import sys
import types
import uuid

from . import fixed
from .fixed import Sym, SymBuf, Unsupported, land, mkbool

DEFAULTS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'defaults.json')))
KINDS = {None: 0, 'picture': 1, 'sound': 2, 'timecode': 3, 'edgecode': 4, 'attribute': 5, 'effectdata': 6,
         'DescriptiveMetadata': 7, 'DataEssenceTrack': 16}
MOBS = {'CompositionMob': 1, 'MasterMob': 2, 'SourceMob': 3}
MODS = ('utils', 'mobid', 'ioctx', 'core', 'attributes', 'components', 'trackgroups', 'bin', 'misc', 'essence', 'interpolation', 'file')
COMPONENTS = [n for n, d in sorted(DEFAULTS.items()) if 'media_kind_id' in d['props'] and n != 'Composition']


def package():
    from . import driver
    return fixed.SymPackage(driver.SRC + '/avb', MODS)


class Log:
    """registry of a file that already holds any objects; records what is stored"""

    def __init__(self):
        self.writes = []

    def __setitem__(self, k, v):
        self.writes.append((k, v))

    def __getattr__(self, n):
        raise Unsupported('registry.%s' % n)

    def _no(self, *a):
        raise Unsupported('reading a registry')
    __getitem__ = __contains__ = __len__ = __iter__ = __delitem__ = _no


def some_file(x, e):
    """a file in any state"""
    F = e.file.AVBFile
    f = F.__new__(F)
    f.check_refs, f.debug_copy_refs, f.reading = True, False, False
    f.modified_objects, f.object_cache = Log(), Log()
    f.next_object_id = x.integer('next_object_id')
    x.assume(f.next_object_id >= 0)
    f.create = e.file.AVBFactory(f)
    f.ictx = f.octx = None
    f.f = None
    return f


IMMUTABLE = (int, float, complex, str, bytes, bool, type(None), uuid.UUID, datetime.datetime, type, types.ModuleType, types.FunctionType,
             types.BuiltinFunctionType, types.MethodType, property, staticmethod, classmethod, types.CodeType, types.CellType,
             types.GetSetDescriptorType, types.MemberDescriptorType, types.WrapperDescriptorType, types.MethodDescriptorType)


def ours(o):
    return (getattr(o, '__module__', None) or '').startswith('avb')


def mutables(start, skip, into_code):
    """id -> object, of every mutable value reachable from the start values; into_code: also through functions and classes"""
    seen, out, todo = {}, {}, list(start)
    while todo:
        o = todo.pop()
        if id(o) in seen or any(o is s for s in skip):
            continue
        seen[id(o)] = o
        if isinstance(o, types.ModuleType):
            if o.__name__.startswith('avb'):
                todo += [v for k, v in vars(o).items() if k != '__builtins__']
            continue
        if isinstance(o, type):
            if into_code and ours(o):
                todo += list(vars(o).values())
            continue
        if isinstance(o, types.FunctionType):
            if into_code and ours(o):
                todo += list(o.__defaults__ or ()) + list((o.__kwdefaults__ or {}).values()) + list(vars(o).values())
                for c in o.__closure__ or ():
                    try:
                        todo.append(c.cell_contents)
                    except ValueError:
                        pass
            continue
        if isinstance(o, (staticmethod, classmethod)):
            todo.append(o.__func__)
            continue
        if isinstance(o, property):
            todo += [o.fget, o.fset]
            continue
        if isinstance(o, types.MethodType):
            todo += [o.__func__, o.__self__]
            continue
        if isinstance(o, Sym):
            if isinstance(o, SymBuf):
                out[id(o)] = o
            continue
        if isinstance(o, (tuple, frozenset)):
            todo += list(o)
            continue
        if isinstance(o, IMMUTABLE) or type(o).__module__ in ('z3.z3', 'z3'):
            continue
        if type(o).__name__ in ('weakref', 'KeyedRef', 'ReferenceType', 'Struct'):
            continue
        if type(o).__module__.startswith('pyvc'):
            continue
        out[id(o)] = o
        if not isinstance(o, bytearray):
            todo += [v for v in gc.get_referents(o) if not isinstance(v, (type, types.ModuleType))]
    return out


def package_values(e):
    mods = [getattr(e, m) for m in MODS]
    return mutables(mods, (), True)


def stored(o, out=None):
    """every object with properties or entries reachable from o, o first"""
    out = [] if out is None else out
    if any(o is p for p in out):
        return out
    if hasattr(o, 'property_data'):
        out.append(o)
        vs = list(dict.values(o.property_data))
    elif isinstance(o, dict):
        if hasattr(o, 'root'):
            out.append(o)
        vs = list(dict.values(o))
    elif isinstance(o, (list, tuple)):
        if hasattr(o, 'root'):
            out.append(o)
        vs = list(list.__iter__(o)) if isinstance(o, list) else list(o)
    else:
        return out
    for v in vs:
        stored(v, out)
    return out


def as_documented(x, e, o, cls, label, over=()):
    """o is a complete new object of the class"""
    x.check(type(o).__name__ == cls and type(o) is e.utils.AVBClassName_dict[cls], '%s: an object of the class' % label)
    over = dict(over)
    if hasattr(o, 'property_data'):
        want = dict(DEFAULTS[cls]['props'])
        d = o.property_data
        x.check(set(dict.keys(d)) == set(want), '%s: exactly the documented properties are set (%s)' % (
            label, ', '.join(sorted(set(dict.keys(d)) ^ set(want)))))
        for n, w in want.items():
            v = dict.__getitem__(d, n)
            if n in over:
                x.check(v == over[n], '%s: %s is the argument' % (label, n))
            else:
                as_value(x, e, v, w, '%s.%s' % (label, n))
    else:
        x.check(len(o) == 0, '%s: empty' % label)


def as_value(x, e, v, w, label):
    k = w[0]
    if k == 'none':
        x.check(v is None, '%s is not set' % label)
    elif k in ('int', 'bool', 'float', 'str'):
        x.check(type(v).__name__ == k and v == w[1], '%s is %r' % (label, w[1]))
    elif k == 'bytes':
        x.check(isinstance(v, bytes) and v == bytes.fromhex(w[1]), '%s is its default' % label)
    elif k == 'uid':
        x.check(fixed.hook_isinstance(v, int) if x.symbolic else isinstance(v, int), '%s is a number' % label)
        x.check(land(v >= 0, v < 2 ** 64) if x.symbolic else 0 <= v < 2 ** 64, '%s fits' % label)
    elif k == 'now':
        x.check(isinstance(v, datetime.datetime) and abs((datetime.datetime.now() - v).total_seconds()) < 3600, '%s is now' % label)
    elif k in ('new mob id', 'zero mob id'):
        x.check(type(v).__name__ == 'MobID', '%s is a mob id' % label)
        if k == 'zero mob id':
            x.check(v == type(v)(), '%s is empty' % label)
    elif k == 'new':
        as_documented(x, e, v, w[1], label)
    elif k in ('list', 'AVBRefList', 'tuple'):
        x.check(isinstance(v, list if k != 'tuple' else tuple), '%s is a list' % label)
        items = list(v)
        x.check(len(items) == len(w[1]), '%s has %d items' % (label, len(w[1])))
        for i, (a, b) in enumerate(zip(items, w[1])):
            as_value(x, e, a, b, '%s[%d]' % (label, i))
    elif k == 'dict':
        x.check(isinstance(v, dict) and set(v) == set(n for n, _ in w[1]), '%s has its keys' % label)
        for n, b in w[1]:
            as_value(x, e, v[n], b, '%s[%r]' % (label, n))
    else:
        raise AssertionError(k)


def tree(x, o, label):
    """nothing that can be changed is reached twice"""
    seen, todo = {}, [o]
    while todo:
        v = todo.pop()
        if hasattr(v, 'property_data'):
            vs = list(dict.values(v.property_data))
        elif isinstance(v, dict):
            vs = list(dict.values(v))
        elif isinstance(v, list):
            vs = list(list.__iter__(v))
        elif isinstance(v, bytearray) or type(v).__name__ == 'MobID':
            vs = []
        elif isinstance(v, tuple):
            todo += v
            continue
        else:
            continue
        x.check(id(v) not in seen, '%s: two places hold the same %s' % (label, type(v).__name__))
        if id(v) in seen:
            return
        seen[id(v)] = v
        todo += vs


def registered(x, f, news, n0, writes):
    """identifiers of the new objects"""
    n1 = f.next_object_id
    ids = []
    for o in news:
        if not getattr(o, 'class_id', None):
            continue
        i = o.instance_id
        x.check(land(i > n0, i <= n1), 'an identifier above all identifiers in use')
        for j in ids:
            x.check(i != j, 'two objects never have the same identifier')
        ids.append(i)
    x.check(n1 >= n0, 'the counter never goes back')
    if not x.symbolic:
        return
    for r, what in ((f.modified_objects, 'for saving'), (f.object_cache, 'in the cache')):
        w = r.writes[writes.get(id(r), 0):]
        for k, v in w:
            x.check(any(v is o for o in news), 'only new objects are registered %s' % what)
            x.check(k == v.instance_id, 'registered %s under its identifier' % what)
        for o in news:
            if getattr(o, 'class_id', None):
                x.check(any(v is o for k, v in w), 'registered %s' % what)


def owned(x, f, news):
    for o in news:
        x.check(getattr(o, 'root', None) is f, 'owned by the file')


def file_values(f):
    vs = [v for k, v in vars(f).items() if k not in ('modified_objects', 'object_cache', 'content', 'fast_readers')]
    return mutables(vs, (f, f.__dict__), False)


def checked(x, e, f, make, cls, over=(), pre=None):
    """call make() and check the object it gives"""
    n0 = f.next_object_id
    writes = {id(r): len(r.writes) for r in (f.modified_objects, f.object_cache)} if x.symbolic else {}
    before = package_values(e)
    o = make()
    as_documented(x, e, o, cls, cls, over)
    tree(x, o, cls)
    news = stored(o)
    owned(x, f, news)
    registered(x, f, news, n0, writes)
    mine = mutables([o], (f,), False)
    for what, other in (('the package', before), ('the package', package_values(e)), ('the file', file_values(f))):
        both = [v for i, v in mine.items() if i in other]
        x.check(not both, 'shares nothing that can be changed with %s%s' % (what, ' (%.60r)' % both[:1] if both else ''))
    return o, mine


def create(cls):
    def p(x, e):
        f = some_file(x, e)
        a, am = checked(x, e, f, getattr(f.create, cls), cls)
        b, bm = checked(x, e, f, lambda: f.create.from_name(cls), cls)
        x.check(a is not b and not set(am) & set(bm), 'two new objects share nothing that can be changed')
        if getattr(a, 'class_id', None):
            x.check(a.instance_id != b.instance_id, 'two objects never have the same identifier')
    return ('create ' + cls, p, 'symbolic')


class Text(Sym):
    pyvc_text = True

    """any text; equal to a literal or to none of those it was compared with"""
    def __init__(self, x, name):
        import z3
        self.x, self.t, self.name, self.lits = x, z3.Int(name), name, {}

    def __eq__(self, o):
        import z3
        if isinstance(o, str):
            if o not in self.lits:
                self.lits[o] = len(self.lits)
            return mkbool(self.t == z3.IntVal(self.lits[o]))
        if o is self:
            return True
        if o is None:
            return False
        raise Unsupported('comparing a text')

    def __ne__(self, o):
        return fixed.lnot(self == o)

    def __hash__(self):
        raise Unsupported('hash of a text')

    def __bool__(self):
        return bool(fixed.lnot(self == u''))

    def __add__(self, o):
        return u'some text'
    __radd__ = __add__

    def __getattr__(self, n):
        if n in ('property_data', 'root'):
            raise AttributeError(n)
        raise Unsupported('text.%s' % n)

    def is_none_of(self, lits):
        """assume it"""
        for l in lits:
            self.x.assume(fixed.lnot(self == l))

    def __str__(self):
        return 'some text'
    __repr__ = __format__ = lambda self, *a: 'some text'


def with_args(cls):
    """a component: edit rate and media kind, by keyword or by position"""
    def p(x, e):
        for kind, code in KINDS.items():
            f = some_file(x, e)
            r = x.integer('edit_rate')
            make = getattr(f.create, cls)
            for how in (lambda: make(edit_rate=r, media_kind=kind), lambda: make(r, kind), lambda: f.create.from_name(cls, r, media_kind=kind)):
                o, _ = checked(x, e, f, how, cls, dict(edit_rate=r, media_kind_id=code))
                x.check(o.media_kind == kind, 'the media kind is the argument')
            o, _ = checked(x, e, f, lambda: make(media_kind=kind), cls, dict(media_kind_id=code))
            o, _ = checked(x, e, f, lambda: make(r), cls, dict(edit_rate=r))
    return ('arguments of ' + cls, p, 'symbolic')


def refuses(x, f, *a, **k):
    try:
        f(*a, **k)
    except Exception as ex:
        if isinstance(ex, (Unsupported, fixed.Infeasible, fixed.Failed)):
            raise
        return True
    return False


def media_kind(x, e):
    """a media kind that does not exist is rejected"""
    t = Text(x, 'media kind')
    t.is_none_of([k for k in KINDS if k])
    f = some_file(x, e)
    for c in ('Sequence', 'SourceClip', 'Filler'):
        x.check(refuses(x, getattr(f.create, c), media_kind=t), 'an unknown media kind is rejected')


def mob(x, e):
    name = Text(x, 'name')
    for how in range(3):
        for kind, code in MOBS.items():
            f = some_file(x, e)
            make = f.create.Composition
            fn = [lambda: make(name=name, mob_type=kind), lambda: make(name, kind),
                  lambda: f.create.from_name('Composition', name, mob_type=kind)][how]
            o, _ = checked(x, e, f, fn, 'Composition', dict(name=name, mob_type_id=code))
            x.check(o.mob_type == kind, 'the mob type is the argument')
            o, _ = checked(x, e, f, lambda: make(mob_type=kind), 'Composition', dict(mob_type_id=code))
        f = some_file(x, e)
        o, _ = checked(x, e, f, lambda: f.create.Composition(name), 'Composition', dict(name=name))


def mob_type(x, e):
    """a mob type that does not exist is rejected"""
    t = Text(x, 'mob type')
    t.is_none_of(MOBS)
    f = some_file(x, e)
    x.check(refuses(x, f.create.Composition, name=u'n', mob_type=t), 'an unknown mob type is rejected')
    x.check(refuses(x, f.create.Composition, u'n', t), 'an unknown mob type is rejected')


class NameTable(dict):
    """the table of classes, asked for any name"""
    def find(self, k):
        if not isinstance(k, Text):
            return k
        for n in dict.keys(self):
            if k == n:
                return n
        return u'no class has this name'

    def get(self, k, d=None):
        return dict.get(self, self.find(k), d)

    def __getitem__(self, k):
        return dict.__getitem__(self, self.find(k))

    def __contains__(self, k):
        return dict.__contains__(self, self.find(k))


def unknown_class(x, e):
    """a class that does not exist is rejected and nothing is registered"""
    f = some_file(x, e)
    n0 = f.next_object_id
    names = ['', 'Nope', 'sequence', 'SEQUENCE', 'AVBObject', 'AVBFile', 'Component', 'object', 'Sequence ', 'dict'] if x.symbolic else [
        x.rng.choice(['Nope', 'component', '__init__x', 'Mob', u'\u00e9']) + str(x.rng.randrange(99))]
    for n in names:
        if n in DEFAULTS:
            continue
        for how in (lambda: f.create.from_name(n), lambda: getattr(f.create, n)()):
            x.check(refuses(x, how), 'a class that does not exist is rejected')
    if x.symbolic:
        t = Text(x, 'class name')
        t.is_none_of(DEFAULTS)
        table = e.utils.AVBClassName_dict
        e.utils.AVBClassName_dict = NameTable(table)
        try:
            x.check(refuses(x, f.create.from_name, t), 'a class that does not exist is rejected')
            x.check(refuses(x, f.create.__getattr__(t)), 'a class that does not exist is rejected')
        finally:
            e.utils.AVBClassName_dict = table
    x.check(f.next_object_id == n0, 'a rejected class takes no identifier')
    if x.symbolic:
        x.check(not f.modified_objects.writes and not f.object_cache.writes, 'a rejected class registers nothing')


# ------------------------------------------------------------------------------------------------ concrete runs

def snapshot(o):
    """the contents of a new object, deeply"""
    def s(v, seen):
        if id(v) in seen:
            return 'again'
        seen = seen | {id(v)}
        if hasattr(v, 'property_data'):
            return (type(v).__name__, getattr(v, 'instance_id', None), [(k, s(w, seen)) for k, w in dict.items(v.property_data)])
        if isinstance(v, dict):
            return (type(v).__name__, [(k, s(w, seen)) for k, w in dict.items(v)])
        if isinstance(v, (list, tuple)):
            return (type(v).__name__, [s(w, seen) for w in (list.__iter__(v) if isinstance(v, list) else v)])
        if type(v).__name__ == 'MobID':
            return bytes(v.bytes_le)
        if isinstance(v, bytearray):
            return bytes(v)
        return v
    return s(o, frozenset())


def scramble(x, o, depth=0):
    """change everything that can be changed in place"""
    r = x.rng
    if depth > 6:
        return
    if hasattr(o, 'property_data'):
        for k in list(dict.keys(o.property_data)):
            v = dict.__getitem__(o.property_data, k)
            if isinstance(v, (list, dict, bytearray)) or hasattr(v, 'property_data') or type(v).__name__ == 'MobID':
                scramble(x, v, depth + 1)
            elif isinstance(v, int):
                setattr(o, k, v + 1)
    elif isinstance(o, dict):
        for k in list(dict.keys(o)):
            scramble(x, dict.__getitem__(o, k), depth + 1)
        o['changed'] = r.randrange(1000)
    elif isinstance(o, list):
        for v in list(list.__iter__(o)):
            scramble(x, v, depth + 1)
        list.append(o, r.randrange(1000))
    elif isinstance(o, bytearray):
        o.extend(b'changed')
    elif type(o).__name__ == 'MobID':
        o.material = uuid.UUID(int=r.getrandbits(128))


def c_create(x, e):
    """creations and edits in turn, in a new or an opened file"""
    r = x.rng
    from . import identprops
    if r.random() < .4:
        data = identprops.save(identprops.sample_file(e, r), r.choice(['little', 'big']))
        f = identprops.reopen(e, data)
        n = len(f.object_positions) - 1
        for i in r.sample(range(1, n + 1), min(n, 5)):
            f.read_object(i)
        used = set(range(1, n + 1))
    else:
        f = e.avb.open()
        used = set()
    x.check(not used & set(f.modified_objects) or used, 'start')
    live = [f.content]
    for o in stored(f.content):
        if getattr(o, 'class_id', None) and hasattr(o, 'instance_id'):
            used.add(o.instance_id)
    made = []
    steps = []
    for k in range(r.randrange(2, 9)):
        cls = r.choice(sorted(DEFAULTS))
        over, args, kw = {}, [], {}
        if cls in COMPONENTS and r.random() < .6:
            over['edit_rate'] = r.choice([24, 25, 29.97, 48000, 0])
            kind = r.choice(list(KINDS))
            over['media_kind_id'] = KINDS[kind]
            args, kw = r.choice([([over['edit_rate'], kind], {}), ([], dict(edit_rate=over['edit_rate'], media_kind=kind)),
                                 ([over['edit_rate']], dict(media_kind=kind))])
        elif cls == 'Composition' and r.random() < .8:
            t = r.choice(list(MOBS))
            over = dict(name=r.choice([u'mob %d' % k, u'']), mob_type_id=MOBS[t])
            args, kw = r.choice([([over['name'], t], {}), ([], dict(name=over['name'], mob_type=t)), ([over['name']], dict(mob_type=t))])
        steps.append((cls, args, kw))
        x.note('creations', steps)
        before = [snapshot(o) for o in live]
        fn = getattr(f.create, cls) if r.random() < .7 else (lambda *a, **k: f.create.from_name(cls, *a, **k))
        o, _ = checked(x, e, f, lambda: fn(*args, **kw), cls, over)
        news = [p for p in stored(o) if getattr(p, 'class_id', None)]
        for p in news:
            x.check(p.instance_id not in used, 'identifier %d is in use already' % p.instance_id)
            used.add(p.instance_id)
            x.check(f.modified_objects.get(p.instance_id) is p and f.object_cache.get(p.instance_id) is p, 'registered')
        x.check([snapshot(o) for o in live] == before, 'creating an object changes no other')
        live.append(o)
        if r.random() < .6:
            i = r.randrange(1, len(live))
            before = [snapshot(p) for j, p in enumerate(live) if j != i]
            x.note('edit', live[i].__class__.__name__)
            scramble(x, live[i])
            x.check([snapshot(p) for j, p in enumerate(live) if j != i] == before, 'changing %s changes another object' % type(live[i]).__name__)
    mobs = [bytes(o.mob_id.bytes_le) for o in live if type(o).__name__ == 'Composition']
    x.check(len(set(mobs)) == len(mobs), 'mobs have different mob ids')


def c_reject(x, e):
    r = x.rng
    f = e.avb.open()
    word = ''.join(r.choice('abMobSequence') for _ in range(r.randrange(1, 14)))
    if r.random() < .6:
        known = r.choice(sorted(DEFAULTS))
        word = r.choice([known + r.choice('s 2_.'), known.lower(), known.upper(), known[:-1], ' ' + known, known + known, 'avb.' + known])
    x.note('word', word)
    n = f.next_object_id
    m = dict(f.modified_objects)
    if word not in DEFAULTS:
        x.check(refuses(x, f.create.from_name, word), 'a class that does not exist is rejected')
        x.check(refuses(x, lambda: getattr(f.create, word)()), 'a class that does not exist is rejected')
        x.check(f.next_object_id == n and f.modified_objects == m, 'a rejected class leaves nothing behind')
    part = word
    word = r.choice([word, 'mastermob', 'MASTERMOB', r.choice(list(MOBS)) + word, word + r.choice(list(MOBS)), '', None, 'Mob', 2])
    if word not in MOBS:
        x.check(refuses(x, f.create.Composition, name=u'x', mob_type=word), 'an unknown mob type (%r) is rejected' % word)
    word = r.choice([part, 'Picture', r.choice([k for k in KINDS if k]) + part, '', 'video', 1])
    if word not in KINDS:
        x.check(refuses(x, f.create.Filler, media_kind=word), 'an unknown media kind (%r) is rejected' % word)


def c_new_file(x, e):
    """a new file holds a documented bin"""
    for i in range(2):
        f = e.avb.open()
        as_documented(x, e, f.content, 'Bin', 'content')
        owned(x, f, stored(f.content))
        for o in stored(f.content):
            if getattr(o, 'class_id', None):
                x.check(0 < o.instance_id <= f.next_object_id and f.modified_objects.get(o.instance_id) is o, 'registered')


def new_file(x, e):
    F = e.file.AVBFile
    f, g = F(), F()
    fm, gm = mutables([f.content], (f,), False), mutables([g.content], (g,), False)
    pkg = package_values(e)
    for h, m in ((f, fm), (g, gm)):
        as_documented(x, e, h.content, 'Bin', 'content')
        news = stored(h.content)
        owned(x, h, news)
        registered_new(x, h, news)
        x.check(not any(i in pkg for i in m), 'shares nothing that can be changed with the package')
    x.check(not set(fm) & set(gm), 'two files share nothing that can be changed')


def registered_new(x, f, news):
    ids = [o.instance_id for o in news if getattr(o, 'class_id', None)]
    x.check(len(set(ids)) == len(ids) and all(0 < i <= f.next_object_id for i in ids), 'different identifiers')
    for o in news:
        if getattr(o, 'class_id', None):
            x.check(f.modified_objects.get(o.instance_id) is o and f.object_cache.get(o.instance_id) is o, 'registered')


PROPS = [create(c) for c in sorted(DEFAULTS)]
PROPS += [with_args(c) for c in COMPONENTS]
PROPS += [('unknown media kind', media_kind, 'symbolic'), ('mobs', mob, 'symbolic'), ('unknown mob type', mob_type, 'symbolic'),
          ('unknown class', unknown_class, 'symbolic'), ('new file', new_file, 'symbolic'),
          ('creations and edits', c_create, 'concrete'), ('rejected creations', c_reject, 'concrete'), ('new files', c_new_file, 'concrete')]
