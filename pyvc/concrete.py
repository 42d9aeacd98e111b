"""Concrete records: sampling, replay of counterexamples, and comparison on the real code."""
import datetime
import io
import math
import random
import traceback
import uuid
import z3
from .values import *
from .layout import *


class Big:
    """object table that contains every index"""
    def __len__(self):
        return 1 << 33

    def __getitem__(self, i):
        return 0


class FakeObj:
    class_id = b'FAKE'

    def __init__(self, i, root):
        self.instance_id, self.root = i, root

    def __eq__(self, o):
        return isinstance(o, FakeObj) and o.instance_id == self.instance_id

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.instance_id)

    def __repr__(self):
        return 'obj#%d' % self.instance_id


class Identity:
    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return k

    def get(self, k, d=None):
        return k


class MobPool:
    def __init__(self, mobid):
        self.mobid = mobid


def make_root(mods, order):
    f = mods['file'].AVBFile

    class HarnessFile(f):
        def read_object(self, index):
            return None if index == 0 else FakeObj(index, self)
    r = HarnessFile.__new__(HarnessFile)
    try:
        f.__init__(r)
    except Exception:
        pass
    from weakref import WeakValueDictionary
    for n, v in (('check_refs', True), ('debug_copy_refs', False), ('object_cache', WeakValueDictionary()),
                 ('modified_objects', {}), ('next_object_id', 0), ('f', None), ('fast_readers', {})):
        setattr(r, n, v)
    if not hasattr(r, 'create'):
        r.create = mods['file'].AVBFactory(r)
    r.object_positions = Big()
    r.ictx = r.octx = mods['ioctx'].AVBIOContext(order)
    r.ref_mapping = Identity()
    r.reading = False
    return r


RATES = [24, 25, 30, 60, 50, 23.976, 29.97, 59.94, 12.5, 48000, 44100, 0, 1, 119.88, 47.952, 25.0, 15, 1001, 96000.0,
         2000000000, -25]
CHARS = u'abcXYZ 019_-/\u00e9\u00fc\u2122\u03c0'


class RandChooser:
    def __init__(self, mods, rng, big=False):
        self.m, self.rng, self.big = mods, rng, big
        self.memo = {}
        self.mode = rng.choice(['rand', 'rand', 'bound', 'bound', 'allset', 'noneset'])

    def get(self, key, f):
        if key not in self.memo:
            self.memo[key] = f()
        return self.memo[key]

    def peek(self, name):
        return self.memo[(name, ())]

    def int(self, key, a, b):
        def f():
            r = self.rng
            if self.mode == 'bound' or r.random() < .35:
                c = [a, b, 0, 1, -1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31, b - 1, a + 1]
                return r.choice([x for x in c if a <= x <= b])
            return r.randint(a, b)
        return self.get(key, f)

    def choice(self, key, vs):
        return self.get(key, lambda: self.rng.choice(vs))

    def bool(self, key):
        def f():
            if key[0].split('.')[-1].startswith('has_'):
                if self.mode == 'allset':
                    return True
                if self.mode == 'noneset':
                    return False
            return self.rng.random() < .5
        return self.get(key, f)

    def count(self, key, hi, lo):
        def f():
            if self.big and not key[1]:
                n = self.rng.choice([0, 1, 2, 3, 127, 128, 255, 256, 300])
            else:
                n = self.rng.choice([0, 1, 1, 2, 2, 3, 4, 5])
            return max(lo, min(hi, n))
        return self.get(key, f)

    def str(self, key, maxlen, enc):
        def f():
            r = self.rng
            n = r.choice([0, 0, 1, 2, 5, 9, 20, 31, 255, 256, 300] if not self.big else [0, 1, 255, 256, 65000, maxlen])
            n = min(n, maxlen)
            s, size = [], 0
            while size < n:
                c = r.choice(CHARS) * (1 if n < 400 else 997)
                w = len(c.encode(enc))
                if size + w > n:
                    c, w = 'z' * (n - size), n - size
                s.append(c)
                size += w
            return ''.join(s)
        return self.get(key, f)

    def bytes(self, key, maxlen, minlen=0):
        def f():
            r = self.rng
            if minlen:
                n = minlen
            else:
                n = r.choice([0, 1, 2, 3, 8, 16, 255, 256, 1000])
                if maxlen is not None:
                    n = min(n, maxlen)
            return bytes(bytearray(r.randrange(256) for _ in range(n)))
        return self.get(key, f)

    def val(self, key, kind):
        r = self.rng

        def f():
            if kind == 'rate':
                return r.choice(RATES)
            if kind == 'float':
                return r.choice([0.0, 1.5, -2.25, 1e300, -1e-300, 0.1, r.uniform(-1e6, 1e6), float(r.randint(-9, 9))])
            if kind == 'mobid':
                m = self.m['mobid'].MobID()
                m.bytes_le = bytearray(r.randrange(256) for _ in range(32))
                return m
            if kind == 'uuid':
                return uuid.UUID(int=r.getrandbits(128))
            if kind == 'datetime':
                return datetime.datetime.fromtimestamp(r.choice([1, 86400, 1234567890, r.randrange(1, 1 << 31), (1 << 32) - 2]))
            raise AssertionError(kind)
        return self.get(key, f)


class TooBig(Exception):
    pass


class ModelChooser(RandChooser):
    """values taken from a z3 model of the failed obligation"""
    LIMIT = 70000

    def __init__(self, mods, model, env_sym):
        RandChooser.__init__(self, mods, random.Random(7))
        self.model = model
        self.mode = 'rand'

    def ev(self, key, sort):
        name, idx = key
        if idx:
            t = z3.Function(name, *([INT] * len(idx) + [sort]))(*[z3.IntVal(i) for i in idx])
        else:
            t = z3.Const(name, sort)
        return self.model.eval(t, model_completion=True), t

    def int(self, key, a, b):
        def f():
            v = self.ev(key, INT)[0].as_long()
            return min(max(v, a), b)
        return self.get(key, f)

    def choice(self, key, vs):
        def f():
            v = self.ev(key, INT)[0].as_long()
            return v if v in vs else vs[0]
        return self.get(key, f)

    def bool(self, key):
        return self.get(key, lambda: z3.is_true(self.ev(key, BOOL)[0]))

    def count(self, key, hi, lo):
        def f():
            v = self.ev(key, INT)[0].as_long()
            if v > self.LIMIT or len(key[1]) and v > 300:
                raise TooBig()
            return max(lo, min(hi, v))
        return self.get(key, f)

    def str(self, key, maxlen, enc):
        def f():
            v, t = self.ev(key, SORTS['Str'])
            if z3.is_true(self.model.eval(str_empty(t), model_completion=True)):
                return u''
            n = self.model.eval(blen(enc_fn(enc)(t)), model_completion=True).as_long()
            n = max(1, min(n, maxlen))
            if n > 200000:
                raise TooBig()
            import hashlib
            h = hashlib.md5(str(v).encode()).hexdigest()
            return (h * (n // 32 + 1))[:n]
        return self.get(key, f)

    def bytes(self, key, maxlen, minlen=0):
        def f():
            v, t = self.ev(key, SORTS['Bytes'])
            n = minlen or max(0, self.model.eval(blen(t), model_completion=True).as_long())
            if maxlen is not None:
                n = min(n, maxlen)
            if n > 200000:
                raise TooBig()
            out = bytearray()
            for i in range(n):
                x = self.model.eval(bat(t, z3.IntVal(i)), model_completion=True) if i < 64 else None
                out.append(x.as_long() % 256 if x is not None else i * 7 % 256)
            return bytes(out)
        return self.get(key, f)

    def val(self, key, kind):
        if kind == 'mobid':
            def f():
                v, t = self.ev(key, SORTS['MobID'])
                g = lambda p: self.model.eval(UUIDS[p](mob_material(t)), model_completion=True).as_long()
                m = self.m['mobid'].MobID()
                b = bytearray((hash(str(v)) >> i) & 255 for i in range(32))
                m.bytes_le = b
                u = uuid.UUID(fields=(g('time_low') & 0xffffffff, g('time_mid') & 0xffff, g('time_hi_version') & 0xffff, 1, 2, 3))
                m.bytes_le[16:] = u.bytes_le
                return m
            return self.get(key, f)
        return RandChooser.val(self, key, kind)


# ------------------------------------------------------------------ real objects

class Harness:
    def __init__(self, mods, order):
        self.m = mods
        self.root = make_root(mods, order)
        self.order = order

    def cls(self, name):
        if name == 'list':
            return list
        for m in self.m.values():
            c = getattr(m, name, None)
            if isinstance(c, type):
                return c
        raise KeyError(name)

    def real(self, v, rng, parent=None, plain=False):
        R = lambda x, p=parent, q=False: self.real(x, rng, p, q)
        if isinstance(v, VLeaf):
            if v.kind == 'ref':
                if not plain and rng.random() < .5:
                    return self.m['utils'].AVBObjectRef(self.root, v.t)
                return FakeObj(v.t, self.root) if v.t else None
            if v.kind == 'nstr':
                return v.t or rng.choice([None, u''])
            if v.kind == 'bytearray':
                return bytearray(v.t)
            return v.t
        if isinstance(v, VList):
            cls = self.cls(v.cls)
            if v.cls == 'AVBRefList' and rng.random() < .5:
                cls = list
            if cls is list:
                o = []
            else:
                o = cls.__new__(cls, root=self.root, parent=parent)
            for x in v.items:
                list.append(o, R(x, q=cls is list))
            return o
        if isinstance(v, VDict):
            return {n: R(x) for n, (p, x) in v.fields.items() if p}
        if isinstance(v, VPairs):
            cls = self.cls(v.cls)
            o = cls.__new__(cls)
            o.__init__()
            o.root = self.root
            from collections import OrderedDict
            for k, x in v.pairs:
                OrderedDict.__setitem__(o, k.t, R(x))
            return o
        if isinstance(v, VObj):
            cls = self.cls(v.cls)
            o = cls.__new__(cls, root=self.root)
            for n, (p, x) in v.fields.items():
                if p:
                    from collections import OrderedDict
                    OrderedDict.__setitem__(o.property_data, n, self.real(x, rng, o))
            return o
        raise AssertionError(repr(v))

    def same(self, x, v, where):
        """None or a description of the difference"""
        if isinstance(v, VLeaf):
            k = v.kind
            if k == 'ref':
                if isinstance(x, self.m['utils'].AVBObjectRef):
                    if x.index != v.t:
                        return '%s refers to object %r, stored %r' % (where, x.index, v.t)
                    if x.root is not self.root:
                        return '%s refers to another file' % where
                    return None
                if isinstance(x, FakeObj) or x is None:
                    return None if (x.instance_id if x else 0) == v.t else '%s refers to %r, stored %r' % (where, x, v.t)
                return '%s is %r, stored a reference' % (where, x)
            if k == 'nstr':
                return None if x == (v.t or None) else '%s is %.80r, stored %.80r' % (where, x, v.t)
            if k == 'rate':
                ok = isinstance(x, (int, float)) and math.isclose(x, v.t, rel_tol=1e-12, abs_tol=1e-12)
                return None if ok else '%s is %r, stored %r' % (where, x, v.t)
            if k in ('bytes', 'bytearray'):
                ok = isinstance(x, (bytes, bytearray)) and bytes(x) == v.t
            elif k == 'bool':
                ok = x is v.t or x == v.t and isinstance(x, bool)
            elif k == 'int':
                ok = isinstance(x, int) and not isinstance(x, bool) and x == v.t
            else:
                ok = type(x) is type(v.t) and x == v.t
            return None if ok else '%s is %.120r, stored %.120r' % (where, x, v.t)
        if isinstance(v, VList):
            cls = self.cls(v.cls)
            if type(x) is not cls and not (cls is list and isinstance(x, tuple)):
                return '%s is a %s, expected %s' % (where, type(x).__name__, cls.__name__)
            if cls is not list and getattr(x, 'root', None) is not self.root:
                return '%s belongs to no file' % where
            raw = list(list.__iter__(x)) if isinstance(x, list) else list(x)
            if len(raw) != len(v.items):
                return '%s has %d elements, stored %d' % (where, len(raw), len(v.items))
            for i, (p, q) in enumerate(zip(raw, v.items)):
                d = self.same(p, q, '%s[%d]' % (where, i))
                if d:
                    return d
            return None
        if isinstance(v, VDict):
            if not isinstance(x, dict):
                return '%s is %r' % (where, x)
            return self.same_fields(x, v.fields, where)
        if isinstance(v, VPairs):
            from collections import OrderedDict
            if not isinstance(x, dict):
                return '%s is %r' % (where, x)
            keys = list(OrderedDict.__iter__(x)) if isinstance(x, OrderedDict) else list(x)
            if keys != [k.t for k, _ in v.pairs]:
                return '%s has keys %.200r, stored %.200r' % (where, keys, [k.t for k, _ in v.pairs])
            for k, y in v.pairs:
                d = self.same(dict.__getitem__(x, k.t), y, '%s[%r]' % (where, k.t))
                if d:
                    return d
            return None
        if isinstance(v, VObj):
            if type(x) is not self.cls(v.cls):
                return '%s is a %s, expected %s' % (where, type(x).__name__, v.cls)
            if x.root is not self.root:
                return '%s belongs to no file' % where
            return self.same_fields(x.property_data, v.fields, where)
        raise AssertionError(repr(v))

    def same_fields(self, d, fields, where):
        for n in d:
            if n not in fields or not fields[n][0]:
                return '%s.%s is set to %.80r but was not stored' % (where, n, dict.__getitem__(d, n))
        for n, (p, v) in fields.items():
            if p:
                if n not in d:
                    return '%s.%s is missing' % (where, n)
                e = self.same(dict.__getitem__(d, n), v, where + '.' + n)
                if e:
                    return e
        return None


def jsonable(x):
    if isinstance(x, (bytes, bytearray)):
        return {'hex': bytes(x).hex()} if len(x) < 400 else {'len': len(x)}
    if isinstance(x, (uuid.UUID, datetime.datetime)):
        return str(x)
    if isinstance(x, str) and len(x) > 400:
        return x[:60] + '... (%d characters)' % len(x)
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


def describe(ch):
    return [['%s%s' % (k[0], list(k[1]) if k[1] else ''), jsonable(v)] for k, v in list(ch.memo.items())[:400]]


def run_case(mods, lay, order, chooser, which=('write', 'read')):
    """run one concrete record through the real code; -> None or dict(which, what, data)"""
    env = ConcEnv(order, chooser)
    v, segs = lay.make(env)
    data = encode(segs)
    rng = random.Random(len(data))
    if 'write' in which:
        h = Harness(mods, order)
        obj = h.real(v, rng)
        f = io.BytesIO()
        try:
            obj.write(f)
        except Exception as e:
            return dict(which='write', what='writing raises %s: %s' % (type(e).__name__, str(e)[:200]),
                        expected=data[:400].hex(), trace=traceback.format_exc()[-1500:])
        got = f.getvalue()
        if got != data:
            i = next((i for i, (x, y) in enumerate(zip(got, data)) if x != y), min(len(got), len(data)))
            return dict(which='write', what='written record differs from the layout at byte %d (%d bytes, expected %d)'
                        % (i, len(got), len(data)), expected=data[:2000].hex(), got=got[:2000].hex())
    if 'read' in which:
        h = Harness(mods, order)
        h.root.reading = True
        cls = h.cls(lay.cls)
        f = io.BytesIO(data)
        try:
            obj = cls.__new__(cls, root=h.root)
            if issubclass(cls, dict):
                obj.__init__(obj)
            obj.read(f)
        except Exception as e:
            return dict(which='read', what='reading a well-formed record raises %s: %s' % (type(e).__name__, str(e)[:200]),
                        expected=data[:400].hex(), trace=traceback.format_exc()[-1500:])
        rest = f.read()
        if rest:
            return dict(which='read', what='%d bytes of the record are left unread' % len(rest), expected=data[:2000].hex())
        d = h.same(obj, v, lay.name)
        if d:
            return dict(which='read', what=d, expected=data[:2000].hex())
    return None
