"""Record layouts: one description gives the symbolic record, concrete records and the expected field values.

A layout is a list of items; item.make(env, fields) returns stream segments and adds the fields it stores.
Env is either SymEnv (leaves are z3 terms, functions of the enclosing loop indices) or ConcEnv (leaves are
Python values picked by a chooser).
"""
import datetime
import struct
import uuid
import z3
from .values import *
from .prims import UUIDS, UUID_W, mob_material, in_range, INT_KINDS, sid

SORT_OF = {'float': 'Float', 'str': 'Str', 'bytes': 'Bytes', 'mobid': 'MobID', 'uuid': 'UUID', 'datetime': 'DateTime'}


# ------------------------------------------------------------------ expected values

class V:
    pass


class VLeaf(V):
    """kind: int bool float str nstr bytes bytearray mobid uuid datetime ref const"""
    def __init__(self, kind, t):
        self.kind, self.t = kind, t

    def __repr__(self):
        return '%s:%s' % (self.kind, self.t)


class VList(V):
    def __init__(self, items, cls='list'):
        self.items, self.cls = list(items), cls

    def __repr__(self):
        return '%s%r' % (self.cls, self.items)


class VMany(V):
    """n elements, elem(k) -> (V, facts)"""
    def __init__(self, n, elem, cls='list'):
        self.n, self.elem, self.cls = n, elem, cls


class VDict(V):
    """plain dict with concrete keys: name -> (presence, V)"""
    def __init__(self, fields):
        self.fields = fields

    def __repr__(self):
        return 'dict%r' % (self.fields,)


class VMap(V):
    """mapping with n data keys: elem(k) -> (key V, value V, facts)"""
    def __init__(self, n, elem, cls):
        self.n, self.elem, self.cls = n, elem, cls


class VPairs(V):
    """concrete mapping with an ordered list of (key V, value V)"""
    def __init__(self, pairs, cls):
        self.pairs, self.cls = pairs, cls


class VSwitch(V):
    """alternatives (cond, V)"""
    def __init__(self, alts):
        self.alts = alts


class VObj(V):
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def __repr__(self):
        return '%s%r' % (self.cls, self.fields)


# ------------------------------------------------------------------ environments

class Marks:
    """markers of a record made arbitrary (symbolic records), or one of them made wrong (concrete records)

    known: the optional blocks of the class; a wrong block tag is none of them, 01 (another block) is never written for
    02 (next part) or 03 (end) nor either for 01: those give records that may be well-formed"""

    def __init__(self, known=(), fault=None, rng=None, block=None, tags=(), choices=False):
        self.choices = choices       # markers as they are, choices (a value out of a few) arbitrary
        self.kinds, self.kind_fault = 0, None    # choices so far; the one that gets another value (concrete records)
        self.known, self.fault, self.rng, self.block = set(known), fault, rng, block
        self.n, self.prev, self.tags, self.names, self.done = 0, None, set(tags), {}, None
        self.parts, self.here = 0, False         # ends of parts so far; whether the unknown block goes before this one

    def next(self, v, w, tag):
        version = self.prev == 2 or w != 1
        other = set() if version else {2, 3} if v == 1 else {1} if v in (2, 3) else set()
        if tag or self.prev == 1:
            self.tags.add(v)
            other, version = self.known, True
        if v in (2, 3) and not version:
            self.here = self.parts == self.block
            self.parts += 1
        self.prev = None if version else v
        self.n += 1
        return 'mk%d' % self.n, sorted(other - {v})

    def value(self, v, w, signed, tag):
        name, other = self.next(v, w, tag)
        if self.n - 1 != self.fault:
            return v
        lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
        while True:
            x = self.rng.choice([0, 1, 2, 3, 255, v + 1, v - 1, v ^ 0x80, self.rng.randrange(lo, hi + 1), lo, hi])
            if lo <= x <= hi and x != v and x not in other:
                self.done = (v, x)
                return x


class SymEnv:
    symbolic = True

    def __init__(self, order, prefix='', idx=(), facts=None, marks=None):
        self.order, self.prefix, self.idx = order, prefix, tuple(idx)
        self.facts = facts if facts is not None else []
        self.marks = marks           # when the markers of the record are to be arbitrary: name -> expected value

    def mark(self, v, w, signed, tag=False):
        """a marker that should be v"""
        if self.marks is None or self.marks.choices:
            return z3.IntVal(v)
        name, other = self.marks.next(v, w, tag)
        if self.marks.block is not None:
            return z3.IntVal(v)
        self.marks.names[self.prefix + name] = v
        t = self.int(name, w, signed)
        self.facts.append(z3.And(*[t != o for o in other]))
        return t

    def unknown_block(self):
        """the bytes of an optional block the class does not have, where it goes"""
        if self.marks is None or not self.marks.here:
            return []
        self.marks.here = False
        tag, body = self.int('unknown tag', 1, False), self._leaf('unknown block', SORTS['Bytes'])
        self.facts.append(z3.And(blen(body) >= 0, *[tag != k for k in sorted(self.marks.known)]))
        return [iseg(self, 'u8', z3.IntVal(1)), iseg(self, 'u8', tag), BlobSeg(body, z3.IntVal(0), blen(body))]

    def _leaf(self, name, sort):
        full = self.prefix + name
        if not self.idx:
            return z3.Const(full, sort)
        return z3.Function(full, *([INT] * len(self.idx) + [sort]))(*self.idx)

    def int(self, name, w, signed, lo=None, hi=None):
        t = self._leaf(name, INT)
        a, b = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
        self.facts.append(t >= (a if lo is None else lo))
        self.facts.append(t <= (b if hi is None else hi))
        return t

    def choice(self, name, values, kind=None):
        if self.marks is not None and self.marks.choices:
            t = self.int(name, *INT_KINDS[kind])
            self.marks.names[self.prefix + name] = tuple(values)
            return t
        t = self._leaf(name, INT)
        self.facts.append(z3.Or(*[t == v for v in values]))
        return t

    def stored(self, t, values, kind):
        return t

    def bool(self, name):
        return self._leaf(name, BOOL)

    def present(self, name):
        return self._leaf('has_' + name, BOOL)

    def val(self, name, kind, maxlen=None, encoding=None):
        t = self._leaf(name, SORTS[SORT_OF[kind]])
        if kind == 'bytes':
            self.facts.append(blen(t) >= 0)
            if maxlen is not None:
                self.facts.append(blen(t) <= maxlen)
        if kind == 'str':
            f = enc_fn(encoding)
            self.facts.append(blen(f(t)) >= 0)
            self.facts.append((blen(f(t)) == 0) == str_empty(t))
            self.facts.append(blen(f(t)) <= (65534 if maxlen is None else maxlen))
        return t

    def fixed_bytes(self, name, n):
        t = self._leaf(name, SORTS['Bytes'])
        self.facts.append(blen(t) == n)
        return t

    def count(self, name, hi, lo=0):
        t = self._leaf('n_' + name, INT)
        self.facts.append(t >= lo)
        self.facts.append(t <= hi)
        return t

    def rep(self, n, f):
        k = fresh_int('e')
        sub = SymEnv(self.order, self.prefix, self.idx + (k,), [], self.marks)
        segs = f(sub)[1]
        return [RepSeg(n, k, segs, sub.facts)]

    def elem(self, idx):
        return SymEnv(self.order, self.prefix, self.idx + (idx,), [], self.marks)

    def sub(self, name):
        e = SymEnv(self.order, self.prefix + name + '.', self.idx, self.facts, self.marks)
        return e

    def at_prefix(self, prefix):
        return SymEnv(self.order, prefix, self.idx, self.facts, self.marks)

    def cond(self, c, a, b=()):
        return [CondSeg([(c, tuple(a)), (z3.Not(c), tuple(b))])]

    def switch(self, alts):
        return [CondSeg([(c, tuple(s)) for c, s in alts])]

    def ite(self, c, a, b):
        return z3.If(c, a, b)

    def Not(self, c):
        return z3.Not(c)

    def And(self, *cs):
        return z3.And(*cs)

    def fact(self, c):
        self.facts.append(c)

    def uuid_part(self, mob, part):
        t = UUIDS[part](mob_material(mob))
        self.facts.append(in_range(t, UUID_W[part] // 8, False))
        return t

    def blen(self, t):
        return blen(t)

    def is_empty(self, t):
        return str_empty(t)

    def enc_bytes(self, t, encoding):
        return enc_fn(encoding)(t)


class ConcEnv:
    symbolic = False

    def __init__(self, order, chooser, prefix='', idx=()):
        self.order, self.ch, self.prefix, self.idx = order, chooser, prefix, tuple(idx)
        self.facts = []

    def _k(self, name):
        return (self.prefix + name, self.idx)

    def mark(self, v, w, signed, tag=False):
        m = getattr(self.ch, 'marks', None)
        return v if m is None else m.value(v, w, signed, tag)

    def unknown_block(self):
        m = getattr(self.ch, 'marks', None)
        if m is None or not m.here:
            return []
        m.here = False
        tag = m.rng.choice([t for t in range(256) if t not in m.known])
        body = bytes(bytearray(m.rng.choice([0, 1, 2, 3, 66, 71, 72, m.rng.randrange(256)]) for _ in range(m.rng.randrange(9))))
        m.done = tag
        return [iseg(self, 'u8', 1), iseg(self, 'u8', tag), BlobSeg(body, 0, len(body))]

    def int(self, name, w, signed, lo=None, hi=None):
        a, b = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
        return self.ch.int(self._k(name), a if lo is None else lo, b if hi is None else hi)

    def choice(self, name, values, kind=None):
        return self.ch.choice(self._k(name), values)

    def stored(self, t, values, kind):
        """what the record has for a choice"""
        m = getattr(self.ch, 'marks', None)
        if m is None:
            return t
        m.kinds += 1
        if m.kinds - 1 != m.kind_fault:
            return t
        w, signed = INT_KINDS[kind]
        lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
        x = m.rng.choice([v for v in (0, 3, 5, 8, 16, 255, 256 + t, -t, lo, hi, m.rng.randrange(lo, hi + 1)) if lo <= v <= hi and v not in values])
        m.done = (t, x)
        return x

    def bool(self, name):
        return self.ch.bool(self._k(name))

    def present(self, name):
        return self.ch.bool(self._k('has_' + name))

    def val(self, name, kind, maxlen=None, encoding=None):
        if kind == 'str':
            return self.ch.str(self._k(name), 65534 if maxlen is None else maxlen, encoding)
        if kind == 'bytes':
            return self.ch.bytes(self._k(name), maxlen)
        return self.ch.val(self._k(name), kind)

    def fixed_bytes(self, name, n):
        return self.ch.bytes(self._k(name), n, n)

    def count(self, name, hi, lo=0):
        return self.ch.count(self._k('n_' + name), hi, lo)

    def rep(self, n, f):
        segs = []
        for i in range(n):
            segs.extend(f(ConcEnv(self.order, self.ch, self.prefix, self.idx + (i,)))[1])
        return segs

    def elem(self, idx):
        return ConcEnv(self.order, self.ch, self.prefix, self.idx + (idx,))

    def sub(self, name):
        return ConcEnv(self.order, self.ch, self.prefix + name + '.', self.idx)

    def cond(self, c, a, b=()):
        return list(a) if c else list(b)

    def switch(self, alts):
        for c, s in alts:
            if c:
                return list(s)
        raise AssertionError('no alternative')

    def ite(self, c, a, b):
        return a if c else b

    def Not(self, c):
        return not c

    def And(self, *cs):
        return all(cs)

    def fact(self, c):
        pass

    def uuid_part(self, mob, part):
        return getattr(mob.material, part)

    def blen(self, t):
        return len(t)

    def is_empty(self, t):
        return not t

    def enc_bytes(self, t, encoding):
        return t.encode(encoding)


# ------------------------------------------------------------------ items

class Item:
    def make(self, env, fields):
        raise NotImplementedError


TRUE = {True: z3.BoolVal(True), False: True}


def always(env):
    return TRUE[env.symbolic]


def const_int(env, v):
    return z3.IntVal(v) if env.symbolic else v


def iseg(env, kind, t):
    w, s = INT_KINDS[kind]
    return IntSeg(w, s, env.order, t)


class Raw(Item):
    """constant integer: a marker"""
    def __init__(self, kind, v):
        self.kind, self.v = kind, v

    def make(self, env, fields):
        w, s = INT_KINDS[self.kind]
        t = env.mark(self.v, w, s)
        return env.unknown_block() + [iseg(env, self.kind, t)]


class Zero(Raw):
    """reserved bytes, zero, that readers need not look at"""
    def __init__(self, kind):
        Raw.__init__(self, kind, 0)

    def make(self, env, fields):
        return [iseg(env, self.kind, const_int(env, 0))]


def T(*vs):
    return [Raw('u8', v) for v in vs]


class Int(Item):
    def __init__(self, kind, name, lo=None, hi=None):
        self.kind, self.name, self.lo, self.hi = kind, name, lo, hi

    def make(self, env, fields):
        w, s = INT_KINDS[self.kind]
        t = env.int(self.name, w, s, self.lo, self.hi)
        fields[self.name] = (always(env), VLeaf('int', t))
        return [iseg(env, self.kind, t)]


class Choice(Item):
    def __init__(self, kind, name, values):
        self.kind, self.name, self.values = kind, name, values

    def make(self, env, fields):
        t = env.choice(self.name, self.values, self.kind)
        fields[self.name] = (always(env), VLeaf('int', t))
        return [iseg(env, self.kind, env.stored(t, self.values, self.kind))]


class Bool(Item):
    def __init__(self, name):
        self.name = name

    def make(self, env, fields):
        b = env.bool(self.name)
        fields[self.name] = (always(env), VLeaf('bool', b))
        return [iseg(env, 'u8', env.ite(b, const_int(env, 1), const_int(env, 0)))]


class Val(Item):
    """kind: double exp10 mobid uuid rawuuid datetime"""
    LEAF = {'double': 'float', 'exp10': 'float', 'mobid': 'mobid', 'uuid': 'uuid', 'rawuuid': 'uuid',
            'datetime': 'datetime'}

    def __init__(self, kind, name):
        self.kind, self.name = kind, name

    def make(self, env, fields):
        lk = self.LEAF[self.kind]
        if not env.symbolic and self.kind == 'exp10':
            t = env.ch.val(env._k(self.name), 'rate')
            lk = 'rate'
        else:
            t = env.val(self.name, lk)
        fields[self.name] = (always(env), VLeaf(lk, t))
        return [ValSeg(self.kind, env.order, t)]


class Str(Item):
    def __init__(self, name, encoding='macroman'):
        self.name, self.encoding = name, encoding

    def make(self, env, fields):
        t = env.val(self.name, 'str', 65532 if self.encoding == 'utf-8' else 65534, self.encoding)
        fields[self.name] = (always(env), VLeaf('str', t))
        return [ValSeg('string:' + self.encoding, env.order, t)]


class NameStr(Item):
    """string stored as 0xFFFF when there is none (read back as None, or as empty string)"""
    def __init__(self, name, empty=None):
        self.name, self.empty = name, empty

    def make(self, env, fields):
        t = env.val(self.name, 'str', 65534, 'macroman')
        fields[self.name] = (always(env), VLeaf('nstr' if self.empty is None else 'str', t))
        return env.cond(env.is_empty(t), [iseg(env, 'u16', const_int(env, 0xFFFF))],
                        [ValSeg('string:macroman', env.order, t)])


class ObjRef(Item):
    def __init__(self, name):
        self.name = name

    def make(self, env, fields):
        t = env.int(self.name, 4, False)
        fields[self.name] = (always(env), VLeaf('ref', t))
        return [iseg(env, 'u32', t)]


class FixedBytes(Item):
    def __init__(self, name, n, kind='bytearray'):
        self.name, self.n, self.kind = name, n, kind

    def make(self, env, fields):
        t = env.fixed_bytes(self.name, self.n)
        fields[self.name] = (always(env), VLeaf(self.kind, t))
        if env.symbolic:
            return [BlobSeg(t, z3.IntVal(0), z3.IntVal(self.n))]
        return [BlobSeg(t, 0, self.n)]


class LenBytes(Item):
    """length (of the given integer kind) followed by that many bytes"""
    def __init__(self, lenkind, name, kind='bytearray', maxlen=None, optional_empty=False):
        self.lenkind, self.name, self.kind = lenkind, name, kind
        w, s = INT_KINDS[lenkind]
        self.maxlen = (1 << (8 * w - (1 if s else 0))) - 1 if maxlen is None else maxlen

    def make(self, env, fields):
        t = env.val(self.name, 'bytes', self.maxlen)
        fields[self.name] = (always(env), VLeaf(self.kind, t))
        n = env.blen(t)
        return [iseg(env, self.lenkind, n), BlobSeg(t, const_int(env, 0), n)]


class FourCC(Item):
    """four-character code, stored reversed in little-endian files"""
    def __init__(self, name):
        self.name = name

    def make(self, env, fields):
        t = env.fixed_bytes(self.name, 4)
        fields[self.name] = (always(env), VLeaf('bytes', t))
        return [ValSeg('fourcc', env.order, t)]


class Endian(Item):
    """items stored in one byte order whatever the file's"""
    def __init__(self, order, items):
        self.order, self.items = order, items

    def make(self, env, fields):
        if env.symbolic:
            e = SymEnv(self.order, env.prefix, env.idx, env.facts, env.marks)
        else:
            e = ConcEnv(self.order, env.ch, env.prefix, env.idx)
        return make_items(self.items, e, fields)


class Box(Item):
    """four tagged corner points"""
    def __init__(self, name):
        self.name = name

    def make(self, env, fields):
        segs, pts = [], []
        for i in range(4):
            pt = []
            for c in 'xy':
                t = env.int('%s%d%s' % (self.name, i, c), 4, True)
                segs += [iseg(env, 'u8', env.mark(71, 1, False)), iseg(env, 's32', t)]
                pt.append(VLeaf('int', t))
            pts.append(VList(pt))
        fields[self.name] = (always(env), VList(pts))
        return segs


class IntList(Item):
    """fixed-length list of integers under one field"""
    def __init__(self, kind, name, n, cls='list'):
        self.kind, self.name, self.n, self.cls = kind, name, n, cls

    def make(self, env, fields):
        w, s = INT_KINDS[self.kind]
        ts = [env.int('%s%d' % (self.name, i), w, s) for i in range(self.n)]
        fields[self.name] = (always(env), VList([VLeaf('int', t) for t in ts], self.cls))
        return [iseg(env, self.kind, t) for t in ts]


class Rect(Item):
    def __init__(self, name):
        self.name = name

    def make(self, env, fields):
        return [iseg(env, 's16', env.mark(1, 2, True))] + IntList('s16', self.name, 4).make(env, fields)


class Color(Item):
    def __init__(self, name):
        self.name = name

    def make(self, env, fields):
        return [iseg(env, 's16', env.mark(1, 2, True))] + IntList('u16', self.name, 3).make(env, fields)


class Derived(Item):
    """integer computed from the other fields: fn(env, fields) -> term"""
    def __init__(self, kind, fn):
        self.kind, self.fn = kind, fn

    def make(self, env, fields):
        return [iseg(env, self.kind, self.fn(env, fields))]


class Opt(Item):
    """optional block 01 <tag> items, present iff all named fields are present"""
    def __init__(self, tag, items, name=None):
        self.tag, self.items = tag, items
        self.name = name

    def make(self, env, fields):
        sub = {}
        segs = make_items(self.items, env, sub)
        name = self.name or next(iter(sub))
        p = env.present(name)
        for k, (q, v) in sub.items():
            fields[k] = (env.And(p, q) if not env.symbolic or not z3.is_true(q) else p, v)
        return env.cond(p, [iseg(env, 'u8', env.mark(1, 1, False)),
                            iseg(env, 'u8', env.mark(self.tag, 1, False, True))] + segs)


class Rep(Item):
    """count + elements; elem: ('obj', class name) | 'dict' | 'list' | 'ref' | 'value'"""
    def __init__(self, countkind, name, elem, items=None, listcls='list', hi=None, lo=0, scale=1):
        self.countkind, self.name, self.elem, self.items, self.listcls = countkind, name, elem, items, listcls
        w, s = INT_KINDS[countkind] if countkind else (4, False)
        self.hi = (1 << (8 * w - (1 if s else 0))) - 1 if hi is None else hi
        self.lo = lo
        self.scale = scale
        self.hi //= scale

    def element(self, env):
        """-> (V, segs)"""
        if self.elem == 'ref':
            t = env.int('item', 4, False)
            return VLeaf('ref', t), [iseg(env, 'u32', t)]
        f = {}
        segs = make_items(self.items, env, f)
        if self.elem == 'dict':
            v = VDict(f)
        elif self.elem == 'list':
            v = VList([x for p, x in f.values()])
        elif self.elem == 'value':
            v = next(iter(f.values()))[1]
        else:
            v = VObj(self.elem, f)
        return v, segs

    def make(self, env, fields):
        n = env.count(self.name, self.hi, self.lo)
        sub = env.sub(self.name)
        segs = sub.rep(n, self.element)
        fields[self.name] = (always(env), self.value(env, sub, n))
        head = [iseg(env, self.countkind, n * self.scale)] if self.countkind else []
        return head + segs

    def value(self, env, sub, n):
        if env.symbolic:
            def elem(k):
                e = sub.elem(k)
                v, _ = self.element(e)
                return v, e.facts
            return VMany(n, elem, self.listcls)
        return VList([self.element(sub.elem(i))[0] for i in range(n)], self.listcls)


class CountFirst(Item):
    """count, some other items, then the elements"""
    def __init__(self, countkind, between, name, elem, items, listcls='list'):
        self.between = between
        self.rep = Rep(countkind, name, elem, items, listcls)

    def make(self, env, fields):
        segs = self.rep.make(env, fields)
        return segs[:1] + make_items([self.between], env, fields) + segs[1:]


class Switch(Item):
    """field whose stored type depends on the value of another (already made) integer field"""
    def __init__(self, on, cases):
        self.on, self.cases = on, cases     # [(value, item)]; every item stores the same field

    def make(self, env, fields):
        t = fields[self.on][1].t if self.on in fields else env.lookup(self.on)
        alts, vals = [], []
        name = None
        for v, item in self.cases:
            f = {}
            segs = item.make(_Pre(env, 'v%d_' % v), f)
            name = next(iter(f))
            alts.append((t == v, segs))
            vals.append((t == v, f[name][1]))
        if env.symbolic:
            fields[name] = (always(env), VSwitch(vals))
            if env.marks is not None and env.marks.choices:
                junk = env._leaf('junk', SORTS['Bytes'])
                env.facts.append(blen(junk) >= 0)
                alts.append((z3.Not(z3.Or(*[c for c, x in alts])), [BlobSeg(junk, z3.IntVal(0), blen(junk))]))
        else:
            fields[name] = (True, [v for c, v in vals if c][0])
        return env.switch(alts)


def _Pre(env, p):
    """same environment, leaf names prefixed (facts shared)"""
    if env.symbolic:
        return SymEnv(env.order, env.prefix + p, env.idx, env.facts, env.marks)
    return ConcEnv(env.order, env.ch, env.prefix + p, env.idx)


class OuterSwitch(Switch):
    """like Switch, on a field of the enclosing record"""
    def make(self, env, fields):
        name, w, s = self.on
        if env.symbolic:
            t = z3.Const(name, INT)
        else:
            t = env.ch.peek(name)
        f = {'__on__': (None, VLeaf('int', t))}
        sw = Switch('__on__', self.cases)
        segs = sw.make(env, f)
        del f['__on__']
        fields.update(f)
        return segs


class Group(Item):
    def __init__(self, items):
        self.items = items

    def make(self, env, fields):
        return make_items(self.items, env, fields)


def flat(items):
    out = []
    for i in items:
        if isinstance(i, (list, tuple)):
            out.extend(flat(i))
        else:
            out.append(i)
    return out


def make_items(items, env, fields):
    segs = []
    for i in flat(items):
        segs.extend(i.make(env, fields))
    return segs


class Layout:
    """record layout of one class"""
    def __init__(self, cls, items, kind='object', name=None, which=('write', 'read')):
        self.cls, self.items, self.kind = cls, items, kind
        self.name = name or cls
        self.which = which
        self.tags = set()            # optional blocks of the class that this layout leaves out

    def make(self, env):
        """-> (V, segs)"""
        if self.kind == 'object':
            f = {}
            segs = make_items(self.items, env, f)
            return VObj(self.cls, f), segs
        f = {}
        segs = make_items(self.items, env, f)
        v = f['__self__'][1]
        v.cls = self.cls
        return v, segs


# ------------------------------------------------------------------ concrete encoding (independent of the code)

INT_FMT = {(1, False): 'B', (1, True): 'b', (2, False): 'H', (2, True): 'h', (4, False): 'I', (4, True): 'i',
           (8, False): 'Q', (8, True): 'q'}


def enc_uuid(u, order):
    o = '<' if order == 'little' else '>'
    b = u.bytes
    return (struct.pack('B', 72) + struct.pack(o + 'I', u.time_low) + struct.pack('B', 70) +
            struct.pack(o + 'H', u.time_mid) + struct.pack('B', 70) + struct.pack(o + 'H', u.time_hi_version) +
            struct.pack('B', 65) + struct.pack(o + 'i', 8) + b[8:])


def enc_rate(v, order):
    """edit rate: the shortest decimal form as 32-bit mantissa and 16-bit power of ten (59.94 as 59940e-3)"""
    from fractions import Fraction
    from decimal import Decimal
    d = Fraction(Decimal(repr(v))) if isinstance(v, float) else Fraction(v)
    for e in range(0, 7):
        m = d * 10 ** e
        if m.denominator == 1:
            break
    m = int(m)
    if (m, e) == (5994, 2):
        m, e = 59940, 3
    return struct.pack(('<' if order == 'little' else '>') + 'ih', m, -e)


def encode(segs, alt=None):
    """the bytes of a record; alt may give another well-formed encoding of a value"""
    out = []
    for s in segs:
        other = alt(s) if alt else None
        if other is not None:
            out.append(other)
        elif isinstance(s, IntSeg):
            out.append(struct.pack(('<' if s.order == 'little' else '>') + INT_FMT[(s.w, s.signed)], s.t))
        elif isinstance(s, BlobSeg):
            out.append(bytes(s.t[s.lo:s.hi]))
        elif isinstance(s, ValSeg):
            o = '<' if s.order == 'little' else '>'
            if s.kind == 'double':
                out.append(struct.pack(o + 'd', s.t))
            elif s.kind == 'exp10':
                out.append(enc_rate(s.t, s.order))
            elif s.kind.startswith('string:'):
                b = s.t.encode(s.kind[7:])
                if s.kind == 'string:utf-8' and b:
                    b = b'\0\0' + b
                out.append(struct.pack(o + 'H', len(b)) + b)
            elif s.kind == 'mobid':
                raw = bytes(s.t.bytes_le)
                out.append(struct.pack('B', 65) + struct.pack(o + 'i', 12) + raw[:12])
                for i in range(12, 16):
                    out.append(struct.pack('BB', 68, raw[i]))
                out.append(enc_uuid(uuid.UUID(bytes_le=raw[16:]), s.order))
            elif s.kind == 'fourcc':
                out.append(s.t[::-1] if s.order == 'little' else s.t)
            elif s.kind == 'uuid':
                out.append(enc_uuid(s.t, s.order))
            elif s.kind == 'rawuuid':
                out.append(s.t.bytes_le if s.order == 'little' else s.t.bytes)
            elif s.kind == 'datetime':
                out.append(struct.pack(o + 'I', int(s.t.timestamp())))
            else:
                raise AssertionError(s.kind)
        else:
            raise AssertionError(repr(s))
    return b''.join(out)
