"""Symbolic values, heap records and stream segments of the pyvc verifier."""
import itertools
import z3

INT = z3.IntSort()
BOOL = z3.BoolSort()
SORTS = {n: z3.DeclareSort(n) for n in
         ('Str', 'Bytes', 'Float', 'UUID', 'MobID', 'DateTime', 'FourCC', 'Obj')}
blen = z3.Function('blen', SORTS['Bytes'], INT)            # length of a byte string
bat = z3.Function('bat', SORTS['Bytes'], INT, INT)         # byte at index
str_empty = z3.Function('str_empty', SORTS['Str'], BOOL)
str_enc = {}                                                # encoding -> Str -> Bytes


def enc_fn(encoding):
    e = {'utf8': 'utf-8', 'utf_8': 'utf-8', 'mac_roman': 'macroman', 'mac-roman': 'macroman'}.get(
        encoding.lower(), encoding.lower())
    if e not in str_enc:
        str_enc[e] = z3.Function('enc_' + e, SORTS['Str'], SORTS['Bytes'])
    return str_enc[e]


class Unsupported(Exception):
    """the verifier cannot express this construct: undecided, never a violation by itself"""
    notify = None

    def __init__(self, *a):
        Exception.__init__(self, *a)
        if Unsupported.notify is not None:
            Unsupported.notify(self)


class Mismatch(Exception):
    """the code reads something else than what the record holds at this place (refutation, needs replay)"""


_ids = itertools.count(1)


def fresh_id():
    return next(_ids)


def fresh_int(name='k'):
    return z3.Int('%s!%d' % (name, fresh_id()))


def fresh_bool(name='b'):
    return z3.Bool('%s!%d' % (name, fresh_id()))


def fresh(sort, name='v'):
    return z3.Const('%s!%d' % (name, fresh_id()), SORTS[sort])


class SInt:
    __slots__ = ('t', 'bits')

    def __init__(self, t, bits=None):
        self.t = t
        self.bits = bits

    def __repr__(self):
        return 'SInt(%s)' % self.t


class SBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SBool(%s)' % self.t


class SReal:
    """an exact rational number (stands for a Python float in mathematical arithmetic)"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SReal(%s)' % self.t


class SVal:
    """opaque value; kind is the Python type it stands for"""
    __slots__ = ('sort', 't', 'kind')

    def __init__(self, sort, t, kind=None):
        self.sort = sort
        self.t = t
        self.kind = kind

    def __repr__(self):
        return 'SVal<%s>(%s)' % (self.sort, self.t)


class SBytes:
    """byte string made of segments"""
    __slots__ = ('segs', 'kind')

    def __init__(self, segs, kind=bytes):
        self.segs = tuple(segs)
        self.kind = kind

    def __repr__(self):
        return 'SBytes%r' % (self.segs,)


class SRef:
    """an AVBObjectRef with this root and (symbolic) index"""
    __slots__ = ('idx', 'root')

    def __init__(self, idx, root=None):
        self.idx = idx
        self.root = root

    def __repr__(self):
        return 'SRef(%s)' % (self.idx,)


class SObj:
    """the object a reference index stands for (index 0: None)"""
    __slots__ = ('idx',)

    def __init__(self, idx):
        self.idx = idx

    def __repr__(self):
        return 'SObj(%s)' % (self.idx,)


class SPos:
    __slots__ = ('pos', 'stream')

    def __init__(self, stream, pos):
        self.stream = stream
        self.pos = pos


class Ref:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('Ref', self.id))

    def __repr__(self):
        return 'Ref(%d)' % self.id


class Union:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return 'Union%r' % (self.alts,)


class _Havoc:
    def __repr__(self):
        return 'HAVOC'


HAVOC = _Havoc()


class STuple:
    """tuple holding symbolic values"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'STuple%r' % (self.items,)


class SRange:
    __slots__ = ('lo', 'hi')

    def __init__(self, lo, hi):
        self.lo = lo
        self.hi = hi


class SEnum:
    __slots__ = ('it', 'start')

    def __init__(self, it, start=0):
        self.it = it
        self.start = start


class SIter:
    """builtin iteration view over a heap container; what: list | keys | values | items | reversed"""
    __slots__ = ('ref', 'what')

    def __init__(self, ref, what):
        self.ref = ref
        self.what = what


class GenCall:
    """unstarted generator: function + bound arguments"""
    __slots__ = ('fn', 'locals')

    def __init__(self, fn, locals_):
        self.fn = fn
        self.locals = locals_


class GenExp:
    __slots__ = ('node', 'frame', 'fn')

    def __init__(self, node, frame, fn):
        self.node = node
        self.frame = frame
        self.fn = fn


class Bound:
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn = fn
        self.self = self_


class Intrinsic:
    """method of an abstract receiver"""
    __slots__ = ('name', 'self')

    def __init__(self, name, self_):
        self.name = name
        self.self = self_

    def __repr__(self):
        return 'Intrinsic(%s)' % self.name


class SuperProxy:
    __slots__ = ('cls', 'self')

    def __init__(self, cls, self_):
        self.cls = cls
        self.self = self_


class LambdaVal:
    __slots__ = ('node', 'frame', 'fn')

    def __init__(self, node, frame, fn):
        self.node = node
        self.frame = frame
        self.fn = fn


class ExcVal:
    __slots__ = ('cls', 'args', 'note')

    def __init__(self, cls, args=(), note=''):
        self.cls = cls
        self.args = args
        self.note = note

    def __repr__(self):
        return 'Exc(%s %s)' % (getattr(self.cls, '__name__', self.cls), self.note)


class Ctx:
    """an AVBIOContext of known byte order"""
    __slots__ = ('order',)

    def __init__(self, order):
        self.order = order

    def __repr__(self):
        return 'Ctx(%s)' % self.order


# ---------------------------------------------------------------- heap records (immutable by convention)

class HObj:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}

    def with_attr(self, n, v):
        a = dict(self.attrs)
        a[n] = v
        return HObj(self.cls, a)


class Many:
    """n elements; inst(state, idx) -> value of element idx (may allocate, may add facts to state)"""
    __slots__ = ('n', 'inst', 'tag')

    def __init__(self, n, inst, tag=None):
        self.n = n
        self.inst = inst
        self.tag = tag


class One:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Opt:
    """element v, in the list only under the condition c"""
    __slots__ = ('c', 'v')

    def __init__(self, c, v):
        self.c = c
        self.v = v


class HList:
    __slots__ = ('cls', 'parts', 'attrs')

    def __init__(self, cls, parts=(), attrs=None):
        self.cls = cls
        self.parts = tuple(parts)
        self.attrs = attrs or {}

    def rep(self, parts=None, attrs=None):
        return HList(self.cls, self.parts if parts is None else parts, self.attrs if attrs is None else attrs)


class HDict:
    """entries: concrete key -> (presence, value); items: appended symbolic-key entries (One((k,v)) / Many)"""
    __slots__ = ('cls', 'entries', 'items', 'attrs')

    def __init__(self, cls, entries=None, items=(), attrs=None):
        self.cls = cls
        self.entries = entries if entries is not None else {}
        self.items = tuple(items)
        self.attrs = attrs or {}

    def rep(self, entries=None, items=None, attrs=None):
        return HDict(self.cls, self.entries if entries is None else entries,
                     self.items if items is None else items, self.attrs if attrs is None else attrs)


class HOut:
    __slots__ = ('segs',)

    def __init__(self, segs=()):
        self.segs = tuple(segs)


class HIn:
    """pos: None or (segs, index, parent); prev: the position before the byte read last, where it is known"""
    __slots__ = ('pos', 'prev')

    def __init__(self, pos, prev=False):
        self.pos = pos
        self.prev = prev


# ---------------------------------------------------------------- segments

class Seg:
    pass


class IntSeg(Seg):
    __slots__ = ('w', 'signed', 'order', 't', 'bits')

    def __init__(self, w, signed, order, t, bits=None):
        self.w, self.signed, self.t, self.bits = w, signed, t, bits
        self.order = order if w > 1 else 'little'

    def __repr__(self):
        return '%s%d%s[%s]' % ('s' if self.signed else 'u', self.w * 8, self.order[0], self.t)


class ValSeg(Seg):
    """opaque encoded value: kind in double, exp10, string:<enc>, mobid, uuid, rawuuid, datetime, fourcc"""
    __slots__ = ('kind', 'order', 't')

    def __init__(self, kind, order, t):
        self.kind, self.order, self.t = kind, order, t

    def __repr__(self):
        return '%s%s[%s]' % (self.kind, self.order[0], self.t)


class BlobSeg(Seg):
    """bytes lo..hi of the byte string t"""
    __slots__ = ('t', 'lo', 'hi')

    def __init__(self, t, lo=None, hi=None):
        self.t = t
        self.lo = z3.IntVal(0) if lo is None else lo
        self.hi = blen(t) if hi is None else hi

    def __repr__(self):
        return 'blob[%s %s:%s]' % (self.t, self.lo, self.hi)


class CondSeg(Seg):
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple((c, tuple(s)) for c, s in alts)

    def __repr__(self):
        return 'cond%r' % (self.alts,)


class RepSeg(Seg):
    __slots__ = ('n', 'k', 'segs', 'facts')

    def __init__(self, n, k, segs, facts=()):
        self.n, self.k, self.segs, self.facts = n, k, tuple(segs), tuple(facts)

    def __repr__(self):
        return 'rep[%s*%r]' % (self.n, self.segs)


class Mark(Seg):
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return 'mark%d' % self.id


def subst_seg(s, pairs):
    f = lambda t: z3.substitute(t, *pairs) if z3.is_expr(t) else t
    if isinstance(s, IntSeg):
        return IntSeg(s.w, s.signed, s.order, f(s.t), None if s.bits is None else {i: f(b) for i, b in s.bits.items()})
    if isinstance(s, ValSeg):
        return ValSeg(s.kind, s.order, f(s.t))
    if isinstance(s, BlobSeg):
        return BlobSeg(f(s.t), f(s.lo), f(s.hi))
    if isinstance(s, CondSeg):
        return CondSeg([(f(c), [subst_seg(x, pairs) for x in segs]) for c, segs in s.alts])
    if isinstance(s, RepSeg):
        return RepSeg(f(s.n), s.k, [subst_seg(x, pairs) for x in s.segs], [f(x) for x in s.facts])
    return s


VAL_WIDTH = {'double': 8, 'exp10': 6, 'rawuuid': 16, 'fourcc': 4, 'datetime': 4}


def seg_len(s):
    """byte length as z3 term or int, or None"""
    if isinstance(s, IntSeg):
        return s.w
    if isinstance(s, BlobSeg):
        return s.hi - s.lo
    if isinstance(s, ValSeg):
        return VAL_WIDTH.get(s.kind)
    return None
