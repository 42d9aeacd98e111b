"""builtins, containers, streams and codec contracts for the interpreter"""
import ast
import builtins
import operator
import struct as _struct
import types
import uuid as _uuid
from collections import OrderedDict
import io
import z3
from .values import *

UUIDS = {n: z3.Function('uuid_' + n, SORTS['UUID'], INT) for n in ('time_low', 'time_mid', 'time_hi_version')}
UUID_W = {'time_low': 32, 'time_mid': 16, 'time_hi_version': 16}
mob_material = z3.Function('mob_material', SORTS['MobID'], SORTS['UUID'])
sid = z3.Function('str_lit_id', SORTS['Str'], INT)
obj_falsy = z3.Function('obj_falsy', INT, BOOL)
valbytes = {}

INT_KINDS = {'u8': (1, False), 's8': (1, True), 'u16': (2, False), 's16': (2, True), 'u32': (4, False),
             's32': (4, True), 'u64': (8, False), 's64': (8, True)}

BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
          ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.LShift: operator.lshift,
          ast.RShift: operator.rshift, ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor}
CMPOPS = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le,
          ast.Gt: operator.gt, ast.GtE: operator.ge, ast.Is: operator.is_, ast.IsNot: operator.is_not,
          ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b}

SORT_TYPES = {'Str': str, 'Bytes': bytes, 'Float': float, 'UUID': _uuid.UUID}


def in_range(t, w, signed):
    if signed:
        return z3.And(t >= -(1 << (8 * w - 1)), t < (1 << (8 * w - 1)))
    return z3.And(t >= 0, t < (1 << (8 * w)))


def as_term(t):
    return z3.IntVal(t) if isinstance(t, int) else t


class Prims:
    real_ctx = None           # {'little': AVBIOContext, 'big': ...}

    # ------------------------------------------------------------ literals
    def str_lit(self, st, c):
        key = ('lit', c)
        if key not in self.consts:
            t = z3.Const('lit_%d' % len(self.consts), SORTS['Str'])
            self.consts[key] = (t, len(self.consts))
        t, i = self.consts[key]
        st.add(sid(t) == i, str_empty(t) == z3.BoolVal(c == ''))
        return t

    def term_of(self, st, v, sort):
        """term of the given opaque sort for a value, or None"""
        if isinstance(v, SVal) and v.sort == sort:
            return v.t
        if sort == 'Str' and isinstance(v, str):
            return self.str_lit(st, v)
        if sort == 'Bytes' and isinstance(v, SBytes):
            if len(v.segs) == 1 and isinstance(v.segs[0], BlobSeg):
                b = v.segs[0]
                if self.entails(st, z3.And(b.lo == 0, b.hi == blen(b.t))):
                    return b.t
        if sort not in ('Str', 'Bytes') and not isinstance(v, (SVal, Ref, SInt, SBool)):
            key = (sort, repr(v))
            if v is None:
                return None
            if key not in self.consts:
                self.consts[key] = z3.Const('c%s_%d' % (sort, len(self.consts)), SORTS[sort])
            return self.consts[key]
        return None

    # ------------------------------------------------------------ truth
    def truth(self, st, v):
        """-> [(state, True/False/Ctl)]"""
        if isinstance(v, Union):
            return self.with_alts(st, v, self.truth)
        if isinstance(v, SBool):
            return self.fork(st, v.t)
        if isinstance(v, SInt):
            return self.fork(st, v.t != 0)
        if isinstance(v, SReal):
            return self.fork(st, v.t != 0)
        if isinstance(v, SVal):
            if v.sort == 'Str':
                return self.fork(st, z3.Not(str_empty(v.t)))
            if v.sort == 'Bytes':
                return self.fork(st, blen(v.t) != 0)
            if v.sort == 'Float':
                return self.fork(st, z3.Function('float_nonzero', SORTS['Float'], BOOL)(v.t))
            if v.sort == 'MobID':
                # MobID has no __len__/__bool__
                return [(st, True)]
            return [(st, True)]
        if isinstance(v, SObj):
            t = int_t(v.idx)
            return self.fork(st, z3.And(t != 0, z3.Not(obj_falsy(t))))
        if isinstance(v, SRef):
            return [(st, True)]
        if isinstance(v, STuple):
            return [(st, len(v.items) > 0)]
        if isinstance(v, SBytes):
            n = self.bytes_len(v)
            return self.fork(st, as_term(n) != 0)
        if isinstance(v, Ref):
            rec = st.heap[v.id]
            cls = getattr(rec, 'cls', None)
            if cls is not None:
                for nme in ('__bool__', '__len__'):
                    f = self.lookup_cls(cls, nme)
                    if isinstance(f, types.FunctionType):
                        return self.bindt(self.call(st, Bound(f, v), [], {}))
            if isinstance(rec, HList):
                return self.fork(st, as_term(self.list_len(rec)) != 0)
            if isinstance(rec, HDict):
                n = self.dict_len(rec)
                return self.fork(st, as_term(n) != 0)
            return [(st, True)]
        if isinstance(v, (Bound, Intrinsic, GenCall, LambdaVal, Ctx, ExcVal)):
            return [(st, True)]
        if v is HAVOC:
            raise Unsupported('truth of a havocked value')
        return [(st, bool(v))]

    def bindt(self, results):
        out = []
        for s, v in results:
            if isinstance(v, Ctl_()):
                out.append((s, v))
            else:
                out.extend(self.truth(s, v))
        return out

    # ------------------------------------------------------------ operators
    def binop(self, st, op, a, b, inplace=False):
        if isinstance(a, Union) or isinstance(b, Union):
            return self.with_alts(st, a, lambda s, x: self.with_alts(s, b, lambda s2, y: self.binop(s2, op, x, y, inplace)))
        from .interp import is_concrete, raise_, mk_int, int_term, real_term, int_bits
        if is_concrete(a) and is_concrete(b) and not isinstance(a, (list, dict, bytearray)):
            try:
                return [(st, BINOPS[type(op)](a, b))]
            except Exception as e:
                return [(st, raise_(type(e), str(e)))]
        if isinstance(op, ast.Mod) and isinstance(a, (str, bytes)):
            return [(st, SVal('Str', fresh('Str', 'fmt'), str))]
        if isinstance(a, SReal) or isinstance(b, SReal) or \
                (isinstance(a, float) and int_term(b) is not None) or (isinstance(b, float) and int_term(a) is not None) \
                or (isinstance(op, ast.Div) and int_term(a) is not None and int_term(b) is not None):
            return self.real_op(st, op, a, b)
        ta, tb = int_term(a), int_term(b)
        if ta is not None and tb is not None:
            return self.int_op(st, op, a, b, ta, tb)
        # sequences
        if isinstance(op, ast.Add):
            if self.is_bytes(a) and self.is_bytes(b):
                return [(st, SBytes(self.to_segs(st, a) + self.to_segs(st, b),
                                    bytearray if getattr(a, 'kind', type(a)) is bytearray else bytes))]
            if isinstance(a, Ref) and isinstance(st.heap[a.id], HList):
                rec = st.heap[a.id]
                s = st.clone()
                if isinstance(b, Ref) and isinstance(st.heap[b.id], HList):
                    parts = st.heap[b.id].parts
                elif isinstance(b, list) or (inplace and isinstance(b, (tuple, STuple))):
                    parts = tuple(One(x) for x in (b.items if isinstance(b, STuple) else b))
                else:
                    raise Unsupported('list +')
                if inplace:
                    s.heap[a.id] = rec.rep(parts=rec.parts + parts)
                    return [(s, a)]
                return [(s, s.alloc(HList(list, rec.parts + parts)))]
            if isinstance(a, (str, SVal)) and isinstance(b, (str, SVal)):
                return [(st, SVal('Str', fresh('Str', 'cat'), str))]
            if isinstance(a, (STuple, tuple)) and isinstance(b, (STuple, tuple)):
                x = tuple(a.items if isinstance(a, STuple) else a) + tuple(b.items if isinstance(b, STuple) else b)
                return [(st, STuple(x))]
        if isinstance(op, ast.Mult) and isinstance(a, Ref) and isinstance(st.heap[a.id], HList) and isinstance(b, int):
            s = st.clone()
            return [(s, s.alloc(HList(list, st.heap[a.id].parts * b)))]
        if a is None or b is None:
            return [(st, raise_(TypeError, 'None operand'))]
        raise Unsupported('%s on %r, %r' % (type(op).__name__, a, b))

    def real_op(self, st, op, a, b):
        from .interp import real_term, raise_, mk_bool
        x, y = real_term(a), real_term(b)
        if x is None or y is None:
            raise Unsupported('real op on %r %r' % (a, b))
        if isinstance(op, ast.Add):
            return [(st, SReal(z3.simplify(x + y)))]
        if isinstance(op, ast.Sub):
            return [(st, SReal(z3.simplify(x - y)))]
        if isinstance(op, ast.Mult):
            return [(st, SReal(z3.simplify(x * y)))]
        if isinstance(op, ast.Div):
            out = []
            for s, z in self.fork(st, y == 0):
                out.append((s, raise_(ZeroDivisionError) if z else SReal(z3.simplify(x / y))))
            return out
        raise Unsupported('real op')

    def int_op(self, st, op, a, b, ta, tb):
        from .interp import mk_int, raise_, int_bits, mk_bool
        if isinstance(op, ast.Add):
            return [(st, mk_int(ta + tb))]
        if isinstance(op, ast.Sub):
            return [(st, mk_int(ta - tb))]
        if isinstance(op, ast.Mult):
            return [(st, mk_int(ta * tb))]
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            out = []
            for s, z in self.fork(st, tb == 0):
                if z:
                    out.append((s, raise_(ZeroDivisionError)))
                    continue
                # Python floors; z3 div/mod is Euclidean: equal for positive divisors
                if self.entails(s, tb > 0):
                    out.append((s, mk_int(ta / tb if isinstance(op, ast.FloorDiv) else ta % tb)))
                else:
                    raise Unsupported('division by a possibly negative number')
            return out
        if isinstance(op, (ast.LShift, ast.RShift)):
            n = tb.as_long() if z3.is_int_value(tb) else None
            if n is None:
                raise Unsupported('symbolic shift')
            if n < 0:
                return [(st, raise_(ValueError))]
            if isinstance(op, ast.LShift):
                bits = int_bits(a)
                return [(st, mk_int(ta * (1 << n), None if bits is None else {i + n: c for i, c in bits.items()}))]
            bits = int_bits(a)
            return [(st, mk_int(ta / (1 << n), None if bits is None else {i - n: c for i, c in bits.items() if i >= n}))]
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            ba, bb = int_bits(a), int_bits(b)
            F = z3.BoolVal(False)
            if ba is not None and bb is not None:
                f = {ast.BitAnd: z3.And, ast.BitOr: z3.Or, ast.BitXor: z3.Xor}[type(op)]
                bits = {}
                for i in set(ba) | set(bb):
                    v = z3.simplify(f(ba.get(i, F), bb.get(i, F)))
                    if not z3.is_false(v):
                        bits[i] = v
                return [(st, from_bits(bits))]
            c, t = (None, None)
            if z3.is_int_value(ta):
                c, t = ta.as_long(), tb
            elif z3.is_int_value(tb):
                c, t = tb.as_long(), ta
            if c is None or c < 0:
                raise Unsupported('bit operation on two symbolic integers')
            masked = self.mask(t, c)
            if isinstance(op, ast.BitAnd):
                return [(st, mk_int(masked))]
            if isinstance(op, ast.BitOr):
                return [(st, mk_int(t + c - masked))]
            return [(st, mk_int(t + c - 2 * masked))]
        if isinstance(op, ast.Pow):
            if z3.is_int_value(tb) and 0 <= tb.as_long() <= 8:
                r = z3.IntVal(1)
                for _ in range(tb.as_long()):
                    r = r * ta
                return [(st, mk_int(r))]
        raise Unsupported('int op %s' % type(op).__name__)

    @staticmethod
    def mask(t, c):
        """t & c for a nonnegative constant c, any integer t (two's complement)"""
        if c == 0:
            return z3.IntVal(0)
        r = None
        i = 0
        while c >> i:
            if not c >> i & 1:
                i += 1
                continue
            j = i
            while c >> j & 1:
                j += 1
            term = (t / (1 << i)) % (1 << (j - i)) * (1 << i) if i else t % (1 << j)
            r = term if r is None else r + term
            i = j
        return r

    def compare(self, st, op, a, b):
        if isinstance(a, Union) or isinstance(b, Union):
            if isinstance(op, (ast.Is, ast.IsNot)) and (is_single(b) or is_single(a)):
                u, x = (a, b) if isinstance(a, Union) else (b, a)
                if not isinstance(x, Union) and all(self.is_plain(v) for _, v in u.alts):
                    from .interp import mk_bool
                    c = z3.Or(*[g for g, v in u.alts if v is x]) if any(v is x for _, v in u.alts) else z3.BoolVal(False)
                    return [(st, mk_bool(c if isinstance(op, ast.Is) else z3.Not(c)))]
            return self.with_alts(st, a, lambda s, x: self.with_alts(s, b, lambda s2, y: self.compare(s2, op, x, y)))
        from .interp import is_concrete, raise_, mk_bool, int_term, real_term
        if is_concrete(a) and is_concrete(b):
            try:
                return [(st, bool(CMPOPS[type(op)](a, b)))]
            except Exception as e:
                return [(st, raise_(type(e), str(e)))]
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(st, a, b)
            return [(st, mk_bool(r if isinstance(op, ast.Is) else (not r if isinstance(r, bool) else z3.Not(r))))]
        if isinstance(op, (ast.In, ast.NotIn)):
            return self.contains(st, a, b, isinstance(op, ast.NotIn))
        if isinstance(a, SReal) or isinstance(b, SReal) or isinstance(a, float) or isinstance(b, float):
            x, y = real_term(a), real_term(b)
        else:
            x, y = int_term(a), int_term(b)
        if x is not None and y is not None:
            f = {ast.Eq: lambda p, q: p == q, ast.NotEq: lambda p, q: p != q, ast.Lt: lambda p, q: p < q,
                 ast.LtE: lambda p, q: p <= q, ast.Gt: lambda p, q: p > q, ast.GtE: lambda p, q: p >= q}[type(op)]
            return [(st, mk_bool(f(x, y)))]
        if isinstance(op, (ast.Eq, ast.NotEq)):
            out = []
            for s, r in self.equal(st, a, b):
                out.append((s, mk_bool(r if isinstance(op, ast.Eq) else (not r if isinstance(r, bool) else z3.Not(r)))
                            if not isinstance(r, Ctl_()) else r))
            return out
        if (a is None) != (b is None):
            return [(st, raise_(TypeError, 'ordering None'))]
        raise Unsupported('comparison of %r and %r' % (a, b))

    def is_plain(self, v):
        from .interp import is_concrete
        return is_concrete(v) or isinstance(v, (SVal, SInt, SBool, Ref, SBytes, SRef, STuple))

    def identical(self, st, a, b):
        if isinstance(a, SObj) and b is None:
            return int_t(a.idx) == 0
        if isinstance(b, SObj) and a is None:
            return int_t(b.idx) == 0
        if isinstance(a, SObj) and isinstance(b, SObj):
            return int_t(a.idx) == int_t(b.idx)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if a is None or b is None:
            return a is b
        if isinstance(a, SBool) and isinstance(b, bool):
            return a.t == z3.BoolVal(b)
        if isinstance(b, SBool) and isinstance(a, bool):
            return b.t == z3.BoolVal(a)
        from .interp import is_concrete
        if is_concrete(a) != is_concrete(b):
            c = a if is_concrete(a) else b
            o = b if is_concrete(a) else a
            if isinstance(c, (type, types.FunctionType, types.ModuleType)) or type(c) is object:
                return False
            if isinstance(o, (Ref, SObj, SRef, SVal, STuple, Bound)) and not isinstance(c, (str, bytes)):
                return False
        raise Unsupported('identity of %r and %r' % (a, b))

    def equal(self, st, a, b):
        """-> [(state, bool | z3 Bool | Ctl)]"""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SVal):
                t = self.term_of(st, y, x.sort)
                if t is not None:
                    return [(st, x.t == t)]
                if y is None or not isinstance(y, (SVal, SBytes)):
                    return [(st, False)]
                if isinstance(y, SVal) and y.sort != x.sort:
                    return [(st, False)]
        if isinstance(a, SObj) or isinstance(b, SObj):
            r = self.identical(st, a, b)
            return [(st, r)]
        if self.is_bytes(a) and self.is_bytes(b):
            return self.bytes_equal(st, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            return [(st, True)]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref):
                rec = st.heap[x.id]
                f = self.lookup_cls(getattr(rec, 'cls', object), '__eq__')
                if isinstance(f, types.FunctionType):
                    return self.call(st, Bound(f, x), [y], {})
        sa, sb = self.as_seq(st, a), self.as_seq(st, b)
        if sa is not None and sb is not None:
            if len(sa) != len(sb):
                return [(st, False)]
            res = [(st, z3.BoolVal(True))]
            for p, q in zip(sa, sb):
                nxt = []
                for s, acc in res:
                    from .interp import Ctl
                    for s2, r in self.compare(s, ast.Eq(), p, q):
                        if isinstance(r, Ctl):
                            nxt.append((s2, r))
                        else:
                            nxt.append((s2, z3.And(acc, r.t if not isinstance(r, bool) else z3.BoolVal(r))))
                res = nxt
            return res
        if isinstance(a, Ref) and isinstance(st.heap[a.id], HObj) or isinstance(b, Ref) and isinstance(st.heap[b.id], HObj):
            return [(st, False)]
        if a is None or b is None:
            return [(st, False)]
        if type_class(a) != type_class(b):
            return [(st, False)]
        raise Unsupported('equality of %r and %r' % (a, b))

    def as_seq(self, st, v):
        if isinstance(v, STuple):
            return list(v.items)
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, Ref) and isinstance(st.heap[v.id], HList) and all(isinstance(p, One) for p in st.heap[v.id].parts):
            return [p.v for p in st.heap[v.id].parts]
        return None

    def contains(self, st, a, b, neg):
        from .interp import mk_bool, Ctl, is_concrete
        seq = self.as_seq(st, b)
        if seq is None and is_concrete(b) and isinstance(b, (dict, set, frozenset, range)):
            seq = list(b)
        if seq is not None:
            res = [(st, z3.BoolVal(False))]
            for x in seq:
                nxt = []
                for s, acc in res:
                    for s2, r in self.compare(s, ast.Eq(), a, x):
                        if isinstance(r, Ctl):
                            nxt.append((s2, r))
                        else:
                            nxt.append((s2, z3.Or(acc, r.t if not isinstance(r, bool) else z3.BoolVal(r))))
                res = nxt
            return [(s, r if isinstance(r, Ctl) else mk_bool(z3.Not(r) if neg else r)) for s, r in res]
        if isinstance(b, Ref):
            rec = st.heap[b.id]
            if isinstance(rec, HDict) and is_concrete(a) and not rec.items:
                p = rec.entries.get(a, (z3.BoolVal(False), None))[0]
                return [(st, mk_bool(z3.Not(p) if neg else p))]
            if isinstance(rec, HDict) and not rec.items:
                res = [(st, z3.BoolVal(False))]
                for k, (p, v) in rec.entries.items():
                    nxt = []
                    for s, acc in res:
                        if isinstance(acc, Ctl):
                            nxt.append((s, acc))
                            continue
                        for s2, r in self.compare(s, ast.Eq(), a, k):
                            nxt.append((s2, r if isinstance(r, Ctl) else z3.Or(acc, z3.And(p, r.t if not isinstance(r, bool) else z3.BoolVal(r)))))
                    res = nxt
                return [(s, r if isinstance(r, Ctl) else mk_bool(z3.Not(r) if neg else r)) for s, r in res]
        return self.contains_other(st, a, b, neg)

    def contains_other(self, st, a, b, neg):
        raise Unsupported('in %r' % (b,))

    # ------------------------------------------------------------ attributes
    @staticmethod
    def lookup_cls(cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                d = c.__dict__[name]
                return d
        return None

    def getattr(self, st, o, name):
        from .interp import Ctl, raise_, is_concrete
        if isinstance(o, Union):
            return self.with_alts(st, o, lambda s, x: self.getattr(s, x, name))
        if isinstance(o, Ref):
            return self.getattr_ref(st, o, name)
        if isinstance(o, Ctx):
            return self.getattr_ctx(st, o, name)
        if isinstance(o, SuperProxy):
            return self.getattr_super(st, o, name)
        if isinstance(o, SRef):
            if name == 'value':
                return [(st, SObj(o.idx))]
            if name == 'index':
                return [(st, o.idx)]
            if name == 'root':
                return [(st, o.root)]
            return self.getattr_other(st, o, name)
        if isinstance(o, SVal):
            return self.getattr_val(st, o, name)
        if isinstance(o, SBytes):
            return [(st, Intrinsic('bytes.' + name, o))]
        if isinstance(o, SObj):
            return self.getattr_obj(st, o, name)
        if isinstance(o, ExcVal):
            return [(st, fresh_opaque())]
        if isinstance(o, STuple):
            raise Unsupported('tuple attribute')
        if is_concrete(o):
            try:
                return [(st, getattr(o, name))]
            except AttributeError as e:
                return [(st, raise_(AttributeError, str(e)))]
        return self.getattr_other(st, o, name)

    def getattr_other(self, st, o, name):
        raise Unsupported('attribute %s of %r' % (name, o))

    def getattr_obj(self, st, o, name):
        raise Unsupported('attribute %s of a referenced object' % name)

    def getattr_val(self, st, o, name):
        from .interp import mk_int
        if o.sort == 'MobID' and name == 'material':
            return [(st, SVal('UUID', mob_material(o.t), _uuid.UUID))]
        if o.sort == 'UUID' and name in UUIDS:
            s = st.clone()
            t = UUIDS[name](o.t)
            s.add(t >= 0, t < (1 << UUID_W[name]))
            return [(s, SInt(t))]
        if o.sort in ('Str', 'Bytes'):
            return [(st, Intrinsic('str.' + name if o.sort == 'Str' else 'bytes.' + name, o))]
        return self.getattr_other(st, o, name)

    def getattr_ctx(self, st, o, name):
        from .interp import raise_
        real = self.real_ctx[o.order]
        try:
            v = getattr(real, name)
        except AttributeError as e:
            return [(st, raise_(AttributeError, str(e)))]
        if isinstance(v, types.MethodType) and v.__self__ is real:
            return [(st, Bound(v.__func__, o))]
        return [(st, v)]

    def getattr_ref(self, st, o, name):
        from .interp import Ctl, raise_
        rec = st.heap[o.id]
        if isinstance(rec, (HIn, HOut)):
            return [(st, Intrinsic('stream.' + name, o))]
        cls = rec.cls
        if name == '__class__':
            return [(st, cls)]
        d = self.lookup_cls(cls, name)
        if isinstance(d, property):
            return self.prop_get(st, o, d, name)
        if name in rec.attrs:
            v = rec.attrs[name]
            if v is HAVOC:
                raise Unsupported('attribute %s may be missing or changed' % name)
            return [(st, v)]
        if d is not None:
            if isinstance(d, types.FunctionType):
                return [(st, Bound(d, o))]
            if isinstance(d, staticmethod):
                return [(st, d.__func__)]
            if isinstance(d, classmethod):
                return [(st, Bound(d.__func__, cls))]
            if isinstance(d, (types.MemberDescriptorType, types.GetSetDescriptorType)):
                return self.missing_attr(st, o, cls, name)
            if isinstance(d, (types.WrapperDescriptorType, types.MethodDescriptorType, types.BuiltinFunctionType)):
                return [(st, Intrinsic('builtin.' + name, o))]
            if callable(d) and not isinstance(d, type):
                return [(st, Intrinsic('builtin.' + name, o))]
            return [(st, d)]
        return self.missing_attr(st, o, cls, name)

    def prop_get(self, st, o, d, name):
        rs = self.call(st, d.fget, [o], {})
        from .interp import Ctl
        out = []
        for s, v in rs:
            if isinstance(v, Ctl) and v.out[0] == 'exc' and issubclass(v.out[1].cls, AttributeError):
                cls = s.heap[o.id].cls
                out.extend(self.missing_attr(s, o, cls, name))
            else:
                out.append((s, v))
        return out

    def missing_attr(self, st, o, cls, name):
        from .interp import raise_
        f = self.lookup_cls(cls, '__getattr__')
        if isinstance(f, types.FunctionType):
            return self.call(st, f, [o, name], {})
        return [(st, raise_(AttributeError, name))]

    def getattr_super(self, st, p, name):
        from .interp import raise_
        if isinstance(p.self, type):
            mro = p.self.__mro__
        else:
            mro = st.heap[p.self.id].cls.__mro__
        i = mro.index(p.cls)
        for c in mro[i + 1:]:
            if name in c.__dict__:
                d = c.__dict__[name]
                if isinstance(d, staticmethod):
                    d = d.__func__
                    if isinstance(d, types.FunctionType) and self.src.owns(d):
                        return [(st, d)]
                if isinstance(d, types.FunctionType) and self.src.owns(d):
                    if name == '__new__':
                        return [(st, d)]
                    return [(st, Bound(d, p.self))]
                if isinstance(d, property):
                    return self.call(st, d.fget, [p.self], {})
                if name == '__new__':
                    return [(st, Intrinsic('super.__new__', p.self))]
                return [(st, Intrinsic('builtin.' + name, p.self))]
        return [(st, raise_(AttributeError, name))]

    def setattr(self, st, o, name, v):
        from .interp import Ctl, raise_
        if isinstance(o, Union):
            return self.with_alts(st, o, lambda s, x: self.setattr(s, x, name, v))
        if isinstance(o, Ref) and isinstance(st.heap[o.id], (HObj, HList, HDict)):
            rec = st.heap[o.id]
            f = self.lookup_cls(rec.cls, '__setattr__')
            if isinstance(f, types.FunctionType) and self.src.owns(f):
                return self.call(st, f, [o, name, v], {})
            return self.raw_setattr(st, o, name, v)
        return self.setattr_other(st, o, name, v)

    def setattr_other(self, st, o, name, v):
        raise Unsupported('attribute assignment %s on %r' % (name, o))

    def raw_setattr(self, st, o, name, v):
        """object.__setattr__"""
        from .interp import raise_
        rec = st.heap[o.id]
        d = self.lookup_cls(rec.cls, name)
        if isinstance(d, property):
            if d.fset is None:
                return [(st, raise_(AttributeError, name))]
            return self.call(st, d.fset, [o, v], {})
        if d is None or not isinstance(d, (types.MemberDescriptorType, types.GetSetDescriptorType)):
            # needs an instance __dict__
            if not any('__dict__' in c.__dict__ for c in rec.cls.__mro__):
                return [(st, raise_(AttributeError, name))]
        s = st.clone()
        attrs = dict(rec.attrs)
        attrs[name] = v
        if isinstance(rec, HObj):
            s.heap[o.id] = HObj(rec.cls, attrs)
        else:
            s.heap[o.id] = rec.rep(attrs=attrs)
        return [(s, None)]

    # ------------------------------------------------------------ containers
    @staticmethod
    def list_len(rec):
        n = 0
        t = None
        for p in rec.parts:
            if isinstance(p, One):
                n += 1
            else:
                m = z3.If(p.c, z3.IntVal(1), z3.IntVal(0)) if isinstance(p, Opt) else p.n
                t = m if t is None else t + m
        return n if t is None else z3.simplify(t + n)

    @staticmethod
    def dict_len(rec):
        n = z3.IntVal(0)
        for p, v in rec.entries.values():
            n = n + z3.If(p, z3.IntVal(1), z3.IntVal(0))
        for p in rec.items:
            n = n + (1 if isinstance(p, One) else p.n)
        n = z3.simplify(n)
        return n.as_long() if z3.is_int_value(n) else n

    def getitem(self, st, o, i):
        from .interp import is_concrete, raise_, SliceVal, int_term, mk_int, Ctl
        if isinstance(o, Union) or isinstance(i, Union):
            return self.with_alts(st, o, lambda s, x: self.with_alts(s, i, lambda s2, j: self.getitem(s2, x, j)))
        if isinstance(o, Ref):
            rec = st.heap[o.id]
            f = self.lookup_cls(getattr(rec, 'cls', object), '__getitem__')
            if isinstance(f, types.FunctionType):
                return self.call(st, Bound(f, o), [i], {})
            return self.builtin_method(st, o, '__getitem__', [i], {})
        if isinstance(i, SliceVal):
            if is_concrete(o) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                try:
                    return [(st, o[slice(i.lo, i.hi, i.step)])]
                except Exception as e:
                    return [(st, raise_(type(e), str(e)))]
            if isinstance(o, STuple) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                return [(st, STuple(o.items[slice(i.lo, i.hi, i.step)]))]
            if self.is_bytes(o):
                return self.bytes_slice(st, o, i)
            raise Unsupported('slice of %r' % (o,))
        if isinstance(o, STuple) and isinstance(i, int):
            if -len(o.items) <= i < len(o.items):
                return [(st, o.items[i])]
            return [(st, raise_(IndexError))]
        if is_concrete(o) and is_concrete(i):
            try:
                return [(st, o[i])]
            except Exception as e:
                return [(st, raise_(type(e), str(e)))]
        if is_concrete(o) and isinstance(o, dict) and int_term(i) is not None:
            out = []
            cur = st
            keys = [k for k in o if isinstance(k, int)]
            for kx in keys:
                c = int_term(i) == kx
                if self.feasible(cur, c):
                    out.append((cur.assume(c), o[kx]))
                cur = cur.assume(z3.Not(c))
                if not self.feasible(cur):
                    return out
            out.append((cur, raise_(KeyError)))
            return out
        if self.is_bytes(o):
            return self.bytes_item(st, o, i)
        if is_concrete(o) and isinstance(o, (tuple, list)) and int_term(i) is not None or isinstance(o, STuple):
            vals = o.items if isinstance(o, STuple) else o
            return self.index_concrete(st, list(vals), i)
        return self.getitem_other(st, o, i)

    def index_concrete(self, st, vals, i):
        from .interp import int_term, raise_
        t = int_term(i)
        if t is None:
            return [(st, raise_(TypeError))]
        out = []
        cur = st
        n = len(vals)
        for j in range(n):
            c = z3.Or(t == j, t == j - n)
            if self.feasible(cur, c):
                out.append((cur.assume(c), vals[j]))
            cur = cur.assume(z3.Not(c))
        if self.feasible(cur):
            out.append((cur, raise_(IndexError)))
        return out

    def getitem_other(self, st, o, i):
        raise Unsupported('indexing %r' % (o,))

    def setitem(self, st, o, i, v):
        if isinstance(o, Union):
            return self.with_alts(st, o, lambda s, x: self.setitem(s, x, i, v))
        if isinstance(o, Ref):
            rec = st.heap[o.id]
            f = self.lookup_cls(getattr(rec, 'cls', object), '__setitem__')
            if isinstance(f, types.FunctionType):
                return self.call(st, Bound(f, o), [i, v], {})
            return self.builtin_method(st, o, '__setitem__', [i, v], {})
        return self.setitem_other(st, o, i, v)

    def setitem_other(self, st, o, i, v):
        raise Unsupported('item assignment on %r' % (o,))

    def delitem(self, st, o, i):
        if isinstance(o, Ref):
            rec = st.heap[o.id]
            f = self.lookup_cls(getattr(rec, 'cls', object), '__delitem__')
            if isinstance(f, types.FunctionType):
                return self.call(st, Bound(f, o), [i], {})
            return self.builtin_method(st, o, '__delitem__', [i], {})
        raise Unsupported('del item')

    def builtin_method(self, st, o, name, args, kw):
        """method of the builtin base (list / dict / object) of a heap record"""
        from .interp import is_concrete, raise_, int_term, mk_int, SliceVal
        rec = st.heap[o.id]
        if name == '__init__':
            if isinstance(rec, HList) and args:
                return self.list_extend(st, o, args[0])
            return [(st, None)]
        if name == '__setattr__':
            return self.raw_setattr(st, o, args[0], args[1])
        if name == '__getattribute__':
            return self.getattr_ref(st, o, args[0])
        if isinstance(rec, HList):
            return self.list_method(st, o, rec, name, args, kw)
        if isinstance(rec, HDict):
            return self.dict_method(st, o, rec, name, args, kw)
        if name in ('__repr__', '__str__'):
            return [(st, SVal('Str', fresh('Str'), str))]
        if name == '__hash__':
            raise Unsupported('hash')
        raise Unsupported('builtin method %s' % name)

    def list_method(self, st, o, rec, name, args, kw):
        from .interp import is_concrete, raise_, int_term, mk_int, SliceVal
        if name == 'append':
            s = st.clone()
            s.heap[o.id] = rec.rep(parts=rec.parts + (One(args[0]),))
            return [(s, None)]
        if name in ('extend', '__iadd__'):
            return [(s, (o if name == '__iadd__' else None)) for s, _ in self.list_extend(st, o, args[0])]
        if name == '__iter__':
            return [(st, SIter(o, 'list'))]
        if name == '__len__':
            return [(st, mk_int(self.list_len(rec)))]
        if name == '__reversed__':
            return [(st, SIter(o, 'reversed'))]
        if name == '__getitem__':
            i = args[0]
            if isinstance(i, SliceVal):
                if all(isinstance(p, One) for p in rec.parts) and all(x is None or isinstance(x, int)
                                                                     for x in (i.lo, i.hi, i.step)):
                    s = st.clone()
                    return [(s, s.alloc(HList(list, rec.parts[slice(i.lo, i.hi, i.step)])))]
                if i.lo is None and i.hi is None and i.step is None:
                    s = st.clone()
                    return [(s, s.alloc(HList(list, rec.parts)))]
                raise Unsupported('list slice')
            return self.list_index(st, o, rec, i)
        if name == '__setitem__':
            i, v = args
            if isinstance(i, int) and all(isinstance(p, One) for p in rec.parts):
                n = len(rec.parts)
                if not -n <= i < n:
                    return [(st, raise_(IndexError))]
                parts = list(rec.parts)
                parts[i] = One(v)
                s = st.clone()
                s.heap[o.id] = rec.rep(parts=parts)
                return [(s, None)]
            return self.list_set_sym(st, o, rec, i, v)
        if name == 'pop' and all(isinstance(p, One) for p in rec.parts):
            i = args[0] if args else -1
            n = len(rec.parts)
            if isinstance(i, int):
                if not -n <= i < n:
                    return [(st, raise_(IndexError))]
                parts = list(rec.parts)
                v = parts.pop(i).v
                s = st.clone()
                s.heap[o.id] = rec.rep(parts=parts)
                return [(s, v)]
        if name == 'insert' and all(isinstance(p, One) for p in rec.parts) and isinstance(args[0], int):
            parts = list(rec.parts)
            parts.insert(args[0], One(args[1]))
            s = st.clone()
            s.heap[o.id] = rec.rep(parts=parts)
            return [(s, None)]
        if name == 'insert' and args[0] == 0 and isinstance(args[0], int):
            s = st.clone()
            s.heap[o.id] = rec.rep(parts=(One(args[1]),) + rec.parts)
            return [(s, None)]
        if name == '__delitem__' and all(isinstance(p, One) for p in rec.parts) and isinstance(args[0], int):
            parts = list(rec.parts)
            try:
                del parts[args[0]]
            except IndexError:
                return [(st, raise_(IndexError))]
            s = st.clone()
            s.heap[o.id] = rec.rep(parts=parts)
            return [(s, None)]
        if name == 'clear':
            s = st.clone()
            s.heap[o.id] = rec.rep(parts=())
            return [(s, None)]
        if name == 'copy':
            s = st.clone()
            return [(s, s.alloc(HList(list, rec.parts)))]
        if name == 'reverse' and all(isinstance(p, One) for p in rec.parts):
            s = st.clone()
            s.heap[o.id] = rec.rep(parts=rec.parts[::-1])
            return [(s, None)]
        return self.list_method_other(st, o, rec, name, args, kw)

    def list_method_other(self, st, o, rec, name, args, kw):
        raise Unsupported('list method %s' % name)

    def list_set_sym(self, st, o, rec, i, v):
        raise Unsupported('list item assignment at a symbolic index')

    def list_extend(self, st, o, x):
        rec = st.heap[o.id]
        parts = None
        if isinstance(x, Ref) and isinstance(st.heap[x.id], HList) and not self.has_py_iter(st, x):
            parts = st.heap[x.id].parts
        elif isinstance(x, STuple):
            parts = tuple(One(v) for v in x.items)
        else:
            from .interp import is_concrete, NORM, Ctl
            if is_concrete(x):
                parts = tuple(One(self.lift(st, v)) for v in x)
            else:
                def cb(s, v):
                    s = s.clone()
                    r = s.heap[o.id]
                    s.heap[o.id] = r.rep(parts=r.parts + (One(v),))
                    return [(s, NORM)]
                return [(s, None if oc is NORM else Ctl(oc)) for s, oc in self.iterate(st, x, cb, None)]
        s = st.clone()
        s.heap[o.id] = rec.rep(parts=rec.parts + parts)
        return [(s, None)]

    def lift(self, st, v):
        return v

    def list_index(self, st, o, rec, i):
        from .interp import int_term, raise_, mk_int
        t = int_term(i)
        if t is None:
            return [(st, raise_(TypeError, 'list index'))]
        if all(isinstance(p, One) for p in rec.parts):
            if isinstance(i, int):
                n = len(rec.parts)
                if -n <= i < n:
                    return [(st, rec.parts[i].v)]
                return [(st, raise_(IndexError))]
            return self.index_concrete(st, [p.v for p in rec.parts], i)
        n = as_term(self.list_len(rec))
        out = []
        bad = z3.Or(t >= n, t < -n)
        for s, b in self.fork(st, bad):
            if b:
                out.append((s, raise_(IndexError)))
                continue
            for s2, neg in self.fork(s, t < 0):
                tt = z3.simplify(t + n) if neg else t
                out.extend(self.list_at(s2, o, rec, tt))
        return out

    def list_at(self, st, o, rec, t):
        out = []
        base = z3.IntVal(0)
        cur = st
        for p in rec.parts:
            size = z3.IntVal(1) if isinstance(p, One) else z3.If(p.c, z3.IntVal(1), z3.IntVal(0)) if isinstance(p, Opt) else p.n
            c = z3.simplify(z3.And(t >= base, t < base + size))
            if self.feasible(cur, c):
                s = cur.assume(c) if not self.entails(cur, c) else cur.clone()
                if not isinstance(p, Many):
                    out.append((s, p.v))
                else:
                    out.append((s, self.view(s, o, p, z3.simplify(t - base))))
                cur = cur.assume(z3.Not(c))
                if not self.feasible(cur):
                    return out
            base = z3.simplify(base + size)
        return out

    def dict_method(self, st, o, rec, name, args, kw):
        from .interp import is_concrete, raise_, mk_int, mk_bool
        if name in ('get', '__getitem__', 'pop', 'setdefault'):
            key = args[0]
            has_default = len(args) > 1 or name == 'get' or 'default' in kw
            default = args[1] if len(args) > 1 else kw.get('default')
            if is_concrete(key) and not rec.items:
                try:
                    p, v = rec.entries.get(key, (z3.BoolVal(False), None))
                except TypeError:
                    return [(st, raise_(TypeError, 'unhashable'))]
                out = []
                for s, b in self.fork(st, p):
                    if b:
                        if v is HAVOC:
                            raise Unsupported('dict value changed in loop')
                        if name == 'pop':
                            s = s.clone()
                            ent = dict(rec.entries)
                            del ent[key]
                            s.heap[o.id] = rec.rep(entries=ent)
                        out.append((s, v))
                    elif has_default:
                        if name == 'setdefault':
                            s = s.clone()
                            ent = dict(rec.entries)
                            ent[key] = (z3.BoolVal(True), default)
                            s.heap[o.id] = rec.rep(entries=ent)
                        out.append((s, default))
                    else:
                        out.append((s, raise_(KeyError, str(key))))
                if name == 'get' and len(out) == 2 and self.merge and self.is_plain(out[0][1]) and self.is_plain(out[1][1]):
                    return [(st, self.merge_val(p, v, default))]
                return out
            return self.dict_lookup_sym(st, o, rec, name, key, args, kw)
        if name == '__contains__':
            return self.contains(st, args[0], o, False)
        if name == '__setitem__':
            key, v = args
            if is_concrete(key) and not rec.items:
                s = st.clone()
                ent = dict(rec.entries)
                ent[key] = (z3.BoolVal(True), v)
                s.heap[o.id] = rec.rep(entries=ent)
                return [(s, None)]
            return self.dict_set_sym(st, o, rec, key, v)
        if name == '__delitem__':
            key = args[0]
            if is_concrete(key) and not rec.items:
                p, v = rec.entries.get(key, (z3.BoolVal(False), None))
                out = []
                for s, b in self.fork(st, p):
                    if b:
                        s = s.clone()
                        ent = dict(rec.entries)
                        del ent[key]
                        s.heap[o.id] = rec.rep(entries=ent)
                        out.append((s, None))
                    else:
                        out.append((s, raise_(KeyError)))
                return out
        if name == '__len__':
            return [(st, mk_int(self.dict_len(rec)))]
        if name in ('items', 'keys', 'values'):
            return [(st, SIter(o, name))]
        if name == '__iter__':
            return [(st, SIter(o, 'keys'))]
        if name == 'clear':
            s = st.clone()
            s.heap[o.id] = rec.rep(entries={}, items=())
            return [(s, None)]
        if name == 'update':
            s = st
            x = args[0] if args else None
            if isinstance(x, dict):
                s = st.clone()
                ent = dict(rec.entries)
                for k, v in x.items():
                    ent[k] = (z3.BoolVal(True), v)
                s.heap[o.id] = rec.rep(entries=ent)
                return [(s, None)]
        if name == 'copy':
            s = st.clone()
            return [(s, s.alloc(HDict(dict, dict(rec.entries), rec.items)))]
        return self.dict_method_other(st, o, rec, name, args, kw)

    def dict_method_other(self, st, o, rec, name, args, kw):
        raise Unsupported('dict method %s' % name)

    def dict_lookup_sym(self, st, o, rec, name, key, args, kw):
        from .interp import Ctl, raise_
        if name in ('get', '__getitem__') and not rec.items and not any(v is HAVOC for p, v in rec.entries.values()):
            out, rest = [], [st]
            for k, (p, v) in rec.entries.items():
                nxt = []
                for s in rest:
                    for s2, r in self.compare(s, ast.Eq(), key, k):
                        if isinstance(r, Ctl):
                            out.append((s2, r))
                            continue
                        for s3, b in self.fork(s2, z3.And(p, r.t if not isinstance(r, bool) else z3.BoolVal(r))):
                            if b:
                                out.append((s3, v))
                            else:
                                nxt.append(s3)
                rest = nxt
            default = args[1] if len(args) > 1 else kw.get('default')
            return out + [(s, default if name == 'get' else raise_(KeyError)) for s in rest]
        raise Unsupported('dict lookup with a symbolic key')

    def dict_set_sym(self, st, o, rec, key, v):
        """entry under a symbolic key; keys of the record are assumed distinct (recorded assumption)"""
        if rec.entries:
            raise Unsupported('dict with mixed keys')
        s = st.clone()
        s.heap[o.id] = rec.rep(items=rec.items + (One(STuple((key, v))),))
        return [(s, None)]

    def iter_builtin(self, st, it, cb, node):
        from .interp import NORM, CONT
        rec = st.heap[it.ref.id]
        if isinstance(rec, HList):
            if it.what == 'reversed':
                if all(isinstance(p, One) for p in rec.parts):
                    return self._unroll(st, [p.v for p in rec.parts[::-1]], cb)
                raise Unsupported('reversed')
            return self.iter_list(st, it.ref, lambda s, v, i: cb(s, v), node)
        if isinstance(rec, HDict):
            live = [st]
            out = []

            def pick(k, v):
                return STuple((k, v)) if it.what == 'items' else k if it.what == 'keys' else v
            for k, (p, v) in list(rec.entries.items()):
                nxt = []
                for s in live:
                    for s2, b in self.fork(s, p):
                        if not b:
                            nxt.append((s2, NORM))
                            continue
                        for s3, o in cb(s2, pick(k, v)):
                            nxt.append((s3, NORM if o is CONT else o))
                live = [s for s, o in self.merge_states([x for x in nxt if x[1] is NORM])]
                out += [x for x in nxt if x[1] is not NORM]
            for p in rec.items:
                nxt = []
                for s in live:
                    if isinstance(p, One):
                        nxt.extend(self._unroll(s, [p.v], lambda s2, t: cb(s2, pick(*t.items))))
                    else:
                        nxt.extend(self.generic(s, p.n, lambda s2, k, p=p: p.inst(s2, k),
                                                lambda s2, t: cb(s2, pick(*t.items)), node))
                live = [s for s, o in self.merge_states([x for x in nxt if x[1] is NORM])]
                out += [x for x in nxt if x[1] is not NORM]
            return [(s, NORM) for s in live] + out
        raise Unsupported('iter')

    # ------------------------------------------------------------ calls to builtins
    def call_intrinsic(self, st, f, args, kw):
        kind, _, name = f.name.partition('.')
        if kind == 'builtin':
            if isinstance(f.self, Ref):
                return self.builtin_method(st, f.self, name, list(args), kw)
            raise Unsupported('super call %s' % name)
        if kind == 'super':
            cls = args[0] if args else f.self
            return self.allocate(st, cls)
        if kind == 'stream':
            return self.stream_method(st, f.self, name, args, kw)
        if kind == 'str':
            return self.str_method(st, f.self, name, args, kw)
        if kind == 'bytes':
            return self.bytes_method(st, f.self, name, args, kw)
        return self.intrinsic_other(st, f, args, kw)

    def intrinsic_other(self, st, f, args, kw):
        raise Unsupported('intrinsic %s' % f.name)

    def allocate(self, st, cls):
        s = st.clone()
        if issubclass(cls, list):
            return [(s, s.alloc(HList(cls)))]
        if issubclass(cls, dict):
            return [(s, s.alloc(HDict(cls)))]
        return [(s, s.alloc(HObj(cls)))]

    def instantiate(self, st, cls, args, kw):
        """cls(*args): Python-level classes of the code under verification"""
        new = self.lookup_cls(cls, '__new__')
        if isinstance(new, staticmethod):
            new = new.__func__
        if isinstance(new, types.FunctionType) and self.src.owns(new):
            rs = self.call(st, new, [cls] + list(args), kw)
        else:
            rs = self.allocate(st, cls)
        init = self.lookup_cls(cls, '__init__')

        def go(s, o):
            if isinstance(init, types.FunctionType) and self.src.owns(init):
                return self.bind(self.call(s, init, [o] + list(args), kw), lambda s2, _: [(s2, o)])
            if args and issubclass(cls, list):
                return self.bind(self.list_extend(s, o, args[0]), lambda s2, _: [(s2, o)])
            if args and issubclass(cls, dict):
                raise Unsupported('dict(args)')
            return [(s, o)]
        return self.bind(rs, go)

    def owned_class(self, cls):
        import sys
        m = sys.modules.get(cls.__module__)
        fn = getattr(m, '__file__', None)
        import os
        return fn is not None and any(os.path.realpath(fn).startswith(r + os.sep) for r in self.src.roots)

    def call_builtin(self, st, f, args, kw):
        from .interp import is_concrete, raise_, mk_int, mk_bool, int_term, real_term, Ctl, SliceVal
        h = getattr(self, 'bi_' + getattr(f, '__name__', '?'), None) if f in BUILTIN_SET else None
        if f is print:
            return [(st, None)]
        if f is super:
            return [(st, SuperProxy(args[0], args[1]))]
        if f is object.__new__:
            return self.allocate(st, args[0])
        if f is object.__setattr__:
            return self.raw_setattr(st, *args)
        if h is not None:
            for i, a in enumerate(args):
                if isinstance(a, Union):
                    return self.with_alts(st, a, lambda s, x: self.call_builtin(s, f, args[:i] + [x] + args[i + 1:], kw))
            r = h(st, args, kw)
            if r is not None:
                return r
        if isinstance(f, type) and issubclass(f, BaseException):
            return [(st, ExcVal(f, tuple(args)))]
        if f is io.BytesIO and not kw:
            s = st.clone()
            if not args:
                return [(s, s.alloc(HOut()))]
            if self.is_bytes(args[0]):
                segs = tuple(self.to_segs(s, args[0]))
                return [(s, s.alloc(HIn((segs, 0, None) if segs else None)))]
        if isinstance(f, type) and self.owned_class(f):
            return self.instantiate(st, f, args, kw)
        if isinstance(f, type) and f in (OrderedDict, dict, list) and not args and not kw:
            return self.allocate(st, f)
        if isinstance(f, (types.WrapperDescriptorType, types.MethodDescriptorType)) and args and isinstance(args[0], Ref):
            return self.builtin_method(st, args[0], f.__name__, args[1:], kw)
        if isinstance(f, types.FunctionType) and f.__name__ == '__new__' and args:
            return self.allocate(st, args[0])
        if isinstance(f, types.BuiltinFunctionType) and isinstance(getattr(f, '__self__', None), dict) and f.__name__ == 'get' \
                and args and isinstance(args[0], Union):
            return self.with_alts(st, args[0], lambda s, x: self.call_builtin(s, f, [x] + args[1:], kw))
        if isinstance(f, types.BuiltinFunctionType) and isinstance(getattr(f, '__self__', None), dict) and f.__name__ == 'get' \
                and args and isinstance(args[0], SInt):
            d = f.__self__
            out = []
            for s, v in self.getitem(st, d, args[0]):
                if isinstance(v, Ctl):
                    out.append((s, args[1] if len(args) > 1 else None))
                else:
                    out.append((s, v))
            return out
        r = self.call_other(st, f, args, kw)
        if r is not None:
            return r
        if all(is_concrete(a) for a in args) and all(is_concrete(a) for a in kw.values()) and self.native_ok(f):
            try:
                return [(st, f(*args, **kw))]
            except Exception as e:
                return [(st, raise_(type(e), str(e)))]
        raise Unsupported('call of %r(%s)' % (f, ', '.join(repr(a)[:60] for a in args)))

    def native_ok(self, f):
        return True

    def call_other(self, st, f, args, kw):
        return None

    def bi_len(self, st, args, kw):
        from .interp import mk_int, raise_
        v = args[0]
        if isinstance(v, Ref):
            rec = st.heap[v.id]
            if isinstance(rec, HList):
                return [(st, mk_int(self.list_len(rec)))]
            if isinstance(rec, HDict):
                return [(st, mk_int(self.dict_len(rec)))]
            f = self.lookup_cls(getattr(rec, 'cls', object), '__len__')
            if isinstance(f, types.FunctionType):
                return self.call(st, Bound(f, v), [], {})
        if isinstance(v, STuple):
            return [(st, len(v.items))]
        if isinstance(v, SVal) and v.sort == 'Bytes':
            s = st.clone()
            s.add(blen(v.t) >= 0)
            return [(s, SInt(blen(v.t)))]
        if isinstance(v, SBytes):
            return [(st, mk_int(self.bytes_len(v)))]
        if isinstance(v, SRange):
            from .interp import int_term
            n = int_term(v.hi) - int_term(v.lo)
            return [(st, mk_int(z3.If(n > 0, n, z3.IntVal(0))))]
        if isinstance(v, SVal):
            return self.str_len(st, v)
        return None

    def str_len(self, st, v):
        raise Unsupported('len of a string')

    def bi_range(self, st, args, kw):
        from .interp import is_concrete
        if all(isinstance(a, int) for a in args):
            return [(st, range(*args))]
        if len(args) == 1:
            return [(st, SRange(0, args[0]))]
        if len(args) == 2:
            return [(st, SRange(args[0], args[1]))]
        raise Unsupported('range step')

    def bi_enumerate(self, st, args, kw):
        start = args[1] if len(args) > 1 else kw.get('start', 0)
        return [(st, SEnum(args[0], start))]

    def bi_isinstance(self, st, args, kw):
        from .interp import mk_bool
        v, c = args
        cs = c if isinstance(c, tuple) else (c.items if isinstance(c, STuple) else (c,))
        t = self.type_of(st, v)
        if isinstance(t, z3.BoolRef):
            raise Unsupported('isinstance')
        if t is None:
            return self.isinstance_other(st, v, cs)
        return [(st, any(issubclass(t, x) for x in cs))]

    def isinstance_other(self, st, v, cs):
        if isinstance(v, SObj) and all(c is self.ref_class or c in (int, str, bytes, float, bytearray) for c in cs):
            return [(st, False)]
        raise Unsupported('isinstance of %r' % (v,))

    def type_of(self, st, v):
        from .interp import is_concrete
        if isinstance(v, SInt):
            return int
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SReal):
            return float
        if isinstance(v, SVal):
            return v.kind or SORT_TYPES.get(v.sort)
        if isinstance(v, SBytes):
            return v.kind
        if isinstance(v, SRef):
            return self.ref_class
        if isinstance(v, Ref):
            return getattr(st.heap[v.id], 'cls', None)
        if isinstance(v, STuple):
            return tuple
        if isinstance(v, (Bound, LambdaVal)):
            return types.FunctionType
        if is_concrete(v):
            return type(v)
        return None

    ref_class = None

    def bi_type(self, st, args, kw):
        if len(args) == 1:
            t = self.type_of(st, args[0])
            if t is not None:
                return [(st, t)]
        return None

    def bi_hasattr(self, st, args, kw):
        from .interp import Ctl, mk_bool
        o, name = args
        out = []
        for s, v in self.getattr(st, o, name):
            if isinstance(v, Ctl):
                if v.out[0] == 'exc' and issubclass(v.out[1].cls, AttributeError):
                    out.append((s, False))
                else:
                    out.append((s, v))
            else:
                out.append((s, True))
        return out

    def bi_getattr(self, st, args, kw):
        from .interp import Ctl
        out = []
        for s, v in self.getattr(st, args[0], args[1]):
            if len(args) > 2 and isinstance(v, Ctl) and v.out[0] == 'exc' and issubclass(v.out[1].cls, AttributeError):
                out.append((s, args[2]))
            else:
                out.append((s, v))
        return out

    def bi_setattr(self, st, args, kw):
        return self.setattr(st, *args)

    def bi_int(self, st, args, kw):
        from .interp import mk_int, int_term
        if not args:
            return [(st, 0)]
        v = args[0]
        if isinstance(v, (SInt, SBool)):
            return [(st, mk_int(int_term(v)))]
        if isinstance(v, SReal):
            # truncation towards zero
            t = v.t
            return [(st, mk_int(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))))]
        return None

    def bi_float(self, st, args, kw):
        from .interp import real_term
        v = args[0]
        if isinstance(v, (SInt, SBool, SReal)):
            return [(st, SReal(real_term(v)))]
        if isinstance(v, SVal) and v.sort == 'Float':
            return [(st, v)]
        return None

    def bi_bool(self, st, args, kw):
        if not args:
            return [(st, False)]
        if isinstance(args[0], SBool):
            return [(st, args[0])]
        from .interp import mk_bool
        if isinstance(args[0], SInt):
            return [(st, mk_bool(args[0].t != 0))]
        return self.truth(st, args[0])

    def bi_str(self, st, args, kw):
        from .interp import is_concrete
        if args and not is_concrete(args[0]):
            if isinstance(args[0], SVal) and args[0].sort == 'Str':
                return [(st, args[0])]
            return [(st, SVal('Str', fresh('Str', 'str'), str))]
        return None

    bi_repr = bi_str

    def bi_abs(self, st, args, kw):
        from .interp import mk_int, int_term, real_term
        v = args[0]
        if isinstance(v, SInt):
            return [(st, mk_int(z3.If(v.t >= 0, v.t, -v.t)))]
        if isinstance(v, SReal):
            return [(st, SReal(z3.If(v.t >= 0, v.t, -v.t)))]
        return None

    def minmax(self, st, args, kw, less):
        from .interp import mk_int, int_term, real_term, is_concrete
        if all(is_concrete(a) for a in args):
            return None
        if len(args) < 2:
            return None
        conv = int_term
        wrap = mk_int
        if any(isinstance(a, (SReal, float)) for a in args):
            conv = real_term
            wrap = SReal
        ts = [conv(a) for a in args]
        if any(t is None for t in ts):
            return None
        r = ts[0]
        for t in ts[1:]:
            r = z3.If(t < r if less else t > r, t, r)
        return [(st, wrap(z3.simplify(r)))]

    def bi_min(self, st, args, kw):
        return self.minmax(st, args, kw, True)

    def bi_max(self, st, args, kw):
        return self.minmax(st, args, kw, False)

    def bi_bytearray(self, st, args, kw):
        if not args:
            return [(st, SBytes((), bytearray))]
        v = args[0]
        if isinstance(v, int) and not isinstance(v, bool):
            return [(st, SBytes(tuple(IntSeg(1, False, 'little', z3.IntVal(0)) for _ in range(v)), bytearray))]
        return self.mk_bytes(st, v, bytearray)

    def bi_bytes(self, st, args, kw):
        if not args:
            return [(st, b'')]
        v = args[0]
        if isinstance(v, (int, bytes)) and not isinstance(v, bool):
            return None
        return self.mk_bytes(st, v, bytes)

    def mk_bytes(self, st, v, kind):
        from .interp import int_term, raise_, NORM, Ctl
        if isinstance(v, SVal) and v.sort == 'Bytes':
            return [(st, SVal('Bytes', v.t, kind))]
        if isinstance(v, SBytes):
            return [(st, SBytes(v.segs, kind))]
        if isinstance(v, (bytes, bytearray)):
            return [(st, SBytes(self.to_segs(st, v), kind))]
        if v is None:
            return [(st, raise_(TypeError))]
        # iterable of ints
        s0 = st.clone()
        ref = s0.alloc(HList(list))
        out = []
        for s, _ in self.list_extend(s0, ref, v):
            from .interp import Ctl
            if isinstance(_, Ctl):
                out.append((s, _))
                continue
            xs = self.as_seq(s, ref)
            if xs is None:
                raise Unsupported('bytes of a symbolic list')
            segs = []
            cur = s
            bad = None
            for x in xs:
                t = int_term(x)
                if t is None:
                    bad = True
                    break
                segs.append(IntSeg(1, False, 'little', t))
            if bad:
                out.append((s, raise_(TypeError)))
                continue
            ok = z3.And(*[in_range(as_term(x.t), 1, False) for x in segs]) if segs else z3.BoolVal(True)
            for s2, b in self.fork(cur, ok):
                out.append((s2, SBytes(segs, kind) if b else raise_(ValueError, 'byte range')))
        return out

    def bi_list(self, st, args, kw):
        s = st.clone()
        ref = s.alloc(HList(list))
        if not args:
            return [(s, ref)]
        return self.bind(self.list_extend(s, ref, args[0]), lambda s2, _: [(s2, ref)])

    def bi_tuple(self, st, args, kw):
        if not args:
            return [(st, ())]
        v = args[0]
        seq = self.as_seq(st, v)
        if seq is not None:
            return [(st, STuple(seq))]
        s = st.clone()
        ref = s.alloc(HList(list))

        def fin(s2, _):
            q = self.as_seq(s2, ref)
            if q is None:
                raise Unsupported('tuple of symbolic length')
            return [(s2, STuple(q))]
        return self.bind(self.list_extend(s, ref, v), fin)

    def bi_dict(self, st, args, kw):
        s = st.clone()
        T = z3.BoolVal(True)
        if not args:
            return [(s, s.alloc(HDict(dict, {k: (T, v) for k, v in kw.items()})))]
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.heap[v.id], HDict) and not kw:
            r = st.heap[v.id]
            return [(s, s.alloc(HDict(dict, dict(r.entries), r.items)))]
        if isinstance(v, dict) and not kw:
            return [(s, s.alloc(HDict(dict, {k: (T, x) for k, x in v.items()})))]
        raise Unsupported('dict()')

    def bi_reversed(self, st, args, kw):
        v = args[0]
        seq = self.as_seq(st, v)
        if isinstance(v, Ref) and isinstance(st.heap[v.id], HList):
            return [(st, SIter(v, 'reversed'))]
        if seq is not None:
            return [(st, STuple(seq[::-1]))]
        return None

    def bi_iter(self, st, args, kw):
        return [(st, args[0])]

    def bi_zip(self, st, args, kw):
        seqs = []
        for a in args:
            q = self.as_seq(st, a)
            if q is None and isinstance(a, (str, bytes, range, dict)):
                q = list(a)
            if q is None and isinstance(a, SBytes):
                try:
                    q = self.bytes_ints(st, a)
                except Unsupported:
                    pass
            if q is None:
                return self.zip_sym(st, args)
            seqs.append(q)
        return [(st, STuple([STuple(t) for t in zip(*seqs)]))]

    def zip_sym(self, st, args):
        """zip of sequences of symbolic length: a list of tuples"""
        s = st.clone()
        many = []
        for a in args:
            if self.is_bytes(a):
                ps = self.byte_parts(s, a)
            elif isinstance(a, Ref) and isinstance(s.heap[a.id], HList) and not self.has_py_iter(s, a):
                ps = [Many(p.n, lambda s2, k, p=p, a=a: self.view(s2, a, p, k)) if isinstance(p, Many) else p
                      for p in s.heap[a.id].parts]
            else:
                raise Unsupported('zip of %r' % (a,))
            if len(ps) != 1 or not isinstance(ps[0], Many):
                raise Unsupported('zip')
            many.append(ps[0])
        n = as_term(many[0].n)
        for m in many[1:]:
            if not self.entails(s, n == m.n):
                n = z3.If(as_term(m.n) < n, m.n, n)
        ref = s.alloc(HList(list, [Many(z3.simplify(n), lambda s2, k: STuple([m.inst(s2, k) for m in many]))]))
        return [(s, ref)]

    def byte_parts(self, st, v):
        """byte string as list parts of integers"""
        parts = []
        for seg in self.to_segs(st, v):
            if isinstance(seg, IntSeg):
                parts.extend(One(self.mk_int_(as_term(x.t))) for x in self.expand(st, seg))
            elif isinstance(seg, BlobSeg):
                def inst(s2, k, seg=seg):
                    t = bat(seg.t, z3.simplify(as_term(seg.lo) + k))
                    s2.add(t >= 0, t < 256)
                    return SInt(t)
                parts.append(Many(z3.simplify(as_term(seg.hi) - as_term(seg.lo)), inst))
            elif isinstance(seg, RepSeg) and len(seg.segs) == 1 and isinstance(seg.segs[0], IntSeg) and seg.segs[0].w == 1:
                def inst(s2, k, seg=seg):
                    s2.add(*[z3.substitute(f, (seg.k, k)) for f in seg.facts])
                    x = self.expand(s2, subst_seg(seg.segs[0], [(seg.k, k)]))[0]
                    return self.mk_int_(as_term(x.t))
                parts.append(Many(seg.n, inst))
            else:
                raise Unsupported('bytes of %r' % seg)
        return parts

    @staticmethod
    def mk_int_(t):
        from .interp import mk_int
        return mk_int(t)

    def bi_sum(self, st, args, kw):
        from .interp import NORM, Ctl
        s = st.clone()
        ref = s.alloc(HList(list))

        def fin(s2, _):
            q = self.as_seq(s2, ref)
            if q is None:
                raise Unsupported('sum of symbolic length')
            rs = [(s2, args[1] if len(args) > 1 else 0)]
            for x in q:
                rs = self.bind_all(rs, lambda s3, a, x=x: self.binop(s3, ast.Add(), a, x))
            return rs
        return self.bind(self.list_extend(s, ref, args[0]), fin)

    def bind_all(self, rs, f):
        return self.bind(rs, f)

    def quant(self, st, args, is_any):
        from .interp import NORM, Ctl
        s = st.clone()
        ref = s.alloc(HList(list))

        def fin(s2, _):
            q = self.as_seq(s2, ref)
            if q is None:
                raise Unsupported('any/all of symbolic length')
            live, out = [s2], []
            for x in q:
                nxt = []
                for s3 in live:
                    for s4, b in self.truth(s3, x):
                        if isinstance(b, Ctl):
                            out.append((s4, b))
                        elif b == is_any:
                            out.append((s4, is_any))
                        else:
                            nxt.append(s4)
                live = nxt
            return [(x, not is_any) for x in live] + out
        return self.bind(self.list_extend(s, ref, args[0]), fin)

    def bi_any(self, st, args, kw):
        return self.quant(st, args, True)

    def bi_all(self, st, args, kw):
        return self.quant(st, args, False)

    def bi_pow(self, st, args, kw):
        from .interp import is_concrete
        if all(is_concrete(a) for a in args):
            return None
        return self.binop(st, ast.Pow(), args[0], args[1])

    # ------------------------------------------------------------ strings and bytes
    @staticmethod
    def is_bytes(v):
        return isinstance(v, (SBytes, bytes, bytearray)) or (isinstance(v, SVal) and v.sort == 'Bytes')

    def to_segs(self, st, v):
        if isinstance(v, SBytes):
            return v.segs
        if isinstance(v, (bytes, bytearray)):
            return tuple(IntSeg(1, False, 'little', z3.IntVal(b)) for b in v)
        if isinstance(v, SVal) and v.sort == 'Bytes':
            return (BlobSeg(v.t),)
        raise Unsupported('not bytes: %r' % (v,))

    def bytes_len(self, v):
        n = z3.IntVal(0)
        for s in v.segs:
            l = seg_len(s)
            if l is None and isinstance(s, RepSeg):
                ls = [seg_len(x) for x in s.segs]
                if all(isinstance(x, int) for x in ls):
                    l = z3.If(s.n > 0, s.n, 0) * sum(ls)
            if l is None:
                raise Unsupported('length of %r' % s)
            n = n + l
        n = z3.simplify(n)
        return n.as_long() if z3.is_int_value(n) else n

    def expand(self, st, seg):
        """segment -> finer segments (bytes)"""
        if isinstance(seg, IntSeg):
            if seg.w == 1:
                t = as_term(seg.t)
                return [IntSeg(1, False, 'little', z3.simplify(z3.If(t < 0, t + 256, t)) if seg.signed else t)]
            t = as_term(seg.t)
            if seg.signed:
                t = z3.If(t < 0, t + (1 << (8 * seg.w)), t)
            bs = [IntSeg(1, False, 'little', z3.simplify((t / (1 << (8 * i))) % 256 if i < seg.w - 1 else t / (1 << (8 * i))))
                  for i in range(seg.w)]
            return bs if seg.order == 'little' else bs[::-1]
        if isinstance(seg, ValSeg) and seg.kind.startswith('string:'):
            b = enc_fn(seg.kind[7:])(seg.t)
            return [IntSeg(2, False, seg.order, blen(b)), BlobSeg(b)]
        if isinstance(seg, ValSeg):
            f = self.valbytes(seg)
            return [BlobSeg(f, z3.IntVal(0), z3.IntVal(VAL_WIDTH[seg.kind]))] if seg.kind in VAL_WIDTH else None
        return None

    def valbytes(self, seg):
        key = (seg.kind, seg.order)
        if key not in valbytes:
            valbytes[key] = z3.Function('bytes_%s_%s' % key, seg.t.sort(), SORTS['Bytes'])
        return valbytes[key](seg.t)

    def bytes_ints(self, st, v):
        """list of ints when the length is concrete"""
        from .interp import mk_int
        out = []
        for seg in self.to_segs(st, v):
            if isinstance(seg, IntSeg):
                out.extend(mk_int(as_term(x.t)) for x in self.expand(st, seg))
            elif isinstance(seg, BlobSeg):
                n = z3.simplify(seg.hi - seg.lo)
                if not z3.is_int_value(n):
                    raise Unsupported('iterating bytes of symbolic length')
                for i in range(n.as_long()):
                    t = bat(seg.t, z3.simplify(seg.lo + i))
                    st.add(t >= 0, t < 256)
                    out.append(SInt(t))
            else:
                raise Unsupported('bytes of %r' % seg)
        return out

    def bytes_equal(self, st, a, b):
        sa, sb = self.to_segs(st, a), self.to_segs(st, b)
        try:
            xa, xb = self.bytes_ints(st, SBytes(sa)), self.bytes_ints(st, SBytes(sb))
        except Unsupported:
            if self.entails(st, as_term(self.bytes_len(SBytes(sa))) != as_term(self.bytes_len(SBytes(sb)))):
                return [(st, False)]
            raise
        if len(xa) != len(xb):
            return [(st, False)]
        from .interp import int_term
        return [(st, z3.And(*[int_term(p) == int_term(q) for p, q in zip(xa, xb)]) if xa else True)]

    def bytes_slice(self, st, o, sl):
        segs = self.to_segs(st, o)
        kind = o.kind if isinstance(o, (SBytes, SVal)) and o.kind else bytes
        if sl.lo is None and sl.hi is None and sl.step is None:
            return [(st, SBytes(segs, kind))]
        if all(x is None or isinstance(x, int) for x in (sl.lo, sl.hi, sl.step)):
            xs = self.bytes_ints(st, SBytes(segs))
            from .interp import int_term
            return [(st, SBytes([IntSeg(1, False, 'little', int_term(x)) for x in xs[slice(sl.lo, sl.hi, sl.step)]], kind))]
        raise Unsupported('byte slice')

    def bytes_item(self, st, o, i):
        if isinstance(i, int):
            xs = self.bytes_ints(st, o)
            from .interp import raise_
            if -len(xs) <= i < len(xs):
                return [(st, xs[i])]
            return [(st, raise_(IndexError))]
        raise Unsupported('byte index')

    def bytes_method(self, st, v, name, args, kw):
        from .interp import Ctl
        if name == 'decode':
            enc = args[0] if args else kw.get('encoding', 'utf-8')
            t = self.term_of(st, v, 'Bytes')
            if t is None:
                return self.decode_segs(st, v, enc)
            f = enc_fn(enc)
            if z3.is_app(t) and t.decl().eq(f):
                return [(st, SVal('Str', t.arg(0), str))]
            return [(st, SVal('Str', z3.Function('dec_' + enc, SORTS['Bytes'], SORTS['Str'])(t), str))]
        if name == 'strip':
            return self.bytes_strip(st, v, args)
        raise Unsupported('bytes.%s' % name)

    def decode_segs(self, st, v, enc):
        if isinstance(v, SBytes) and not v.segs:
            return [(st, u'')]
        raise Unsupported('decode')

    def bytes_strip(self, st, v, args):
        raise Unsupported('strip')

    def str_method(self, st, v, name, args, kw):
        if name == 'encode':
            enc = args[0] if args else kw.get('encoding', 'utf-8')
            s = st.clone()
            b = enc_fn(enc)(v.t)
            s.add(blen(b) >= 0)
            return [(s, SVal('Bytes', b, bytes))]
        raise Unsupported('str.%s' % name)

    # ------------------------------------------------------------ streams
    def norm_pos(self, st, pos):
        while pos is not None:
            segs, j, parent = pos
            if j >= len(segs):
                pos = parent
                continue
            head = segs[j]
            if isinstance(head, CondSeg):
                live = []
                for c, ss in head.alts:
                    if self.feasible(st, c):
                        live.append((c, ss))
                if len(live) == 1:
                    pos = (live[0][1], 0, (segs, j + 1, parent)) if live[0][1] else (segs, j + 1, parent)
                    # canonical identity for frames so that positions compare equal
                    pos = self.canon(pos)
                    continue
                if len(live) == 0:
                    return pos
            if isinstance(head, BlobSeg) and self.entails(st, head.hi <= head.lo):
                pos = self.canon((segs, j + 1, parent))
                continue
            if isinstance(head, RepSeg) and self.entails(st, head.n <= 0):
                pos = self.canon((segs, j + 1, parent))
                continue
            return pos
        return None

    def canon(self, pos):
        return pos

    def remaining(self, st):
        """rough amount of remaining input, for ordering work items"""
        n = 0
        for r in st.heap.values():
            if isinstance(r, HIn):
                p = r.pos
                d = 0
                while p is not None:
                    n += max(0, len(p[0]) - p[1]) * (1000 ** max(0, 3 - d))
                    p = p[2]
                    d += 1
                # depth-insensitive: count from the outermost frame
                p, chain = r.pos, []
                while p is not None:
                    chain.append(p)
                    p = p[2]
                n = 0.0
                scale = 1.0
                for p in reversed(chain):
                    n += (len(p[0]) - p[1]) * scale
                    scale /= 4096.0
        return n

    def split_head(self, st):
        """if the next input segment is an undecided alternative, split the state on it"""
        for i, r in st.heap.items():
            if isinstance(r, HIn):
                p = self.norm_pos(st, r.pos)
                if p is not None and isinstance(p[0][p[1]], CondSeg):
                    out = []
                    for c, ss in p[0][p[1]].alts:
                        if self.feasible(st, c):
                            s = st.assume(c)
                            s.heap[i] = HIn(self.norm_pos(s, (ss, 0, (p[0], p[1] + 1, p[2]))))
                            out.append(s)
                    if len(out) > 1:
                        return out
        return None

    def heads(self, st, f):
        """-> [(state, pos or None)] with the input head decided (not an alternative)"""
        pos = self.norm_pos(st, st.heap[f.id].pos)
        if pos is not None and isinstance(pos[0][pos[1]], CondSeg):
            out = []
            for c, ss in pos[0][pos[1]].alts:
                if self.feasible(st, c):
                    s = st.assume(c)
                    s.heap[f.id] = HIn((ss, 0, (pos[0], pos[1] + 1, pos[2])))
                    out.extend(self.heads(s, f))
            return out
        return [(st, pos)]

    def advance(self, st, f, pos):
        s = st.clone()
        s.heap[f.id] = HIn((pos[0], pos[1] + 1, pos[2]))
        return s

    def replace_head(self, st, f, pos, segs):
        s = st.clone()
        s.heap[f.id] = HIn((tuple(segs), 0, (pos[0], pos[1] + 1, pos[2])))
        return s

    def mismatch(self, st, what):
        from .interp import Refuted
        raise Refuted(what, st, conj_(st.hints) if st.hints else None)

    def read_int(self, st, f, w, signed, order):
        from .interp import mk_int, raise_
        if w == 1:
            order = 'little'
        out = []
        for s, pos in self.heads(st, f):
            if pos is None:
                out.append((s, raise_(_struct.error, 'end of record')))
                continue
            h = pos[0][pos[1]]
            if isinstance(h, IntSeg) and h.w == w and h.order == order:
                t = as_term(h.t)
                if h.signed != signed:
                    if signed:
                        t = z3.If(t >= (1 << (8 * w - 1)), t - (1 << (8 * w)), t)
                    else:
                        t = z3.If(t < 0, t + (1 << (8 * w)), t)
                out.append((self.advance(s, f, pos), mk_int(t, h.bits if h.signed == signed else None)))
                continue
            # assemble from single bytes
            for s2, bs in self.read_bytes(s, f, w):
                if bs is None:
                    out.append((s2, raise_(_struct.error, 'end of record')))
                    continue
                out.append((s2, self.assemble(bs, signed, order)))
        return out

    def assemble(self, bs, signed, order):
        from .interp import mk_int, int_term
        w = len(bs)
        seq = bs if order == 'little' else bs[::-1]
        t = z3.IntVal(0)
        for i, b in enumerate(seq):
            t = t + int_term(b) * (1 << (8 * i))
        if signed:
            t = z3.If(t >= (1 << (8 * w - 1)), t - (1 << (8 * w)), t)
        return mk_int(t)

    def read_bytes(self, st, f, n):
        """n (concrete) single bytes -> [(state, [ints] | None if the record ends first)]"""
        from .interp import mk_int
        res = [(st, [])]
        for _ in range(n):
            nxt = []
            for s, acc in res:
                if acc is None:
                    nxt.append((s, None))
                    continue
                for s2, v in self.read_byte(s, f):
                    nxt.append((s2, None if v is None else acc + [v]))
            res = nxt
        return res

    def read_byte(self, st, f):
        from .interp import mk_int
        out = []
        for s, pos in self.heads(st, f):
            if pos is None:
                out.append((s, None))
                continue
            h = pos[0][pos[1]]
            if isinstance(h, IntSeg) and h.w == 1:
                out.append((self.advance(s, f, pos), mk_int(as_term(self.expand(s, h)[0].t))))
            elif isinstance(h, BlobSeg):
                for s2, b in self.fork(s, h.hi > h.lo):
                    if b:
                        t = bat(h.t, z3.simplify(h.lo))
                        s3 = self.replace_head(s2, f, pos, [BlobSeg(h.t, z3.simplify(h.lo + 1), h.hi)])
                        s3.add(t >= 0, t < 256)
                        out.append((s3, SInt(t)))
                    else:
                        out.extend(self.read_byte(self.advance(s2, f, pos), f))
            else:
                x = self.expand(s, h)
                if x is None:
                    self.mismatch(s, 'reads bytes where the record holds %r' % h)
                out.extend(self.read_byte(self.replace_head(s, f, pos, x), f))
        return out

    def read_val(self, st, f, kind, order, sort, pytype):
        """an opaque encoded value"""
        out = []
        for s, pos in self.heads(st, f):
            if pos is None:
                from .interp import raise_
                out.append((s, raise_(_struct.error, 'end of record')))
                continue
            h = pos[0][pos[1]]
            if isinstance(h, ValSeg) and h.kind == kind and (h.order == order):
                out.append((self.advance(s, f, pos), SVal(sort, h.t, pytype)))
                if self.cut and kind == 'fourcc':        # gives what is left instead of raising
                    out.append((self.cut_state(s, f), SVal(sort, fresh(sort), pytype)))
                continue
            self.mismatch(s, 'reads a %s (%s) where the record holds %r' % (kind, order, h))
        return out

    def cut_state(self, st, f):
        """the record ends before what is read here"""
        s = st.clone()
        s.short = True
        s.heap[f.id] = HIn(None)
        return s

    def take(self, st, f, n):
        """f.read(n) -> [(state, SBytes)]"""
        from .interp import int_term
        out = self.take_(st, f, n)
        if self.cut and not st.short:
            nt = as_term(int_term(n))
            for s, b in self.fork(st, nt > 0):
                if b:
                    m, t = fresh_int('cut'), fresh('Bytes')
                    s = self.cut_state(s, f)
                    s.add(m >= 0, m < nt, blen(t) == m)
                    out.append((s, SBytes((BlobSeg(t, z3.IntVal(0), m),))))
        return out

    def take_(self, st, f, n):
        from .interp import int_term
        out = []
        nt = int_term(n)
        for s, pos in self.heads(st, f):
            if pos is None:
                out.append((s, SBytes(())))
                continue
            if self.entails(s, nt == 0):
                out.append((s, SBytes(())))
                continue
            h = pos[0][pos[1]]
            l = seg_len(h)
            if l is None and isinstance(h, ValSeg):
                x = self.expand(s, h)
                if x is not None:
                    out.extend(self.take_(self.replace_head(s, f, pos, x), f, n))
                    continue
            if l is None:
                self.mismatch(s, 'reads bytes where the record holds %r' % h)
            lt = as_term(l)
            for s1, neg in self.fork(s, nt < 0):
                if neg:
                    raise Unsupported('read(negative)')
                for s2, b in self.fork(s1, nt >= lt):
                    if b:
                        seg = h
                        s3 = self.advance(s2, f, pos)
                        from .interp import mk_int, Ctl
                        for s4, rest in self.take_(s3, f, mk_int(nt - lt)):
                            out.append((s4, SBytes((seg,) + tuple(rest.segs))))
                    else:
                        if isinstance(h, BlobSeg):
                            m = z3.simplify(h.lo + nt)
                            s3 = self.replace_head(s2, f, pos, [BlobSeg(h.t, m, h.hi)])
                            out.append((s3, SBytes((BlobSeg(h.t, h.lo, m),))))
                        else:
                            x = self.expand(s2, h)
                            if x is None:
                                self.mismatch(s2, 'reads part of %r' % h)
                            out.extend(self.take_(self.replace_head(s2, f, pos, x), f, n))
        return out

    def stream_method(self, st, f, name, args, kw):
        from .interp import raise_, Ctl
        rec = st.heap[f.id]
        if isinstance(rec, HIn):
            if name == 'read':
                if not args or args[0] is None or (isinstance(args[0], int) and args[0] < 0):
                    return self.read_rest(st, f)
                return self.with_alts(st, args[0], lambda s, n: self.take(s, f, n))
            if name == 'tell':
                return [(st, SPos(f.id, self.norm_pos(st, rec.pos)))]
            if name == 'seek' and len(args) == 1 and isinstance(args[0], Union):
                return self.with_alts(st, args[0], lambda s, v: self.stream_method(s, f, 'seek', [v], kw))
            if name == 'seek' and isinstance(args[0], SPos) and args[0].stream == f.id and len(args) == 1:
                if st.short and args[0].pos is not None:
                    raise Unsupported('seek after a short read')
                s = st.clone()
                s.heap[f.id] = HIn(args[0].pos)
                return [(s, None)]
        if isinstance(rec, HOut):
            if name == 'write':
                return self.with_alts(st, args[0], lambda s, v: self.stream_write(s, f, v))
            if name == 'getvalue':
                return [(st, SBytes(rec.segs))]
        return self.stream_other(st, f, name, args, kw)

    def stream_other(self, st, f, name, args, kw):
        raise Unsupported('stream.%s' % name)

    def read_rest(self, st, f):
        out = []
        for s, pos in self.heads(st, f):
            if pos is None:
                out.append((s, SBytes(())))
            else:
                raise Unsupported('read the rest of the record')
        return out

    def stream_write(self, st, f, v):
        from .interp import raise_
        if isinstance(v, Ref) and isinstance(st.heap[v.id], HList) and issubclass(st.heap[v.id].cls, (bytearray,)):
            raise Unsupported('bytearray object')
        if not self.is_bytes(v):
            return [(st, raise_(TypeError, 'write of non-bytes'))]
        return [(self.emit(st, f, *self.to_segs(st, v)), None)]

    def emit(self, st, f, *segs):
        s = st.clone()
        r = s.heap[f.id]
        s.heap[f.id] = HOut(r.segs + tuple(segs))
        return s

    def write_int(self, st, f, v, w, signed, order):
        from .interp import raise_, int_term

        def one(s, x):
            t = int_term(x)
            if t is None or isinstance(x, SReal):
                return [(s, raise_(_struct.error, 'not an integer: %r' % (x,)))]
            out = []
            for s2, b in self.fork(s, in_range(t, w, signed)):
                if b:
                    out.append((self.emit(s2, f, IntSeg(w, signed, order, t)), None))
                else:
                    out.append((s2, raise_(_struct.error, 'value out of range of the field')))
            return out
        return self.with_alts(st, v, one)

    def write_val(self, st, f, v, kind, order, sort):
        from .interp import raise_

        def one(s, x):
            t = self.term_of(s, x, sort)
            if t is None:
                return [(s, raise_(TypeError, 'cannot encode %r as %s' % (x, kind)))]
            return [(self.emit(s, f, ValSeg(kind, order, t)), None)]
        return self.with_alts(st, v, one)


def conj_(cs):
    return z3.And(*cs) if len(cs) > 1 else cs[0]


def int_t(v):
    return z3.IntVal(v) if isinstance(v, int) else v.t if isinstance(v, SInt) else v


def from_bits(bits):
    t = z3.IntVal(0)
    conc = True
    for i in sorted(bits):
        if z3.is_true(bits[i]):
            t = t + (1 << i)
        else:
            conc = False
            t = t + z3.If(bits[i], z3.IntVal(1 << i), z3.IntVal(0))
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t, dict(bits))


def is_single(v):
    return v is None or type(v) is object or isinstance(v, type)


def fresh_opaque():
    return SVal('Obj', fresh('Obj'), object)


def type_class(v):
    if isinstance(v, (SInt, int, SBool, bool, float, SReal)):
        return 'num'
    if isinstance(v, str) or isinstance(v, SVal) and v.sort == 'Str':
        return 'str'
    if isinstance(v, (bytes, bytearray, SBytes)) or isinstance(v, SVal) and v.sort == 'Bytes':
        return 'bytes'
    if isinstance(v, SVal):
        return v.sort
    return type(v).__name__


BUILTIN_SET = {len, range, enumerate, isinstance, type, hasattr, getattr, setattr, int, float, bool, str, repr, abs,
               min, max, bytearray, bytes, list, tuple, dict, reversed, iter, zip, sum, any, all, pow}


def Ctl_():
    from .interp import Ctl
    return Ctl
