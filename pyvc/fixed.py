"""Second proof engine: path-complete execution of real straight-line code on symbolic fixed-size values.

The functions of /repo whose loops all have a fixed number of turns (mob ids, primitive codecs, helpers) are loaded from
/repo's current source, mechanically rewritten only where a C-level builtin would reject a symbolic operand (see
Rewriter), and executed by CPython on symbolic values.  Every feasible path is executed (branches are decided by z3) and
every postcondition is an SMT validity query under the path condition, so an accepted obligation holds for all values of
the stated types.  The same obligation, run on concrete values against the unmodified module, is the replay and the
cross-check.
"""
import ast
import builtins
import os
import random
import struct as _struct
import sys
import types
import uuid as _uuid
import datetime as _datetime
from fractions import Fraction
import z3

from .values import Unsupported


class Infeasible(Exception):
    def __init__(self, *a):
        Exception.__init__(self, *a)
        dying(self)


def dying(ex):
    """the run is over, whatever handlers of the code under proof make of the exception"""
    x = CUR.x
    if x is not None and getattr(x, 'dead', None) is None:
        x.dead = ex


class _Cur:
    x = None


Unsupported.notify = staticmethod(lambda ex: dying(ex))


CUR = _Cur()


def _val(t):
    return z3.BitVecVal(t, 8)


# --------------------------------------------------------------------------------------------- symbolic values

class Sym:
    __slots__ = ()

    def __hash__(self):
        raise Unsupported('hash of a symbolic %s' % type(self).__name__)

    def __copy__(self, memo=None):
        return self     # immutable; mutable ones override
    __deepcopy__ = __copy__


class SymBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CUR.x.branch(self.t)

    def __eq__(self, o):
        return mkbool(self.t == bterm(o))

    def __ne__(self, o):
        return mkbool(self.t != bterm(o))

    def __and__(self, o):
        return mkbool(z3.And(self.t, bterm(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, bterm(o)))

    __ror__ = __or__

    def __invert__(self):
        raise Unsupported('~bool')

    def __index__(self):
        return 1 if self else 0

    __int__ = __index__

    def __add__(self, o):
        return int(self) + o

    def __radd__(self, o):
        return o + int(self)

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def __mul__(self, o):
        return int(self) * o

    __rmul__ = __mul__


def bterm(b):
    if isinstance(b, SymBool):
        return b.t
    if isinstance(b, bool):
        return z3.BoolVal(b)
    raise Unsupported('truth of %r' % (b,))


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def land(*bs):
    return mkbool(z3.And(*[bterm(b) for b in bs])) if bs else True


def lor(*bs):
    return mkbool(z3.Or(*[bterm(b) for b in bs])) if bs else False


def lnot(b):
    return mkbool(z3.Not(bterm(b)))


def implies(a, b):
    return lor(lnot(a), b)


def mkint(bv):
    """signed two's complement bit vector -> python int or SymInt"""
    bv = z3.simplify(bv)
    if z3.is_bv_value(bv):
        return bv.as_signed_long()
    return SymInt(bv)


def nn(bv):
    """unsigned bit vector -> int"""
    return mkint(z3.ZeroExt(1, bv))


def isint(v):
    return isinstance(v, (int, SymInt, SymZ, SymBool))


def ibv(v):
    """any python int or SymInt as a signed bit vector"""
    if isinstance(v, SymInt):
        return v.t
    if isinstance(v, (bool, SymBool)):
        v = int(bool(v))
    return z3.BitVecVal(v, v.bit_length() + 1)


def common(a, b, extra=0):
    a, b = ibv(a), ibv(b)
    w = max(a.size(), b.size()) + extra
    return z3.SignExt(w - a.size(), a), z3.SignExt(w - b.size(), b)


def shrink(bv):
    """drop redundant sign bits visible syntactically"""
    bv = z3.simplify(bv)
    if z3.is_bv_value(bv):
        return bv
    if bv.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(bv.arg(0)) and bv.arg(0).as_long() == 0 and bv.arg(0).size() > 1:
        rest = [bv.arg(i) for i in range(1, bv.num_args())]
        return z3.simplify(z3.Concat(z3.BitVecVal(0, 1), *rest))
    return bv


class SymInt(Sym):
    """exact integer held in a signed bit vector wide enough never to overflow"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = shrink(t)

    def __repr__(self):
        return 'SymInt%d(%s)' % (self.t.size(), str(self.t)[:80])

    def _cmp(self, o, f):
        if isinstance(o, (SymF, float)):
            return NotImplemented
        if isinstance(o, SymZ):
            return NotImplemented
        if not isint(o):
            return NotImplemented
        a, b = common(self, o)
        return mkbool(f(a, b))

    def __eq__(self, o):
        if isinstance(o, (SymF, float)):
            return flt(self) == o
        if not isint(o):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _bin(self, o, f, extra):
        if not isinstance(o, (int, SymInt)):
            return NotImplemented
        a, b = common(self, o, extra)
        return mkint(f(a, b))

    def __add__(self, o):
        if isinstance(o, int) and o == 0:
            return self
        return self._bin(o, addbv, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, 1)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, 1)

    def __mul__(self, o):
        if isinstance(o, int):
            if o > 0 and o & (o - 1) == 0:
                return self << (o.bit_length() - 1)
            return self._bin(o, lambda a, b: a * b, o.bit_length() + 1)
        if isinstance(o, (float, SymF)):
            return flt(self) * o
        raise Unsupported('product of two symbolic integers')

    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __abs__(self):
        if self < 0:
            return -self
        return self

    def __and__(self, o):
        return self._bin(o, lambda a, b: a & b, 0)

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda a, b: a | b, 0)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda a, b: a ^ b, 0)

    __rxor__ = __xor__

    def __invert__(self):
        return mkint(~self.t)

    def __lshift__(self, n):
        if isinstance(n, SymInt):
            raise Unsupported('shift by a symbolic amount')
        if n == 0:
            return self
        return mkint(z3.Concat(self.t, z3.BitVecVal(0, n)))

    def __rshift__(self, n):
        if isinstance(n, SymInt):
            raise Unsupported('shift by a symbolic amount')
        n = min(n, self.t.size() - 1)
        return mkint(z3.Extract(self.t.size() - 1, n, self.t))

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self >> (o.bit_length() - 1)
        raise Unsupported('integer division')

    def __mod__(self, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            return self & (o - 1)
        raise Unsupported('modulo')

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return flt(self) / o

    def __bool__(self):
        return CUR.x.branch(self.t != 0)

    def __index__(self):
        raise Unsupported('symbolic integer used as an index')

    __int__ = __index__
    __float__ = __index__

    def to_bytes(self, length=1, byteorder='big', signed=False):
        raw = pack_int(self, length, signed, byteorder, OverflowError)
        return SymBuf(raw, bytes)


def addbv(a, b):
    """addition of disjoint bit patterns is their disjunction (keeps byte concatenations syntactic)"""
    a, b = z3.simplify(a), z3.simplify(b)
    za, zb = zero_bits(a), zero_bits(b)
    if all(x or y for x, y in zip(za, zb)):
        parts = []
        i = a.size() - 1
        while i >= 0:
            src = b if za[i] else a
            j = i
            while j >= 0 and (za[j] if src is b else not za[j]):
                j -= 1
            parts.append(z3.Extract(i, j + 1, src))
            i = j
        return z3.simplify(z3.Concat(*parts) if len(parts) > 1 else parts[0])
    return a + b


def zero_bits(t):
    """list, least significant first: True where the bit is syntactically zero"""
    if z3.is_bv_value(t):
        v = t.as_long()
        return [not (v >> i) & 1 for i in range(t.size())]
    k = t.decl().kind()
    if k == z3.Z3_OP_CONCAT:
        out = []
        for i in reversed(range(t.num_args())):
            out += zero_bits(t.arg(i))
        return out
    if k == z3.Z3_OP_ZERO_EXT:
        z = zero_bits(t.arg(0))
        return z + [True] * (t.size() - len(z))
    return [False] * t.size()


class SymZ(Sym):
    """unbounded integer (z3 Int)"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SymZ(%s)' % self.t

    @staticmethod
    def term(o):
        if isinstance(o, SymZ):
            return o.t
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            return z3.IntVal(o)
        if isinstance(o, SymInt):
            return z3.BV2Int(o.t, is_signed=True)
        return None

    def _cmp(self, o, f):
        if isinstance(o, (float, SymF)):
            return mkbool(f(z3.ToReal(self.t), rterm(o)))
        t = self.term(o)
        if t is None:
            return NotImplemented
        return mkbool(f(self.t, t))

    def __eq__(self, o):
        if not isint(o) and not isinstance(o, (float, SymF)):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _bin(self, o, f):
        t = self.term(o)
        if t is None:
            return NotImplemented
        return mkz(f(self.t, t))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (float, SymF)):
            return flt(self) * o
        if isinstance(o, int):
            return mkz(self.t * o)
        raise Unsupported('product of symbolic integers')

    __rmul__ = __mul__

    def __neg__(self):
        return mkz(-self.t)

    def __abs__(self):
        return mkz(z3.If(self.t >= 0, self.t, -self.t))

    def __truediv__(self, o):
        if isinstance(o, (int, float)):
            return flt(self) / o
        raise Unsupported('division')

    def __bool__(self):
        return CUR.x.branch(self.t != 0)

    def __index__(self):
        raise Unsupported('symbolic integer used as an index')

    __int__ = __index__
    __float__ = __index__

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mkz(self.t / o)
        raise Unsupported('integer division')

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mkz(self.t % o)
        raise Unsupported('modulo')

    def __rshift__(self, o):
        return self // (1 << o)

    def __lshift__(self, o):
        return self * (1 << o)

    def _u(self, *a):
        raise Unsupported('bit operation on an unbounded symbolic integer')

    __and__ = __or__ = __xor__ = __rand__ = __ror__ = _u


def mkz(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymZ(t)


RN = z3.Function('RN', z3.RealSort(), z3.RealSort())       # round to nearest double


def rterm(v):
    if isinstance(v, SymF):
        return v.t
    if isinstance(v, SymZ):
        return z3.ToReal(v.t)
    if isinstance(v, SymInt):
        return z3.ToReal(z3.BV2Int(v.t, is_signed=True))
    if isinstance(v, (int, float)):
        f = Fraction(v)
        return z3.RealVal(f.numerator) / z3.RealVal(f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)
    raise Unsupported('real value of %r' % (v,))


def rounded(t):
    """the double nearest to the exact real t; the axioms of rounding are instantiated at t"""
    t = z3.simplify(t)
    r = RN(t)
    eps = z3.RealVal(1) / z3.RealVal(2 ** 53)
    m = z3.If(t >= 0, t, -t)
    CUR.x.assume_t(z3.And(r - t <= eps * m, t - r <= eps * m,
                          z3.Implies(z3.And(z3.IsInt(t), m <= 2 ** 53), r == t)))
    return SymF(r)


def flt(v):
    """float(v)"""
    if isinstance(v, SymF):
        return v
    if isinstance(v, (SymInt, SymZ)):
        return SymR(rterm(v)) if CUR.x.exact else rounded(rterm(v))
    return float(v)


class SymF(Sym):
    """a double, as the exact real it stands for; every operation rounds (RN)"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SymF(%s)' % self.t

    def _ok(self, o):
        return isinstance(o, (int, float, SymF, SymZ, SymInt)) and not isinstance(o, bool)

    def _cmp(self, o, f):
        if not self._ok(o):
            return NotImplemented
        return mkbool(f(self.t, rterm(o)))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b) if self._ok(o) else False

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _bin(self, o, f):
        if not self._ok(o):
            return NotImplemented
        o = flt(o)
        return rounded(f(self.t, rterm(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, (int, float)) or o == 0:
            raise Unsupported('division by %r' % (o,))
        return self._bin(o, lambda a, b: a / b)

    def __neg__(self):
        return SymF(-self.t)

    def __abs__(self):
        return SymF(z3.If(self.t >= 0, self.t, -self.t))

    def __bool__(self):
        return CUR.x.branch(self.t != 0)

    def trunc(self):
        return mkz(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)))

    def __trunc__(self):
        return self.trunc()

    def is_integer(self):
        return mkbool(z3.IsInt(self.t))

    def __round__(self, nd=None):
        if nd:
            raise Unsupported('round to digits')
        r = CUR.x.fresh_int('round')
        h = z3.RealVal('1/2')
        CUR.x.assume_t(z3.And(z3.ToReal(r) - self.t <= h, self.t - z3.ToReal(r) <= h))
        return SymZ(r)

    def __int__(self):
        raise Unsupported('int() of a symbolic float outside rewritten code')

    __float__ = __index__ = __int__


class SymR(SymF):
    """a float taken as the mathematical real number (stated assumption where used)"""
    __slots__ = ()

    def _bin(self, o, f):
        if not self._ok(o):
            return NotImplemented
        return SymR(f(self.t, rterm(o)))

    def __truediv__(self, o):
        if not self._ok(o):
            return NotImplemented
        if bool(o == 0):
            raise ZeroDivisionError('float division by zero')
        return SymR(self.t / rterm(o))

    def __rtruediv__(self, o):
        if bool(self == 0):
            raise ZeroDivisionError('float division by zero')
        return SymR(rterm(o) / self.t)

    def __neg__(self):
        return SymR(-self.t)

    def __abs__(self):
        return SymR(z3.If(self.t >= 0, self.t, -self.t))


class DecF(SymF):
    """a double known to be c*m + err with |err| <= E (c, E exact rationals; m an integer with |m| < 2**31).

    Multiplication by an integer propagates the error bound of IEEE rounding (relative error 2**-53); integers below
    2**53 are exact."""
    __slots__ = ('m', 'c', 'E')
    M = 2 ** 31 - 1

    def __init__(self, m, c, E):
        self.m, self.c, self.E = m, c, E
        t = z3.ToReal(m) * z3.RealVal(str(c))
        if E:
            CUR.x.n += 1
            err = z3.Real('err!%d' % CUR.x.n)
            CUR.x.assume_t(z3.And(err <= z3.RealVal(str(E)), err >= -z3.RealVal(str(E))))
            t = t + err
        self.t = t

    @classmethod
    def nearest(cls, m, c):
        """the double nearest to c*m"""
        if c.denominator == 1 and c * cls.M <= 2 ** 53:
            return cls(m, c, Fraction(0))
        return cls(m, c, abs(c) * cls.M / 2 ** 53)

    def __mul__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o > 0:
            c, E = self.c * o, self.E * o
            if not E and c.denominator == 1 and c * self.M <= 2 ** 53:
                return DecF(self.m, c, E)
            return DecF(self.m, c, E + (abs(c) * self.M + E) / 2 ** 53)
        if isinstance(o, float) and o.is_integer():
            return self * int(o)
        raise Unsupported('product of a rate and %r' % (o,))

    __rmul__ = __mul__

    def __neg__(self):
        return DecNeg(self)

    def trunc(self):
        n = CUR.x.fresh_int('trunc')
        r = z3.ToReal(n)
        CUR.x.assume_t(z3.And(z3.Implies(self.t >= 0, z3.And(r <= self.t, self.t < r + 1)),
                              z3.Implies(self.t <= 0, z3.And(r >= self.t, self.t > r - 1))))
        return SymZ(n)

    def _bin(self, o, f):
        raise Unsupported('arithmetic on a rate')


def DecNeg(v):
    raise Unsupported('negated rate')


class ExactF(SymF):
    """the double equal to an integer of at most 53 bits"""
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i
        self.t = rterm(i)

    def trunc(self):
        return self.i

    def is_integer(self):
        return True


class Chunk:
    """an encoded integer kept whole (unbounded symbolic value in a field of fixed width)"""

    def __init__(self, v, w, signed, order):
        self.v, self.w, self.signed, self.order = v, w, signed, order


class Opaque:
    """a byte string of symbolic length n"""

    def __init__(self, t, n):
        self.t, self.n = t, n


def pack_int(v, w, signed, order, exc=_struct.error):
    """list of byte items encoding integer v"""
    if isinstance(v, SymBool):
        v = 1 if v else 0
    lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
    if isinstance(v, bool):
        v = int(v)
    if not isint(v):
        raise exc('required argument is not an integer')
    if not lor(v < lo, v > hi) if not isinstance(v, int) else lo <= v <= hi:
        if isinstance(v, SymZ):
            return [Chunk(v, w, signed, order if w > 1 else 'little')] if w > 1 else [Chunk(v, 1, signed, 'little')]
        b = ibv(v)
        b = z3.SignExt(8 * w - b.size(), b) if b.size() < 8 * w else z3.Extract(8 * w - 1, 0, b)
        items = [z3.simplify(z3.Extract(8 * i + 7, 8 * i, b)) for i in range(w)]
        return items if order == 'little' else items[::-1]
    raise exc('integer out of range')


def unpack_int(items, signed, order):
    w = len(items)
    if any(isinstance(i, Opaque) for i in items):
        raise Unsupported('integer from an opaque byte string')
    bs = items if order == 'big' else items[::-1]
    b = z3.Concat(*bs) if w > 1 else bs[0]
    return mkint(b) if signed else nn(b)


def items_of(v):
    if isinstance(v, SymBuf):
        return list(v.items)
    if isinstance(v, (bytes, bytearray)):
        return [_val(b) for b in v]
    raise TypeError('a bytes-like object is required, not %r' % type(v).__name__)


def differ(a, b):
    """provably different lengths on this run"""
    if isinstance(a, int) and isinstance(b, int):
        return a != b
    x = CUR.x
    c = bterm(a != b)
    return not x.ex.sat(x.pc + [z3.Not(c)])


def mkbytes(items, kind=bytes):
    return SymBuf(items, kind)


class SymBuf(Sym):
    """bytes / bytearray of 8-bit terms (or whole chunks)"""
    __slots__ = ('items', 'kind')

    def __init__(self, items, kind=bytes):
        self.items = list(items)
        self.kind = kind

    def __repr__(self):
        return 'SymBuf%d' % len(self.items)

    def __copy__(self, memo=None):
        return SymBuf(self.items, self.kind)
    __deepcopy__ = __copy__

    def plain(self):
        if any(isinstance(i, (Chunk, Opaque)) for i in self.items):
            raise Unsupported('byte access to a whole chunk')
        return self.items

    def __len__(self):
        return len(self.plain())

    def symlen(self):
        n, sym = 0, None
        for i in self.items:
            if isinstance(i, Chunk):
                n += i.w
            elif isinstance(i, Opaque):
                sym = i.n if sym is None else sym + i.n
            else:
                n += 1
        return n if sym is None else mkz(sym + n)

    def __iter__(self):
        return iter([nn(b) for b in self.plain()])

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is None and i.stop is None and isinstance(i.start, int) and i.start < 0:
                tail = self.items[i.start:]
                if len(tail) == -i.start and not any(isinstance(t, (Chunk, Opaque)) for t in tail):
                    return SymBuf(tail, self.kind)
            if i.step == -1 and i.start is None and i.stop is None and len(self.items) == 1 and isinstance(self.items[0], Opaque):
                o = self.items[0]
                return SymBuf([Opaque(z3.Function('reversed', BYT, BYT)(o.t), o.n)], self.kind)
            return SymBuf(self.plain()[i], self.kind)
        if isinstance(i, int) and -len(self.items) <= i < 0 and not any(isinstance(t, (Chunk, Opaque)) for t in self.items[i:]):
            return nn(self.items[i])
        return nn(self.plain()[i])

    def _mut(self):
        if self.kind is not bytearray:
            raise TypeError("'bytes' object does not support item assignment")

    def __setitem__(self, i, v):
        self._mut()
        if isinstance(i, slice):
            if isinstance(v, (list, tuple)):
                v = hook_bytearray(v)
            self.plain()[i] = items_of(v)
        else:
            self.plain()[i] = pack_int(v, 1, False, 'little', ValueError)[0]

    def __delitem__(self, i):
        self._mut()
        del self.plain()[i]

    def append(self, v):
        self._mut()
        self.items.append(pack_int(v, 1, False, 'little', ValueError)[0])

    def extend(self, v):
        self._mut()
        self.items.extend(items_of(v) if isinstance(v, (SymBuf, bytes, bytearray)) else hook_bytearray(v).items)

    def __eq__(self, o):
        if not isinstance(o, (SymBuf, bytes, bytearray)):
            return False
        a, b = self.items, items_of(o)
        if len(a) != len(b):
            if any(isinstance(i, (Chunk, Opaque)) for i in a + b):
                if differ(self.symlen(), hook_len(o)):
                    return False
                raise Unsupported('comparison of chunked byte strings')
            return False
        cs = []
        for x, y in zip(a, b):
            cx, cy = isinstance(x, (Chunk, Opaque)), isinstance(y, (Chunk, Opaque))
            if cx and cy and type(x) is type(y):
                if isinstance(x, Opaque):
                    cs.append(x.t == y.t)
                elif (x.w, x.signed, x.order) == (y.w, y.signed, y.order):
                    cs.append(bterm(x.v == y.v))
                else:
                    raise Unsupported('comparison of chunks')
            elif cx or cy:
                if differ(self.symlen(), hook_len(o)):
                    return False
                raise Unsupported('comparison of chunked byte strings')
            else:
                cs.append(x == y)
        return mkbool(z3.And(*cs))

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def _ord(self, o, strict, less):
        if not isinstance(o, (SymBuf, bytes, bytearray)):
            return NotImplemented
        a, b = self.plain(), items_of(o)
        if not less:
            a, b = b, a
        r = z3.BoolVal(len(a) < len(b) or (not strict and len(a) == len(b)))
        for x, y in reversed(list(zip(a, b))):
            r = z3.If(x == y, r, z3.ULT(x, y))
        return mkbool(r)

    def __lt__(self, o):
        return self._ord(o, True, True)

    def __le__(self, o):
        return self._ord(o, False, True)

    def __gt__(self, o):
        return self._ord(o, True, False)

    def __ge__(self, o):
        return self._ord(o, False, False)

    def __add__(self, o):
        if not isinstance(o, (SymBuf, bytes, bytearray)):
            return NotImplemented
        return SymBuf(self.items + items_of(o), self.kind)

    def __radd__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return NotImplemented
        return SymBuf(items_of(o) + self.items, type(o))

    def __iadd__(self, o):
        if self.kind is bytearray:
            self.items.extend(items_of(o))
            return self
        return self + o

    def __mul__(self, n):
        return SymBuf(self.items * n, self.kind)

    def __bool__(self):
        n = self.symlen()
        return n != 0 if isinstance(n, int) else bool(n != 0)

    def hex(self):
        return SymText(sum([hexchars(b) for b in self.plain()], []))

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def lstrip(self, chars=None):
        if chars != b'\x00':
            raise Unsupported('strip of %r' % (chars,))
        its = list(self.items)
        while its and not isinstance(its[0], Opaque):
            if isinstance(its[0], Chunk):
                raise Unsupported('strip of a chunk')
            if bool(mkbool(its[0] == 0)):
                its.pop(0)
            else:
                break
        # an opaque string has no leading or trailing zero bytes (assumption of the string domain)
        return SymBuf(its, self.kind)

    def rstrip(self, chars=None):
        if chars != b'\x00':
            raise Unsupported('strip of %r' % (chars,))
        its = list(self.items)
        while its and not isinstance(its[-1], Opaque):
            if isinstance(its[-1], Chunk):
                raise Unsupported('strip of a chunk')
            if bool(mkbool(its[-1] == 0)):
                its.pop()
            else:
                break
        return SymBuf(its, self.kind)

    def decode(self, encoding='utf-8', errors='strict'):
        if errors != 'strict':
            raise Unsupported('decode with errors=%s' % errors)
        if not self.items:
            return u''
        if len(self.items) == 1 and isinstance(self.items[0], Opaque):
            return StrVal.decoded(self.items[0], encoding)
        if all(z3.is_bv_value(i) for i in self.items):
            return bytes(i.as_long() for i in self.items).decode(encoding)
        raise Unsupported('decode of partly known bytes')

    def reverse(self):
        self._mut()
        self.plain().reverse()

    def __contains__(self, v):
        if isint(v):
            return bool(lor(*[nn(b) == v for b in self.plain()]))
        raise Unsupported('in')

    def __getattr__(self, n):
        if n in ('startswith', 'endswith'):
            def f(p):
                p = items_of(p)
                mine = self.plain()
                if len(p) > len(mine):
                    return False
                mine = mine[:len(p)] if n == 'startswith' else mine[len(mine) - len(p):]
                return SymBuf(mine) == SymBuf(p)
            return f
        if hasattr(bytearray, n):
            raise Unsupported('bytes.%s' % n)
        raise AttributeError("'%s' object has no attribute '%s'" % (self.kind.__name__, n))


STR = z3.DeclareSort('Text')
BYT = z3.DeclareSort('ByteString')
_enc = {}


def canon_enc(e):
    import codecs
    try:
        return codecs.lookup(e).name
    except LookupError:
        raise


def enc_dec(e):
    e = canon_enc(e)
    if e not in _enc:
        _enc[e] = (z3.Function('enc_' + e, STR, BYT), z3.Function('dec_' + e, BYT, STR))
    return _enc[e]


BLEN = z3.Function('bytelen', BYT, z3.IntSort())


class StrVal(Sym):
    """a non-empty text without leading or trailing NULs, of any length"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @staticmethod
    def decoded(op, encoding):
        e, d = enc_dec(encoding)
        return StrVal(d(op.t))

    def encode(self, encoding='utf-8', errors='strict'):
        if errors != 'strict':
            raise Unsupported('encode with errors=%s' % errors)
        e, d = enc_dec(encoding)
        b = e(self.t)
        CUR.x.assume_t(z3.And(d(b) == self.t, BLEN(b) >= 1))
        return SymBuf([Opaque(b, BLEN(b))], bytes)

    def __eq__(self, o):
        if isinstance(o, StrVal):
            return mkbool(self.t == o.t)
        if isinstance(o, (str, bytes)) and not o:
            return False
        if isinstance(o, str):
            return mkbool(self.t == z3.Const('literal ' + o, STR))
        return False

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def __bool__(self):
        return True

    def __len__(self):
        raise Unsupported('len of an arbitrary text')


class SymHexChar:
    __slots__ = ('n', 'upper')

    def __init__(self, n, upper=False):
        self.n = n              # 4-bit term
        self.upper = upper


def nib(n, upper=False):
    n = z3.simplify(n)
    if z3.is_bv_value(n):
        return ('%X' if upper else '%x') % n.as_long()
    return SymHexChar(n, upper)


def hexchars(b, upper=False):
    return [nib(z3.Extract(7, 4, b), upper), nib(z3.Extract(3, 0, b), upper)]


def chars_of(s):
    if isinstance(s, SymText):
        return list(s.cs)
    if isinstance(s, str):
        return list(s)
    raise TypeError('str expected, not %s' % type(s).__name__)


def char_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str):
        a, b = b, a
    if isinstance(b, str):
        digits = '0123456789ABCDEF' if a.upper else '0123456789abcdef'
        if b not in digits:
            return False
        return mkbool(a.n == digits.index(b))
    if a.upper == b.upper:
        return mkbool(a.n == b.n)
    return mkbool(z3.And(a.n == b.n, z3.ULT(a.n, 10)))


class SymText(Sym):
    """text of known length whose characters are literals or symbolic hex digits"""
    __slots__ = ('cs',)

    def __init__(self, cs):
        self.cs = list(cs)

    def __repr__(self):
        return 'SymText%r' % ''.join(c if isinstance(c, str) else '?' for c in self.cs)

    def __str__(self):
        raise Unsupported('str() outside rewritten code')

    def __len__(self):
        return len(self.cs)

    def __iter__(self):
        return iter([mktext([c]) for c in self.cs])

    def __getitem__(self, i):
        r = self.cs[i]
        return mktext(r if isinstance(i, slice) else [r])

    def __add__(self, o):
        return mktext(self.cs + chars_of(o))

    def __radd__(self, o):
        return mktext(chars_of(o) + self.cs)

    def __eq__(self, o):
        if not isinstance(o, (str, SymText)):
            return False
        o = chars_of(o)
        if len(o) != len(self.cs):
            return False
        return land(*[char_eq(a, b) for a, b in zip(self.cs, o)])

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def find(self, sub, start=0):
        sub = chars_of(sub)
        for i in range(start, len(self.cs) - len(sub) + 1):
            if bool(land(*[char_eq(a, b) for a, b in zip(self.cs[i:], sub)])):
                return i
        return -1

    def lower(self):
        return mktext([c.lower() if isinstance(c, str) else SymHexChar(c.n) for c in self.cs])

    def upper(self):
        return mktext([c.upper() if isinstance(c, str) else SymHexChar(c.n, True) for c in self.cs])

    def strip(self, chars=None):
        if chars is None:
            cs = list(self.cs)
            while cs and isinstance(cs[0], str) and cs[0].isspace():
                cs.pop(0)
            while cs and isinstance(cs[-1], str) and cs[-1].isspace():
                cs.pop()
            return mktext(cs)
        raise Unsupported('strip(chars)')

    def replace(self, old, new, count=-1):
        if not old or count != -1:
            raise Unsupported('replace')
        out, i = [], 0
        old, new = chars_of(old), chars_of(new)
        while i < len(self.cs):
            if i + len(old) <= len(self.cs) and bool(land(*[char_eq(a, b) for a, b in zip(self.cs[i:], old)])):
                out += new
                i += len(old)
            else:
                out.append(self.cs[i])
                i += 1
        return mktext(out)

    def startswith(self, p):
        p = chars_of(p)
        return len(p) <= len(self.cs) and land(*[char_eq(a, b) for a, b in zip(self.cs, p)])

    def endswith(self, p):
        p = chars_of(p)
        return len(p) <= len(self.cs) and land(*[char_eq(a, b) for a, b in zip(self.cs[len(self.cs) - len(p):], p)])

    def split(self, sep=None):
        if not isinstance(sep, str) or len(sep) != 1:
            raise Unsupported('split')
        out, cur = [], []
        for c in self.cs:
            if bool(char_eq(c, sep)):
                out.append(mktext(cur))
                cur = []
            else:
                cur.append(c)
        return out + [mktext(cur)]

    def join(self, xs):
        out = []
        for i, x in enumerate(xs):
            if i:
                out += self.cs
            out += chars_of(x)
        return mktext(out)

    def toint(self, base):
        if base != 16:
            raise Unsupported('int(text, %r)' % (base,))
        cs = self.cs
        bits = []
        for c in cs:
            if isinstance(c, str):
                if c not in '0123456789abcdefABCDEF':
                    raise ValueError('invalid literal for int() with base 16')
                bits.append(z3.BitVecVal(int(c, 16), 4))
            else:
                bits.append(c.n)
        if not bits:
            raise ValueError('invalid literal for int() with base 16')
        return nn(z3.Concat(*bits) if len(bits) > 1 else bits[0])

    def tobytes(self):
        if len(self.cs) % 2:
            raise ValueError('odd length')
        return SymBuf([pack_int(SymText(self.cs[i:i + 2]).toint(16), 1, False, 'little')[0] for i in range(0, len(self.cs), 2)])

    def __bool__(self):
        return bool(self.cs)

    def __getattr__(self, n):
        if hasattr(str, n):
            raise Unsupported('str.%s' % n)
        raise AttributeError(n)


def mktext(cs):
    if all(isinstance(c, str) for c in cs):
        return ''.join(cs)
    return SymText(cs)


def fmt_int(v, spec):
    """format(v, spec) for %x style specs"""
    import re
    m = re.match(r'^(0?)(\d*)([xX])$', spec)
    if not m or not isinstance(v, SymInt):
        raise Unsupported('format %r of %r' % (spec, v))
    width = int(m.group(2) or 0)
    if not width or not m.group(1):
        raise Unsupported('format %r' % spec)
    if bool(lor(v < 0, v >= 16 ** width)):
        raise Unsupported('value wider than its format')
    b = ibv(v)
    b = z3.SignExt(4 * width - b.size(), b) if b.size() < 4 * width else z3.Extract(4 * width - 1, 0, b)
    return [nib(z3.Extract(4 * i + 3, 4 * i, b), m.group(3) == 'X') for i in reversed(range(width))]


def hook_mod(a, b):
    if not isinstance(a, (str, bytes)):
        return a % b
    args = b if isinstance(b, tuple) else (b,)
    if not any(isinstance(x, Sym) for x in args) and not isinstance(b, Sym):
        return a % b
    if isinstance(a, bytes):
        raise Unsupported('bytes formatting')
    import re
    out, pos, k = [], 0, 0
    for m in re.finditer(r'%(?:%|([-#0 +]*)(\d*)(?:\.\d+)?([a-zA-Z]))', a):
        out += list(a[pos:m.start()])
        pos = m.end()
        if m.group(0) == '%%':
            out.append('%')
            continue
        v = args[k]
        k += 1
        if isinstance(v, Sym):
            if m.group(3) in 'xX':
                out += fmt_int(v, m.group(1) + m.group(2) + m.group(3))
            elif m.group(3) == 's' and isinstance(v, SymText):
                out += v.cs
            else:
                # only used for messages
                out += list('?')
                CUR.x.lossy = True
        else:
            out += list(m.group(0) % v)
    out += list(a[pos:])
    if k != len(args):
        raise TypeError('not all arguments converted during string formatting')
    return mktext(out)


def hook_format(v, spec):
    if isinstance(v, SymText) and not spec:
        return v
    if isinstance(v, Sym):
        return mktext(fmt_int(v, spec))
    return format(v, spec)


def hook_fstr(*parts):
    out = []
    for p in parts:
        out += chars_of(p)
    return mktext(out)


def hook_strformat(s, args, kw):
    import string
    out, auto = [], 0
    for lit, name, spec, conv in string.Formatter().parse(s):
        out += list(lit)
        if name is None:
            continue
        if conv:
            raise Unsupported('format conversion')
        if name == '':
            v = args[auto]
            auto += 1
        elif name.isdigit():
            v = args[int(name)]
        else:
            v = kw[name]
        out += chars_of(hook_format(v, spec))
    return mktext(out)


# ------------------------------------------------------------------------------------------------- builtins

class IntHook:
    def __call__(self, v=0, base=None):
        if base is not None:
            if isinstance(v, SymText):
                return v.toint(base)
            return int(v, base)
        if isinstance(v, ExactF):
            return v.i
        if isinstance(v, SymF):
            return v.trunc()
        if isinstance(v, (SymInt, SymZ)):
            return v
        if isinstance(v, SymBool):
            return 1 if v else 0
        if isinstance(v, SymText):
            raise Unsupported('int(text)')
        return int(v)

    @staticmethod
    def from_bytes(b, byteorder='big', signed=False):
        return unpack_int(items_of(hook_bytes(b)), signed, byteorder)

    real = int


class _TypeHook:
    def __init__(self, real, f, **attrs):
        self.real, self.f = real, f
        self.__dict__.update(attrs)

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def __getattr__(self, n):
        return getattr(self.real, n)

    def __eq__(self, o):
        return o is self or o is self.real

    def __hash__(self):
        return hash(self.real)


def hook_bytearray(v=0, *a):
    return _mkbuf(v, a, bytearray)


def hook_bytes(v=b'', *a):
    return _mkbuf(v, a, bytes)


def _mkbuf(v, a, kind):
    if isinstance(v, SymBuf):
        return SymBuf(v.items, kind)
    if isinstance(v, StrVal):
        return v.encode(*a)
    if isinstance(v, (SymInt, SymZ)):
        raise Unsupported('buffer of symbolic size')
    if isinstance(v, (bytes, bytearray, int, str)):
        c = kind(v, *a)
        # a mutable buffer may later hold symbolic bytes
        return SymBuf([_val(b) for b in c], bytearray) if kind is bytearray else c
    out = []
    for x in v:
        out.append(pack_int(x, 1, False, 'little', ValueError)[0])
    if kind is bytes and all(z3.is_bv_value(o) for o in out):
        return bytes(o.as_long() for o in out)
    return SymBuf(out, kind)


def hook_str(v='', *a):
    if a:
        if isinstance(v, SymBuf):
            return v.decode(*a)
        return str(v, *a)
    if isinstance(v, (SymText, StrVal)):
        return v
    if isinstance(v, Sym) and getattr(type(v), 'pyvc_text', False):
        return v
    if isinstance(v, Sym):
        raise Unsupported('str of %s' % type(v).__name__)
    if type(v).__str__ is object.__str__ and isinstance(type(v).__dict__.get('__repr__'), types.FunctionType):
        return type(v).__repr__(v)
    if isinstance(type(v).__dict__.get('__str__'), types.FunctionType):
        return type(v).__str__(v)
    return str(v)


_KINDS = {SymInt: int, SymZ: int, SymF: float, SymR: float, SymBool: bool, StrVal: str, SymText: str}


def hook_isinstance(v, cls):
    cs = cls if isinstance(cls, tuple) else (cls,)
    for c in cs:
        r = getattr(c, 'real', c) if isinstance(c, (_TypeHook, IntHook)) else c
        if isinstance(r, tuple):
            if hook_isinstance(v, r):
                return True
            continue
        k = v.kind if isinstance(v, SymBuf) else _KINDS.get(type(v))
        if k is None and isinstance(v, SymZ):
            k = int
        if k is not None:
            if issubclass(k, r):
                return True
        elif isinstance(v, SymUUID) and r is _uuid.UUID or isinstance(v, SymTime) and r is _datetime.datetime:
            return True
        elif r is str and getattr(type(v), 'pyvc_text', False):
            return True
        elif isinstance(v, r):
            return True
    return False


def hook_type(v, *a):
    if a:
        return type(v, *a)
    if isinstance(v, SymBuf):
        return v.kind
    return _KINDS.get(type(v), type(v))


def hook_len(v):
    if isinstance(v, SymBuf):
        return v.symlen()
    if isinstance(v, SymSeq):
        return v.n
    f = getattr(type(v), 'pyvc_len', None)
    if f is not None:
        return f(v)
    return len(v)


def hook_sum(xs, start=0):
    for x in xs:
        start = start + x
    return start


class HashTerm(Sym):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def hook_hash(v):
    if isinstance(v, tuple):
        return HashTerm([hook_hash(x) for x in v])
    if isinstance(v, SymBuf):
        if v.kind is bytearray:
            raise TypeError("unhashable type: 'bytearray'")
        return HashTerm(v)
    if isinstance(v, Sym):
        return HashTerm(v)
    return hash(v)


def same_hash_input(a, b):
    """SymBool / bool: the hashed values are equal (so the hashes are)"""
    if isinstance(a, HashTerm) and isinstance(b, HashTerm):
        if isinstance(a.v, list) or isinstance(b.v, list):
            if not (isinstance(a.v, list) and isinstance(b.v, list)) or len(a.v) != len(b.v):
                return False
            return land(*[same_hash_input(x, y) for x, y in zip(a.v, b.v)])
        return a.v == b.v
    if isinstance(a, HashTerm) or isinstance(b, HashTerm):
        return False
    return a == b


def hook_round(v, *a):
    return v.__round__(*a) if isinstance(v, SymF) else (v if isinstance(v, (SymInt, SymZ)) and not a else round(v, *a))


def hook_pow(a, b, *m):
    if isinstance(a, Sym) or isinstance(b, Sym):
        raise Unsupported('symbolic power')
    return pow(a, b, *m)


def hook_float(v=0.0):
    if isinstance(v, Sym):
        return flt(v)
    return float(v)


def hook_hexlify(v):
    return SymBuf(v).hex() if isinstance(v, SymBuf) else __import__('binascii').hexlify(v)


def hook_hasattr(o, n):
    try:
        getattr(o, n)
        return True
    except AttributeError:
        return False


def hook_min(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k:
        raise Unsupported('min with key')
    r = xs[0]
    for x in xs[1:]:
        if x < r:
            r = x
    return r


def hook_max(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k:
        raise Unsupported('max with key')
    r = xs[0]
    for x in xs[1:]:
        if x > r:
            r = x
    return r


def hook_all(xs):
    for x in xs:
        if not x:
            return False
    return True


# ---- struct

def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode('ascii')
    order, native = 'little', True
    if fmt[:1] in '<>!=@':
        native = fmt[0] == '@'
        order = 'big' if fmt[0] in '>!' else 'little'
        fmt = fmt[1:]
    out, i = [], 0
    sizes = dict(b=1, B=1, h=2, H=2, i=4, I=4, l=4, L=4, q=8, Q=8, d=8, x=1)
    if native:
        sizes['l'] = sizes['L'] = 8
    pos = 0
    while i < len(fmt):
        j = i
        while fmt[j].isdigit():
            j += 1
        n = int(fmt[i:j]) if j > i else 1
        c = fmt[j]
        i = j + 1
        if c.isspace():
            continue
        if c == 's':
            out.append(('s', n, order))
            pos += n
            continue
        if c == '?' or c not in sizes:
            raise Unsupported('struct format %r' % fmt)
        for _ in range(n):
            w = sizes[c]
            if native and pos % w:
                out.append(('x', w - pos % w, order))
                pos += w - pos % w
            out.append((c, w, order))
            pos += w
    return out, pos


class Dbl:
    """eight bytes of a double kept whole"""


DBL_TO = z3.Function('double_bits', z3.DeclareSort('Double'), z3.BitVecSort(64))
DBL_FROM = z3.Function('double_of_bits', z3.BitVecSort(64), DBL_TO.domain(0))


class DblVal(Sym):
    """an arbitrary double, opaque"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return mkbool(self.t == o.t) if isinstance(o, DblVal) else False

    def __ne__(self, o):
        return lnot(self == o)


_KINDS[DblVal] = float


def s_pack(fmt, *args):
    spec, size = parse_fmt(fmt)
    out, k = [], 0
    need = sum(1 for c, w, o in spec if c != 'x')
    if need != len(args):
        raise _struct.error('pack expected %d items for packing (got %d)' % (need, len(args)))
    for c, w, order in spec:
        if c == 'x':
            out += [_val(0)] * w
            continue
        v = args[k]
        k += 1
        if c == 's':
            its = items_of(v)[:w]
            out += its + [_val(0)] * (w - len(its))
        elif c == 'd':
            if isinstance(v, DblVal):
                b = DBL_TO(v.t)
                CUR.x.assume_t(DBL_FROM(b) == v.t)
                its = [z3.simplify(z3.Extract(8 * i + 7, 8 * i, b)) for i in range(8)]
                out += its if order == 'little' else its[::-1]
            elif isinstance(v, Sym):
                raise Unsupported('double of %r' % (v,))
            else:
                out += [_val(b) for b in _struct.pack(('<' if order == 'little' else '>') + 'd', v)]
        else:
            out += pack_int(v, w, c.islower(), order)
    return SymBuf(out, bytes)


def s_unpack(fmt, data):
    spec, size = parse_fmt(fmt)
    items = items_of(data)
    its = []
    if len(items) == 1 and isinstance(items[0], Chunk) and len(spec) == 1 and spec[0][0] not in 'sxd':
        c, w, order = spec[0]
        ch = items[0]
        if ch.w != w:
            raise _struct.error('unpack requires a buffer of %d bytes' % w)
        if (ch.signed, ch.order) == (c.islower(), order if w > 1 else 'little'):
            return (ch.v,)
        raise Unsupported('reinterpreted chunk')
    if any(isinstance(i, (Chunk, Opaque)) for i in items):
        if differ(SymBuf(items).symlen(), size):
            raise _struct.error('unpack requires a buffer of %d bytes' % size)
        raise Unsupported('unpack of chunks')
    if len(items) != size:
        raise _struct.error('unpack requires a buffer of %d bytes' % size)
    out, p = [], 0
    for c, w, order in spec:
        its = items[p:p + w]
        p += w
        if c == 'x':
            continue
        if c == 's':
            out.append(SymBuf(its, bytes))
        elif c == 'd':
            bs = its[::-1] if order == 'little' else its
            b = z3.simplify(z3.Concat(*bs))
            t = DBL_FROM(b)
            CUR.x.assume_t(DBL_TO(t) == b)
            out.append(DblVal(t))
        else:
            out.append(unpack_int(its, c.islower(), order))
    return tuple(out)


def s_pack_into(fmt, buf, off, *args):
    try:
        d = s_pack(fmt, *args).items
    except _struct.error:
        # the real one may already have overwritten the region
        n = parse_fmt(fmt)[1]
        CUR.x.n += 1
        buf.plain()[off:off + n] = [z3.BitVec('clobbered%d[%d]' % (CUR.x.n, i), 8) for i in range(n)]
        raise
    if off < 0 or off + len(d) > len(buf):
        raise _struct.error('pack_into requires a buffer of at least %d bytes' % (off + len(d)))
    buf.plain()[off:off + len(d)] = d


def s_unpack_from(fmt, buf, offset=0):
    spec, size = parse_fmt(fmt)
    its = items_of(buf)[offset:offset + size]
    return s_unpack(fmt, SymBuf(its))


class SymStruct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = parse_fmt(fmt)[1]

    def pack(self, *a):
        return s_pack(self.format, *a)

    def unpack(self, d):
        return s_unpack(self.format, d)

    def pack_into(self, b, o, *a):
        return s_pack_into(self.format, b, o, *a)

    def unpack_from(self, b, offset=0):
        return s_unpack_from(self.format, b, offset)


def mod_struct():
    m = types.ModuleType('struct')
    m.pack, m.unpack, m.pack_into, m.unpack_from, m.Struct = s_pack, s_unpack, s_pack_into, s_unpack_from, SymStruct
    m.calcsize = lambda f: parse_fmt(f)[1]
    m.error = _struct.error
    return m


# ---- uuid

class SymUUID(Sym):
    """uuid.UUID over 16 byte terms (library contract: the documented field layout)"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = list(b)

    def __eq__(self, o):
        if isinstance(o, SymUUID):
            return SymBuf(self.b) == SymBuf(o.b)
        if isinstance(o, _uuid.UUID):
            return SymBuf(self.b) == o.bytes
        return False

    def __ne__(self, o):
        return lnot(self == o)

    bytes = property(lambda s: SymBuf(s.b, bytes))
    bytes_le = property(lambda s: SymBuf(s.b[3::-1] + s.b[5:3:-1] + s.b[7:5:-1] + s.b[8:], bytes))
    time_low = property(lambda s: unpack_int(s.b[0:4], False, 'big'))
    time_mid = property(lambda s: unpack_int(s.b[4:6], False, 'big'))
    time_hi_version = property(lambda s: unpack_int(s.b[6:8], False, 'big'))
    int = property(lambda s: unpack_int(s.b, False, 'big'))
    hex = property(lambda s: SymBuf(s.b).hex())
    clock_seq_hi_variant = property(lambda s: nn(s.b[8]))
    clock_seq_low = property(lambda s: nn(s.b[9]))
    node = property(lambda s: unpack_int(s.b[10:], False, 'big'))
    fields = property(lambda s: (s.time_low, s.time_mid, s.time_hi_version, s.clock_seq_hi_variant, s.clock_seq_low, s.node))


def hook_uuid(hex=None, bytes=None, bytes_le=None, fields=None, int=None, version=None):
    n = sum(x is not None for x in (hex, bytes, bytes_le, fields, int))
    if n != 1 or version is not None:
        if n == 1:
            raise Unsupported('UUID version')
        raise TypeError('one of the hex, bytes, bytes_le, fields, or int arguments must be given')
    if hex is not None:
        if isinstance(hex, SymText):
            return SymUUID(hex.replace('-', '').tobytes().items)
        return _uuid.UUID(hex)
    if bytes is not None:
        i = items_of(bytes)
        if len(i) != 16:
            raise ValueError('bytes is not a 16-char string')
        return SymUUID(i)
    if bytes_le is not None:
        s = items_of(bytes_le)
        if len(s) != 16:
            raise ValueError('bytes_le is not a 16-char string')
        return SymUUID(s[3::-1] + s[5:3:-1] + s[7:5:-1] + s[8:])
    if int is not None:
        return SymUUID(pack_int(int, 16, False, 'big', ValueError))
    raise Unsupported('UUID from fields')


def hook_uuid4():
    """uuid4: any UUID (its version bits are not relied on)"""
    return SymUUID(CUR.x.raw_bytes('uuid4', 16))


def mod_uuid():
    m = types.ModuleType('uuid')
    m.UUID = _TypeHook(_uuid.UUID, hook_uuid)
    m.uuid4 = hook_uuid4
    return m


# ---- datetime

class SymTime(Sym):
    """a naive datetime denoting the instant ts (whole seconds) plus micro microseconds, in local time.

    Library contract used: datetime.fromtimestamp(n).timestamp() == n for whole seconds; replace(microsecond=0) only
    drops the microseconds."""
    __slots__ = ('ts', 'micro')

    def __init__(self, ts, micro=0):
        self.ts, self.micro = ts, micro

    def replace(self, **kw):
        if set(kw) == {'microsecond'} and kw['microsecond'] == 0:
            return SymTime(self.ts, 0)
        raise Unsupported('datetime.replace')

    def timestamp(self):
        if isinstance(self.micro, int) and self.micro == 0:
            if isinstance(self.ts, SymInt) and self.ts.t.size() <= 53 or bool(land(self.ts >= -2 ** 53, self.ts <= 2 ** 53)):
                return ExactF(self.ts)
        raise Unsupported('timestamp with microseconds')

    def seconds(self):
        return self.ts

    def __eq__(self, o):
        return land(self.ts == o.ts, self.micro == o.micro) if isinstance(o, SymTime) else False

    def __ne__(self, o):
        return lnot(self == o)

    def __getattr__(self, n):
        if hasattr(_datetime.datetime, n):
            raise Unsupported('datetime.%s' % n)
        raise AttributeError(n)


def hook_fromtimestamp(v, tz=None):
    if tz is not None:
        raise Unsupported('time zone')
    return SymTime(v)


class _DtHook(_TypeHook):
    pass


def mod_datetime():
    m = types.ModuleType('datetime')
    m.datetime = _TypeHook(_datetime.datetime, _datetime.datetime, fromtimestamp=hook_fromtimestamp)
    return m


# ------------------------------------------------------------------------------------------------- stream

class Stream:
    """binary stream over byte items"""

    def __init__(self, items=()):
        self.items = list(items)
        self.pos = 0

    def write(self, data):
        its = items_of(data)
        if self.pos != len(self.items):
            if any(isinstance(i, (Chunk, Opaque)) for i in its + self.items):
                raise Unsupported('overwriting chunks')
            self.items[self.pos:self.pos + len(its)] = its
        else:
            self.items += its
        self.pos += len(its)

    def read(self, n=-1):
        rest = self.items[self.pos:]
        if n is None or isinstance(n, int) and n < 0:
            self.pos = len(self.items)
            return SymBuf(rest, bytes)
        out = []
        left = n
        while rest:
            if isinstance(left, int) and left <= 0:
                break
            i = rest[0]
            w = i.w if isinstance(i, Chunk) else (SymZ(i.n) if isinstance(i, Opaque) else 1)
            if bool(left < w):
                if isinstance(i, (Chunk, Opaque)):
                    if bool(left <= 0):
                        break
                    raise Unsupported('partial read of a chunk')
                break
            out.append(i)
            rest.pop(0)
            self.pos += 1
            left = left - w
        return SymBuf(out, bytes)

    def tell(self):
        if any(isinstance(i, (Chunk, Opaque)) for i in self.items[:self.pos]):
            raise Unsupported('tell')
        return self.pos

    def seek(self, off, whence=0):
        if whence == 1:
            off += self.pos
        elif whence == 2:
            off += len(self.items)
        if any(isinstance(i, (Chunk, Opaque)) for i in self.items[:max(self.pos, off)]):
            raise Unsupported('seek')
        self.pos = off
        return off

    def rest(self):
        return SymBuf(self.items[self.pos:], bytes)

    def getvalue(self):
        return SymBuf(self.items, bytes)


def mod_io():
    import io
    m = types.ModuleType('io')
    m.__dict__.update(io.__dict__)
    m.BytesIO = lambda d=b'': Stream(items_of(d))
    return m


# ------------------------------------------------------------------------------------------------- rewriting

STRM = {'join', 'format', 'get'}


class Rewriter(ast.NodeTransformer):
    """routes the operations a C-level builtin would refuse on symbolic operands through hooks; nothing is dropped"""

    def call(self, name, *args):
        return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(self.call('pyvc_mod', n.left, n.right), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ''
                if v.format_spec is not None:
                    if not all(isinstance(x, ast.Constant) for x in v.format_spec.values):
                        return n
                    spec = ''.join(x.value for x in v.format_spec.values)
                if v.conversion not in (-1, None, 115):
                    return n
                parts.append(self.call('pyvc_fmt', self.visit(v.value), ast.Constant(spec)))
        return ast.copy_location(self.call('pyvc_fstr', *parts), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in STRM:
            return ast.copy_location(ast.Call(func=ast.Name(id='pyvc_meth', ctx=ast.Load()),
                                              args=[n.func.value, ast.Constant(n.func.attr)] + n.args, keywords=n.keywords), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = self.call('pyvc_in', n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.NotIn):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            if isinstance(n.comparators[0], ast.Constant) or isinstance(n.left, ast.Constant):
                return n
            c = self.call('pyvc_is', n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.IsNot):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, n)
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators[0]
        if len(n.generators) > 1 or g.ifs or g.is_async or not isinstance(g.target, ast.Name) or any(
                isinstance(b, (ast.NamedExpr, ast.Yield, ast.Await)) for b in ast.walk(n)):
            return n
        fn = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                        body=n.elt)
        return ast.copy_location(self.call('pyvc_comp', fn, g.iter), n)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice):
            return ast.copy_location(self.call('pyvc_item', n.value, n.slice), n)
        return n

    # loops: cut at their invariant where one is registered (LOOPS), executed turn by turn otherwise

    def __init__(self):
        self.scope = []
        self.count = []
        self.locals = []
        self.params = []
        self.uid = 0

    def visit_ClassDef(self, n):
        self.scope.append(n.name)
        self.generic_visit(n)
        self.scope.pop()
        return n

    def visit_FunctionDef(self, n):
        self.scope.append(n.name)
        self.count.append(0)
        self.locals.append(set(self.stored(n.body)))
        self.params.append({a.arg for a in n.args.args + n.args.kwonlyargs})
        shared = {v for b in ast.walk(n) if isinstance(b, (ast.Global, ast.Nonlocal)) for v in b.names}
        self.locals[-1] -= shared
        self.generic_visit(n)
        self.params.pop()
        self.locals.pop()
        self.count.pop()
        self.scope.pop()
        return n

    def stored(self, body):
        names = []
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id not in names:
                    names.append(x.id)
        return names

    def loop_id(self):
        if not self.count:
            return None
        i = self.count[-1]
        self.count[-1] += 1
        return '%s#%d' % ('.'.join(self.scope), i)

    def parse(self, src):
        return ast.parse(src).body

    def visit_For(self, n):
        lid = self.loop_id()
        self.generic_visit(n)
        if lid is None:
            return n
        return self.cut(n, lid, True)

    def visit_While(self, n):
        lid = self.loop_id()
        self.generic_visit(n)
        if lid is None:
            return n
        return self.cut(n, lid, False)

    def cut(self, n, lid, is_for):
        import copy
        self.uid += 1
        L, IT = '__L%d' % self.uid, '__it%d' % self.uid
        names = self.stored(n.body + ([ast.Expr(n.target)] if is_for else []))
        names = [x for x in names if not x.startswith('__')]
        stored = list(names)
        for b in n.body + ([] if is_for else [ast.Expr(n.test)]):
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id in self.locals[-1] and x.id not in names and x.id not in self.params[-1]:
                    names.append(x.id)
        if is_for:
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name) and x.id not in names:
                    names.append(x.id)
        out = []
        if is_for:
            out.append(ast.Assign(targets=[ast.Name(id=IT, ctx=ast.Store())], value=n.iter))
        pre = self.parse('%s = pyvc_loop(%r, %s, locals(), %r, %r)' % (L, lid, IT if is_for else 'None', tuple(names), tuple(stored)))
        out += pre
        havoc = self.parse('%s = %s.havoc()' % (', '.join(names) + ',', L)) if names else self.parse('%s.havoc()' % L)
        step = self.parse('%s.step(locals())' % L)
        body = copy.deepcopy(n.body)
        if is_for:
            body = [ast.Assign(targets=[copy.deepcopy(n.target)], value=self.parse('%s.elem()' % L)[0].value)] + body
            for x in ast.walk(body[0].targets[0]):
                if hasattr(x, 'ctx'):
                    x.ctx = ast.Store()
            test = self.parse('%s.more()' % L)[0].value
        else:
            test = copy.deepcopy(n.test)
        once = ast.For(target=ast.Name(id='__once%d' % self.uid, ctx=ast.Store()), iter=self.parse('(1,)')[0].value, body=body, orelse=step)
        cutif = ast.If(test=test, body=[once], orelse=copy.deepcopy(n.orelse) or [ast.Pass()])
        orig = n
        if is_for:
            orig.iter = ast.Name(id=IT, ctx=ast.Load())
        out.append(ast.If(test=ast.Compare(left=ast.Name(id=L, ctx=ast.Load()), ops=[ast.IsNot()], comparators=[ast.Constant(None)]),
                          body=havoc + [cutif], orelse=[orig]))
        for o in out:
            ast.copy_location(o, n)
        return out


def find_key(d, key):
    for k in d:
        if bool(key == k):
            return k
    return None


def hook_in(a, b):
    if isinstance(a, Sym) and isinstance(b, (dict, set, frozenset)):
        return find_key(b, a) is not None
    return a in b


def hook_is(a, b):
    """identity; ghost objects standing for one and the same object say so themselves"""
    f = getattr(type(a), 'pyvc_same', None)
    return a is b if f is None else bool(f(a, b))


def hook_item(o, i):
    if isinstance(i, Sym) and isinstance(o, dict):
        k = find_key(o, i)
        if k is None:
            raise KeyError('symbolic key')
        return o[k]
    if isinstance(i, Sym) and isinstance(o, (list, tuple, str, bytes)):
        n = len(o)
        for k in range(-n, n):
            if bool(i == k):
                return o[k]
        raise IndexError('index out of range')
    return o[i]


def hook_meth(o, name, *a, **k):
    if name == 'get':
        if isinstance(o, dict) and a and isinstance(a[0], Sym):
            key = find_key(o, a[0])
            return o[key] if key is not None else (a[1] if len(a) > 1 else None)
        return o.get(*a, **k)
    if isinstance(o, str) and name == 'join':
        xs = list(a[0])
        return SymText(list(o)).join(xs) if xs else ''
    if isinstance(o, bytes) and name == 'join':
        out = []
        for i, x in enumerate(a[0]):
            if i:
                out += items_of(o)
            out += items_of(x)
        return SymBuf(out, bytes)
    if isinstance(o, str) and name == 'format':
        return hook_strformat(o, a, k)
    return getattr(o, name)(*a, **k)


class LoopSpec:
    """invariant of one loop: vars {local name: maker(x) -> fresh value}, inv(x, env) -> [conditions], env holds the locals,
    k (turns done) and n (length, for loops over a sequence); variant(x, env) -> integer that decreases and stays >= 0"""

    def __init__(self, vars, inv, variant=None, heap=None, frame=()):
        self.vars, self.inv, self.variant, self.heap, self.frame = vars, inv, variant, heap, frame


class _Poison(Sym):
    def __getattr__(self, n):
        raise Unsupported('use of a local the loop invariant does not describe')

    def _u(self, *a):
        raise Unsupported('use of a local the loop invariant does not describe')

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __bool__ = __iter__ = __len__ = _u


_POISON = _Poison()


def hook_loop(lid, it, loc, names, stored=None):
    x = CUR.x
    spec = x.loops.get(lid) if x is not None else None
    if it is not None and hasattr(type(it), 'pyvc_iter'):
        it = it.pyvc_iter()
    if it is not None and not isinstance(it, SymSeq):
        if isinstance(it, Sym) and not isinstance(it, (SymBuf, SymText)):
            raise Unsupported('loop over %s' % type(it).__name__)
        return None
    if spec is None:
        if it is not None:
            raise Unsupported('no invariant for loop %s' % lid)
        return None
    return LoopRun(x, lid, spec, it, loc, names, stored)


class LoopRun:
    def __init__(self, x, lid, spec, it, loc, names, stored=None):
        self.x, self.lid, self.spec, self.it, self.names = x, lid, spec, it, names
        self.kept = [v for v in names if stored is not None and v not in stored]
        self.loc = dict(loc)
        missing = [v for v in spec.vars if v not in loc and v not in names]
        if missing:
            raise Unsupported('loop %s has no local %s' % (lid, ', '.join(missing)))
        self.phase = 'init'
        self.assert_inv(loc, 0, 'holds before the first turn')

    def env(self, loc, k):
        e = types.SimpleNamespace(**{v: loc[v] for v in loc if not v.startswith('__')})
        e.k = SymZ(k) if not isinstance(k, int) else k
        e.n = self.it.n if self.it is not None else None
        e.seq = self.it
        e.phase = self.phase
        return e

    def told(self, f, *a):
        """the invariant is about variables and fields the loop may no longer have"""
        try:
            return f(*a)
        except (AttributeError, KeyError, IndexError, TypeError) as e:
            raise Unsupported('the invariant does not fit loop %s: %s' % (self.lid, e))

    def assert_inv(self, loc, k, what):
        for v in self.spec.vars:
            if v not in loc:
                raise Unsupported('loop %s: local %s not set' % (self.lid, v))
        for i, c in enumerate(self.told(self.spec.inv, self.x, self.env(loc, k))):
            self.x.check(c, 'loop %s: invariant %d %s' % (self.lid, i, what))

    def havoc(self):
        x = self.x
        self.phase = 'assume'
        self.k = x.fresh_int('k') if self.it is not None else None
        self.vals = {v: mk(x) for v, mk in self.spec.vars.items()}
        if self.spec.heap:
            self.told(self.spec.heap, x, SymZ(self.k) if self.k is not None else None)
        x.turn = self
        loc = dict(self.loc)
        loc.update(self.vals)
        for v in self.names:
            if v not in self.spec.vars and v not in self.kept:
                loc.pop(v, None)
        if self.it is not None:
            x.assume_t(z3.And(self.k >= 0, self.k <= zt(self.it.n)))
        for c in self.told(self.spec.inv, x, self.env(loc, self.k if self.k is not None else 0)):
            x.assume_t(bterm(c))
        if not x.ex.sat(x.pc):
            raise Infeasible()
        x.ex.loops_met.add(self.lid)
        if self.spec.variant:
            self.v0 = self.told(self.spec.variant, x, self.env(loc, self.k if self.k is not None else 0))
        return tuple(self.vals[v] if v in self.vals else loc.get(v, _POISON) for v in self.names)

    def more(self):
        r = bool(SymZ(self.k) < self.it.n)
        if not r:
            self.x.ex.loops_left.add(self.lid)
        return r

    def elem(self):
        return self.it.at(SymZ(self.k))

    def step(self, loc):
        self.phase = 'step'
        if self.x.ex.sat(self.x.pc):
            self.x.ex.loops_turned.add(self.lid)
        self.assert_inv(loc, self.k + 1 if self.k is not None else 0, 'is kept by a turn')
        if self.spec.variant:
            v1 = self.told(self.spec.variant, self.x, self.env(loc, self.k + 1 if self.k is not None else 0))
            if isinstance(v1, tuple):
                dec, eq = False, True
                for a, b in zip(v1, self.v0):
                    dec = lor(dec, land(eq, a < b, b >= 0))
                    eq = land(eq, a == b)
                self.x.check(dec, 'loop %s terminates' % self.lid)
            else:
                self.x.check(land(v1 < self.v0, self.v0 >= 0), 'loop %s terminates' % self.lid)
        raise Infeasible()


def zt(v):
    return z3.IntVal(v) if isinstance(v, int) else SymZ.term(v) if isinstance(v, SymInt) else v.t


class SymSeq(Sym):
    """a list of symbolic length n; at(i) -> element i (0 <= i < n)"""
    __slots__ = ('n', 'f')

    def __init__(self, n, f):
        self.n, self.f = n, f

    def at(self, i):
        return self.f(i)

    def __bool__(self):
        return bool(self.n != 0)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('slice of a list of symbolic length')
        if not isint(i):
            raise TypeError('list indices must be integers')
        if bool(i < 0):
            i = self.n + i
        if bool(lor(i < 0, i >= self.n)):
            raise IndexError('list index out of range')
        return self.f(i)

    def __iter__(self):
        raise Unsupported('iteration over a list of symbolic length without invariant')

    def __len__(self):
        raise Unsupported('len of a list of symbolic length')

    def __copy__(self, memo=None):
        raise Unsupported('copy of a list of symbolic length')
    __deepcopy__ = __copy__

    def __getattr__(self, n):
        raise Unsupported('list.%s on a list of symbolic length' % n)


def hook_enumerate(it, start=0):
    if isinstance(it, SymSeq):
        return SymSeq(it.n, lambda i: (i + start, it.at(i)))
    return enumerate(it, start)


def hook_range(*a):
    if any(isinstance(v, Sym) for v in a):
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        if len(a) == 3 and a[2] != 1:
            raise Unsupported('range step')
        n = hi - lo
        if bool(n < 0):
            n = 0
        return SymSeq(n, lambda i: lo + i)
    return range(*a)


def hook_comp(f, it):
    return [f(v) for v in it]


class SymPackage:
    """the chosen modules of the avb package, loaded from source and rewritten; everything else is the real thing"""

    def __init__(self, src, names, extra_builtins=()):
        self.src = src
        self.names = set(names)
        self.mods = {}
        self.lib = {'struct': mod_struct(), 'uuid': mod_uuid(), 'datetime': mod_datetime(), 'io': mod_io()}
        b = dict(vars(builtins))
        b.update(int=IntHook(), bytearray=_TypeHook(bytearray, hook_bytearray), bytes=_TypeHook(
            bytes, hook_bytes, fromhex=lambda s: s.tobytes() if isinstance(s, SymText) else bytes.fromhex(s)),
            str=_TypeHook(str, hook_str), isinstance=hook_isinstance, len=hook_len, sum=hook_sum, hash=hook_hash,
            round=hook_round, pow=hook_pow, float=_TypeHook(float, hook_float), hasattr=hook_hasattr, min=hook_min,
            max=hook_max, all=hook_all, type=_TypeHook(type, hook_type), format=hook_format)
        b['__import__'] = self.imp
        b['pyvc_mod'] = hook_mod
        b['pyvc_loop'] = hook_loop
        b['enumerate'] = hook_enumerate
        b['range'] = _TypeHook(range, hook_range)
        b['pyvc_in'] = hook_in
        b['pyvc_is'] = hook_is
        b['pyvc_item'] = hook_item
        b['pyvc_fmt'] = hook_format
        b['pyvc_fstr'] = hook_fstr
        b['pyvc_meth'] = hook_meth
        b['pyvc_comp'] = hook_comp
        b.update(extra_builtins)
        self.builtins = b

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.src, name + '.py')
        tree = ast.parse(open(path).read(), path)
        for (mod, cls), node in getattr(self, 'replace', {}).items():
            if mod == name:
                k = [i for i, n in enumerate(tree.body) if isinstance(n, ast.ClassDef) and n.name == cls]
                if len(k) != 1:
                    raise Unsupported('class %s of %s' % (cls, name))
                tree.body[k[0]] = node
        tree = ast.fix_missing_locations(Rewriter().visit(tree))
        m = types.ModuleType('avb.' + name)
        m.__dict__.update(__builtins__=self.builtins, __package__='avb', __file__=path)
        self.mods[name] = m
        exec(compile(tree, path, 'exec'), m.__dict__)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 1:
            if not name:
                ns = types.SimpleNamespace()
                for f in fromlist:
                    setattr(ns, f, self.load(f) if f in self.names else __import__('avb.' + f, fromlist=['x']))
                return ns
            if name in self.names:
                return self.load(name)
            return __import__('avb.' + name, fromlist=['x'])
        if level == 0 and name in self.lib:
            return self.lib[name]
        return __import__(name, globals, locals, fromlist, level)


# ------------------------------------------------------------------------------------------------- exploration

class Goal(str):
    """the label of a stated goal (not a crash of the code or of the ghost objects)"""


class Failed(Exception):
    def __init__(self, label, model):
        Exception.__init__(self, label)
        self.label, self.model = label, model
        dying(self)


class SymX:
    """one symbolic run"""
    symbolic = True

    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.n = 0
        self.lossy = False
        self.inputs = {}
        self.loops = {}
        self.exact = False
        self.turn = None
        self.dead = None

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            can_t = self.ex.sat(self.pc + [t])
            can_f = self.ex.sat(self.pc + [z3.Not(t)])
            if not can_t and not can_f:
                raise Infeasible()
            v = can_t
            if can_t and can_f:
                self.ex.todo.append(self.trace + [False])
        self.trace.append(v)
        self.pc.append(t if v else z3.Not(t))
        return v

    def assume_t(self, t):
        self.pc.append(t)

    def assume(self, b):
        self.assume_t(bterm(b))
        if isinstance(b, bool) and not b:
            raise Infeasible()
        if not self.ex.sat(self.pc):
            raise Infeasible()

    def check(self, b, label):
        t = bterm(b)
        t = z3.simplify(t)
        self.ex.goals += 1
        if z3.is_true(t):
            return
        try:
            m = self.ex.model(self.pc + [z3.Not(t)])
        except Unsupported as ex:
            self.dead = None
            raise Unsupported('%s: %s' % (ex, label))
        if m is not None:
            raise Failed(label, m)

    def fail(self, label):
        self.ex.goals += 1
        m = self.ex.model(self.pc)
        if m is not None:
            raise Failed(label, m)
        raise Infeasible()

    # inputs
    def fresh_int(self, name):
        self.n += 1
        return z3.Int('%s!%d' % (name, self.n))

    def raw_bytes(self, name, n):
        return [z3.BitVec('%s[%d]' % (name, i), 8) for i in range(n)]

    def bits(self, name, w, signed=False):
        b = z3.BitVec(name, w)
        return mkint(b) if signed else nn(b)

    def integer(self, name, conc=None):
        return SymZ(z3.Int(name))

    def count(self, name, sym, conc):
        """a number of items: 0..sym on symbolic runs (a bounded obligation), 0..conc on random concrete runs"""
        return self.choose(name, list(range(sym + 1)))

    def seq(self, name, make):
        """a list of any length; make(i) -> its i-th item (the same item for the same i)"""
        n = z3.Int(name)
        self.assume_t(n >= 0)
        return SymSeq(SymZ(n), make)

    def real(self, name, conc=None):
        return SymR(z3.Real(name))

    def buf(self, name, n, kind=bytes):
        return SymBuf(self.raw_bytes(name, n), kind)

    def uuid(self, name):
        return SymUUID(self.raw_bytes(name, 16))

    def double(self, name):
        return DblVal(z3.Const(name, DBL_TO.domain(0)))

    def text(self, name):
        return StrVal(z3.Const(name, STR))

    def datetime(self, name):
        return SymTime(self.bits(name, 32), 0)

    def decimal(self, name, k):
        """the double nearest to m / 10**k for any 32-bit signed m"""
        m = self.integer(name)
        self.assume_t(z3.And(m.t >= -2 ** 31, m.t <= 2 ** 31 - 1))
        return m, rounded(z3.ToReal(m.t) / 10 ** k)

    def decimal_bounded(self, name, k):
        """the same double, known only by its error bound"""
        m = self.integer(name)
        self.assume_t(z3.And(m.t >= 1 - 2 ** 31, m.t <= 2 ** 31 - 1))
        return m, DecF.nearest(m.t, Fraction(1, 10 ** k))

    def boolean(self, name):
        return SymBool(z3.Bool(name))

    def stream(self, data=b''):
        return Stream(items_of(data))

    def choose(self, name, options):
        for o in options[:-1]:
            if self.branch(z3.Bool('%s=%s' % (name, o))):
                return o
        return options[-1]

    def cat(self, *parts):
        r = SymBuf([], bytes)
        for p in parts:
            r = r + p
        return r

    def enc_int(self, v, w, signed, order):
        return SymBuf(pack_int(v, w, signed, order), bytes)

    def dec_int(self, b, order, signed=False):
        return unpack_int(items_of(b), signed, order)

    def enc_double(self, v, order):
        return s_pack('<d' if order == 'little' else '>d', v)

    def enc_text(self, s, enc):
        return s.encode(enc) if isinstance(s, StrVal) else s.encode(enc)

    def take_int(self, data, w, signed):
        """(value, rest) of the big/little integer item at the front; data: list of items"""
        raise NotImplementedError

    def size(self, buf):
        return hook_len(buf)

    def kind(self, v):
        return hook_type(v)


class Explorer:
    def __init__(self, timeout_ms=20000):
        self.timeout = timeout_ms
        self.queries = 0
        self.goals = 0
        self.paths = 0
        self.time = 0.0
        self.todo = []
        self.cache = {}
        self.quant = False
        self.loops_met, self.loops_turned, self.loops_left, self.ends = set(), set(), set(), 0

    def solver(self, conds, limit=None):
        import time
        tries = [limit or self.timeout] if limit or not self.quant else [self.timeout // 5] * 5
        for seed, ms in enumerate(tries):
            s = z3.Solver()
            s.set('timeout', min(self.timeout, ms))
            if self.quant:
                s.set('smt.mbqi', False)
                s.set('smt.random_seed', seed)
            s.add(*conds)
            self.queries += 1
            t = time.time()
            r = s.check()
            self.time += time.time() - t
            if r != z3.unknown or 'incomplete' in s.reason_unknown():
                break
        return s, r

    def sat(self, conds):
        s, r = self.solver(conds, 300 if self.quant else None)
        if r == z3.unknown:
            if self.quant:
                return True       # explored although possibly infeasible
            raise Unsupported('solver: unknown')
        return r == z3.sat

    def model(self, conds):
        s, r = self.solver(conds)
        if r == z3.unknown:
            raise Unsupported('solver: unknown')
        return s.model() if r == z3.sat else None

    def run(self, prop, max_paths=4000):
        """-> ('discharged', None) | ('refuted', (label, model)) ; raises Unsupported"""
        self.todo = [[]]
        while self.todo:
            prefix = self.todo.pop()
            self.paths += 1
            if self.paths > max_paths:
                raise Unsupported('more than %d paths' % max_paths)
            x = SymX(self, prefix)
            CUR.x = x
            try:
                try:
                    prop(x)
                except Exception:
                    if x.dead is not None:
                        raise x.dead
                    raise
                if x.dead is not None:
                    raise x.dead
                if not self.ends and self.sat(x.pc):
                    self.ends += 1
            except Infeasible:
                pass
            except Failed as f:
                return 'refuted', (Goal(f.label), f.model)
            except Unsupported:
                raise
            except Exception as e:
                import traceback
                m = self.model(x.pc)
                if m is not None:
                    return 'refuted', ('%s: %s' % (type(e).__name__, str(e)[:200]) + (lambda s: s[:s.find('z3.py')][-900:] if 'z3.py' in s else s[-600:])(traceback.format_exc()), m)
            finally:
                CUR.x = None
        # vacuity: some run reaches the end of the obligation, and every cut loop can make a turn
        if not self.ends:
            raise Unsupported('vacuous: no feasible run reaches the end of the obligation')
        for lid in self.loops_met - self.loops_turned:
            raise Unsupported('vacuous: loop %s never makes a turn' % lid)
        return 'discharged', None


class ConcFail(Exception):
    pass


class Skip(Exception):
    pass


class ConcX:
    """the same obligation on concrete values and the real module"""
    symbolic = False
    lossy = False

    def __init__(self, rng=None, model=None):
        self.rng = rng or random.Random(0)
        self.m = model
        self.values = {}

    def note(self, name, v):
        self.values[name] = repr(v)
        return v

    def assume(self, b):
        if not b:
            raise Skip()

    def check(self, b, label):
        if not b:
            raise ConcFail(label)

    def fail(self, label):
        raise ConcFail(label)

    def _bv(self, t):
        if self.m is not None:
            return self.m.eval(t, model_completion=True).as_long()
        return None

    def bits(self, name, w, signed=False):
        v = self._bv(z3.BitVec(name, w))
        if v is None:
            v = self.rng.choice([0, 1, 2 ** w - 1, 2 ** (w - 1), 2 ** (w - 1) - 1, self.rng.getrandbits(w), self.rng.getrandbits(w),
                                 self.rng.getrandbits(w), self.rng.getrandbits(min(w, 8))])
        if signed and v >= 2 ** (w - 1):
            v -= 2 ** w
        return self.note(name, v)

    def count(self, name, sym, conc):
        if self.m is not None:
            return self.choose(name, list(range(sym + 1)))
        return self.choose(name, list(range(conc + 1)))

    def real(self, name, conc=None):
        if self.m is not None:
            v = self.m.eval(z3.Real(name), model_completion=True)
            if not z3.is_rational_value(v):
                v = v.approx(20)
            return self.note(name, Fraction(v.numerator_as_long(), v.denominator_as_long()))
        return self.note(name, conc(self.rng) if conc else Fraction(self.rng.randrange(-1000, 1000), self.rng.randrange(1, 9)))

    def integer(self, name, conc=None):
        if self.m is not None:
            return self.note(name, self.m.eval(z3.Int(name), model_completion=True).as_long())
        r = self.rng
        if conc is not None:
            return self.note(name, conc(r))
        k = r.choice([8, 15, 16, 31, 32, 63, 64, 70])
        return self.note(name, r.choice([-1, 1]) * r.choice([2 ** k, 2 ** k - 1, 2 ** k + 1, r.getrandbits(k), r.getrandbits(80)]))

    def buf(self, name, n, kind=bytes):
        if self.m is not None:
            v = [self._bv(z3.BitVec('%s[%d]' % (name, i), 8)) for i in range(n)]
        else:
            mode = self.rng.random()
            v = [self.rng.getrandbits(8) if mode < .6 else self.rng.choice([0, 0, 1, 255, 128, 10]) for _ in range(n)]
        return self.note(name, kind(v))

    def uuid(self, name):
        return self.note(name, _uuid.UUID(bytes=self.buf(name, 16)))

    def double(self, name):
        return self.note(name, self.rng.choice([0.0, -0.0, 1.5, -1e300, 5e-324, float('inf'), self.rng.random(),
                                                _struct.unpack('<d', _struct.pack('<Q', 0x3ff0000000000001))[0]]))

    def text(self, name):
        r = self.rng
        n = r.choice([1, 2, 5, 255, 256, 65531, 65532, 65533, 65534, 65535, 65536, 70000] if r.random() < .4 else [1, 3, 9, 40])
        s = ''.join(r.choice('abcXYZ 019-_.,/\u00e9\u00fc') for _ in range(min(n, 50)))
        s = (s * (n // len(s) + 1))[:n].strip(' ') or 'x'
        return self.note(name, s)

    def datetime(self, name):
        v = self.bits(name, 32)
        return self.note(name + '.dt', _datetime.datetime.fromtimestamp(v))

    def decimal(self, name, k):
        if self.m is not None:
            m = self.integer(name)
        else:
            m = self.rng.choice([0, 1, -1, 57, 5994, 2997, 23976, 29970, 59940, 2 ** 31 - 1, -2 ** 31, self.rng.randrange(-2 ** 31, 2 ** 31),
                                 self.rng.randrange(-100000, 100000), self.rng.randrange(0, 1000)])
        self.note(name, m)
        return m, self.note(name + '.f', float(Fraction(m, 10 ** k)))

    def decimal_bounded(self, name, k):
        m, v = self.decimal(name, k)
        self.assume(m > -2 ** 31)
        return m, v

    def boolean(self, name):
        if self.m is not None:
            return self.note(name, bool(self.m.eval(z3.Bool(name), model_completion=True)))
        return self.note(name, bool(self.rng.getrandbits(1)))

    def stream(self, data=b''):
        return ConcStream(bytes(data))

    def choose(self, name, options):
        if self.m is not None:
            for o in options[:-1]:
                if z3.is_true(self.m.eval(z3.Bool('%s=%s' % (name, o)), model_completion=True)):
                    return self.note(name, o)
            return self.note(name, options[-1])
        return self.note(name, self.rng.choice(list(options)))

    def cat(self, *parts):
        return b''.join(bytes(p) for p in parts)

    def enc_int(self, v, w, signed, order):
        return v.to_bytes(w, order, signed=signed)

    def dec_int(self, b, order, signed=False):
        return int.from_bytes(b, order, signed=signed)

    def enc_double(self, v, order):
        return _struct.pack('<d' if order == 'little' else '>d', v)

    def enc_text(self, s, enc):
        return s.encode(enc)

    def size(self, b):
        return len(b)

    def kind(self, v):
        return type(v)


import io as _io


class ConcStream(_io.BytesIO):
    def __init__(self, d=b''):
        _io.BytesIO.__init__(self, d)

    def rest(self):
        p = self.tell()
        r = self.read()
        self.seek(p)
        return r


def decide(prop, sym_env, real_env, samples=40, seed=1, timeout_ms=20000, small=None, ghost=False):
    """prove prop(x, env); on refutation replay the model; always cross-check on concrete values.  ghost: prop only makes
    sense on ghost objects, its counterexamples are not inputs and cannot be replayed as such: a goal of the property that
    fails is reported, while an invariant that does not fit (changed) code, or ghost objects refusing it, leave it undecided
    -> dict(status, detail, replay, goals, paths, queries, solver_s, fails)"""
    ex = Explorer(timeout_ms)
    out = dict(status='undecided', detail='', replay=None)
    try:
        st, d = ex.run(lambda x: prop(x, sym_env))
        out['status'] = st
        if st == 'refuted':
            label, model = d
            out['detail'] = label
            if ghost:
                if not isinstance(d[0], Goal) or d[0].startswith(('loop ', 'internal: ')):
                    out['status'] = 'undecided'
                    out['detail'] = 'proof fails: ' + label[-500:]
                else:
                    out['model'] = str(model)[:3000]
            elif small is None:          # the same function runs on concrete values
                out['replay'] = conc_run(prop, real_env, ConcX(random.Random(1), model))
            if out['replay'] is None and not ghost:
                out['status'] = 'undecided'
                out['detail'] = 'counterexample of the verifier does not reproduce: ' + label[-500:]
    except Unsupported as e:
        out['detail'] = 'unsupported: %s' % e
    except RecursionError:
        out['detail'] = 'recursion limit of the verifier'
    out.update(goals=ex.goals, paths=ex.paths, queries=ex.queries, solver_s=ex.time)
    if out['status'] != 'discharged' and not out['replay'] and small:
        b = decide(small, sym_env, real_env, 0, seed, timeout_ms)
        out['bounded'] = b['status']
        out['detail'] += ' | bounded obligation: %s %s' % (b['status'], b['detail'])
        if b['status'] == 'refuted':
            out.update(status='refuted', replay=b['replay'], detail=b['detail'])
    fails, n = [], 0
    for i in range(samples):
        r = conc_run(prop, real_env, ConcX(random.Random('%s/%d' % (seed, i))))
        n += 1
        if r:
            fails.append(r)
            break
    out['fails'] = fails
    out['samples'] = n
    return out


def conc_run(prop, env, x):
    import contextlib
    import io
    import traceback
    try:
        with contextlib.redirect_stdout(io.StringIO()):      # the library prints what it cannot read
            prop(x, env)
    except Skip:
        return None
    except ConcFail as e:
        return dict(what=str(e), values=x.values)
    except Exception as e:
        return dict(what='%s: %s' % (type(e).__name__, str(e)[:300]), values=x.values, trace=traceback.format_exc()[-1200:])
    return None


def prove_task(make_env, index, timeout_ms):
    props, sym, real = make_env(True)
    name, prop = props[index][:2]
    other = props[index][2] if len(props[index]) > 2 else None
    small = other if callable(other) else (other + (None,))[1] if isinstance(other, tuple) else None
    return decide(prop, sym, real, 0, 1, timeout_ms, small, small is None and other is not None)


def conc_task(make_env, indices, n, seed):
    props, sym, real = make_env(False)
    out = []
    for i in indices:
        name, prop = props[i][:2]
        if len(props[i]) > 2 and callable(props[i][2]):
            prop = props[i][2]
        elif len(props[i]) > 2 and isinstance(props[i][2], tuple):
            prop = props[i][2][0]
        elif len(props[i]) > 2 and props[i][2] == 'symbolic':
            continue
        r = None
        for k in range(1 if len(props[i]) > 2 and props[i][2] == 'once' else n):
            r = conc_run(prop, real, ConcX(random.Random('%s/%d/%s' % (seed, k, name))))
            if r:
                break
        out.append((name, r, k + 1))
    return out


def add_fixed_results(rep, make_env, samples, timeout, functions=(), only=None):
    """make_env(symbolic) -> (props, sym_env, real_env); props: [(name, function[, other])] where other is 'concrete' (only run
    on concrete values; 'once': one run is enough), 'symbolic' (only proved), or the function to run on concrete values and, when the proof of the
    first one is not found, on symbolic values with few items; (function,) is only run on concrete values; (function, small) has both"""
    from . import driver
    props = make_env(None)[0]
    idx = [i for i in range(len(props)) if only is None or only(props[i][0])]
    tasks = []
    groups = [idx[j::8] for j in range(8)]
    for j, g in enumerate(groups):
        if g:
            tasks.append(('conc%d' % j, conc_task, (make_env, g, samples, driver.seed())))
    for i in idx:
        if not (len(props[i]) > 2 and props[i][2] in ('concrete', 'once')):
            tasks.append((i, prove_task, (make_env, i, 20000)))
    res = driver.run_tasks(tasks, timeout)
    shown = [f for j in range(8) if isinstance(res.get('conc%d' % j), list) for nm, f, _ in res['conc%d' % j] if f and
             not any(k.get('key') == nm for k in rep.findings)]
    for i in idx:
        name = props[i][0]
        if i not in res:
            continue
        r = res[i]
        if 'status' not in r:
            rep.errors.append('%s: %s' % (name, r))
            rep.obligation(name, 'undecided', str(r)[-600:])
            rep.bounded.append(dict(what=name, bound='%d sampled inputs' % samples, why=str(r)[-200:]))
            continue
        rep.queries += r['queries']
        rep.solver_s += r['solver_s']
        rep.obligation(name, r['status'], r['detail'], r['goals'])
        if r['status'] == 'refuted' and not r['replay'] and shown:
            rep.bounded.append(dict(what=name, bound='refuted; the failing input is the one found on concrete runs', why=r['detail'][-300:]))
        elif r['status'] == 'refuted':
            rep.violation(name, '%s: %s' % (name, (r['replay'] or {}).get('what', r['detail'])),
                          dict(obligation=name, verifier=r['detail'], input=r['replay'], model=r.get('model')), bool(r['replay']))
        elif r['status'] == 'undecided':
            rep.bounded.append(dict(what=name, bound='%d sampled inputs%s' % (
                samples, '; all inputs with few items (bounded symbolic run discharged)' if r.get('bounded') == 'discharged' else ''),
                why=r['detail'][-300:]))
    for j, g in enumerate(groups):
        if not g:
            continue
        r = res['conc%d' % j]
        if isinstance(r, dict):
            rep.errors.append('concrete runs: %s' % r)
            continue
        for name, f, n in r:
            rep.samples += n
            if f:
                rep.violation(name, '%s: %s' % (name, f['what']), dict(input=f), True)
    rep.functions.update(functions)
