"""Contracts of the builtin containers the avb package extends or uses, as ghost objects.

GList stands for list, GDict for collections.OrderedDict: their methods state, for contents of any size, what the
documentation of Python says the builtin does.  AVBRefList, AVBPropertyData and Attributes are executed from /repo's
source with these as their base classes, so `super().append(x)` means the documented list append, for every list.
Elements are tokens (z3 integers) naming values; what a token refers to is up to the obligation."""
import z3

from .fixed import CUR, Infeasible, Sym, SymBool, SymSeq, SymZ, Unsupported, land, lnot, lor, mkbool, zt, isint

I = z3.IntSort()


def mkz(v):
    return v if isinstance(v, Sym) else SymZ(z3.IntVal(v))


class Tok(Sym):
    """a value known only by name; equal by EQ (reflexive and symmetric), identical if the names are equal"""

    def __init__(self, t):
        self.t = t if z3.is_expr(t) else z3.IntVal(t)

    EQ = z3.Function('EQ', I, I, z3.BoolSort())

    def __eq__(self, o):
        if not isinstance(o, Tok):
            return False
        a, b = self.t, o.t
        if a.eq(b):
            return True
        CUR.x.assume_t(z3.And(self.EQ(a, b) == self.EQ(b, a), z3.Implies(a == b, self.EQ(a, b))))
        return mkbool(self.EQ(a, b))

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def pyvc_same(a, b):
        return mkbool(a.t == b.t) if isinstance(b, Tok) else False

    def __hash__(self):
        return 1

    def __repr__(self):
        return 'Tok(%s)' % self.t


NONE = -5


def token(v):
    if isinstance(v, Tok):
        return v.t
    if v is None:
        return z3.IntVal(NONE)
    f = getattr(v, 'pyvc_token', None)
    if f is not None:
        return f
    if Space.numbers and isint(v):
        return zt(v)
    raise Unsupported('a list item %r' % (v,))


class Space:
    """how tokens are turned into values; set by the obligation"""
    make = staticmethod(Tok)
    numbers = False              # items are integers, not names


def ite(c, a, b):
    return z3.simplify(z3.If(bt(c), a, b))


def bt(c):
    return c.t if isinstance(c, SymBool) else z3.BoolVal(c) if isinstance(c, bool) else c


def norm(i, n):
    """python index -> 0-based (branches), or IndexError"""
    if not isint(i):
        raise TypeError('list indices must be integers or slices')
    if bool(i < 0):
        i = i + n
    if bool(lor(i < 0, i >= n)):
        raise IndexError('list index out of range')
    return i


def clamp(i, n):
    if bool(i < 0):
        i = i + n
        return 0 if bool(i < 0) else i
    return n if bool(i > n) else i


def seq_of(v):
    """(n, ft, tag) of an iterable argument"""
    if isinstance(v, Seq):
        return v.n, v.ft, v.tag
    if GList in type(v).__mro__:
        s = v.pyvc_iter()
        return s.n, s.ft, s.tag
    if isinstance(v, (list, tuple)):
        ts = [token(x) for x in v]

        def ft(i):
            r = z3.IntVal(-1)
            for k, t in enumerate(ts):
                r = z3.If(i == k, t, r)
            return r
        return SymZ(z3.IntVal(len(ts))), ft, ('fin', tuple(str(t) for t in ts))
    raise Unsupported('list of %r' % (v,))


class Seq(SymSeq):
    """an immutable sequence of tokens"""
    __slots__ = ('ft', 'tag')

    def __init__(self, n, ft, tag):
        SymSeq.__init__(self, n if isinstance(n, Sym) else SymZ(z3.IntVal(n)), lambda i: Space.make(ft(zt(i))))
        self.ft, self.tag = ft, tag


class ListMeta(type):
    def __instancecheck__(cls, v):
        if cls is GList:
            return isinstance(v, list) or GList in type(v).__mro__
        return type.__instancecheck__(cls, v)

    def __subclasscheck__(cls, c):
        return type.__subclasscheck__(cls, c) or cls is GList and issubclass(c, list) if isinstance(c, type) else False

    def __call__(cls, *a, **k):
        if cls is not GList:
            return type.__call__(cls, *a, **k)
        if not a:
            return []
        v = a[0]
        if isinstance(v, Seq) or GList in type(v).__mro__:
            r = GList.__new__(GList)
            r.n, r.ft, r.tag = seq_of(v)
            return r
        return list(v)


MISSING = object()


class GList(metaclass=ListMeta):
    """contract of list"""
    __slots__ = ('n', 'ft', 'tag')

    def __new__(cls, *a, **k):
        self = object.__new__(cls)
        self.n, self.ft, self.tag = SymZ(z3.IntVal(0)), (lambda i: z3.IntVal(-1)), ('fin', ())
        return self

    def __init__(self, *a):
        pass

    # the iteration contract of the type: the raw items for list itself; subclasses are given theirs by the obligation
    def pyvc_iter(self):
        return Seq(self.n, self.ft, self.tag)

    def _set(self, n, ft, tag):
        self.n, self.ft, self.tag = (n if isinstance(n, Sym) else SymZ(z3.IntVal(n))), ft, tag

    def append(self, v):
        n, ft, t = zt(self.n), self.ft, token(v)
        self._set(self.n + 1, lambda i: z3.If(i == n, t, ft(i)), ('append', self.tag, str(t)))

    def extend(self, vs):
        m, g, tag = seq_of(vs)
        n, ft = zt(self.n), self.ft
        self._set(self.n + m, lambda i: z3.If(i < n, ft(i), g(i - n)), ('extend', self.tag, tag))

    def __iadd__(self, vs):
        GList.extend(self, vs)
        return self

    def __add__(self, vs):
        r = list_copy(GList.pyvc_iter(self))
        GList.extend(r, GList.pyvc_iter(vs) if GList in type(vs).__mro__ else vs)
        return r

    def __mul__(self, k):
        r = list_copy(GList.pyvc_iter(self))
        GList.__imul__(r, k)
        return r

    __rmul__ = __mul__

    def __imul__(self, k):
        k = mkz(k)
        if bool(k < 0):
            k = 0
        n, ft = zt(self.n), self.ft
        self._set(SymZ(z3.simplify(n * zt(k))), lambda i: ft(i % n), ('mul', self.tag, str(zt(k))))
        return self

    def insert(self, p, v):
        p = zt(clamp(mkz(p), self.n))
        ft, t = self.ft, token(v)
        self._set(self.n + 1, lambda i: z3.If(i < p, ft(i), z3.If(i == p, t, ft(i - 1))), ('insert', self.tag, str(p), str(t)))

    def _drop(self, p):
        p, ft = zt(p), self.ft
        self._set(self.n - 1, lambda i: z3.If(i < p, ft(i), ft(i + 1)), ('drop', self.tag, str(p)))

    def pop(self, i=-1):
        if bool(self.n == 0):
            raise IndexError('pop from empty list')
        p = norm(mkz(i), self.n)
        v = Space.make(self.ft(zt(p)))
        self._drop(p)
        return v

    def _find(self, v, lo=0, hi=None):
        """position of the first item that is or equals v (None: there is none)"""
        x = CUR.x
        t = token(v)
        hi = self.n if hi is None else hi
        j = z3.Int('j!')
        ft = self.ft
        ne = z3.Not(z3.Or(ft(j) == t, Tok.EQ(ft(j), t)))
        none = z3.ForAll([j], z3.Implies(z3.And(j >= zt(lo), j < zt(hi)), ne))
        x.n += 1
        found = x.branch(z3.Bool('found!%d' % x.n))
        if not found:
            x.assume_t(none)
            return None
        p = x.fresh_int('p')
        x.assume_t(z3.And(p >= zt(lo), p < zt(hi), z3.Or(ft(p) == t, Tok.EQ(ft(p), t))))
        x.assume_t(z3.ForAll([j], z3.Implies(z3.And(j >= zt(lo), j < p), ne)))
        if not x.ex.sat(x.pc):
            raise Infeasible()
        return SymZ(p)

    def index(self, v, *a):
        lo, hi = 0, None
        if a:
            lo = clamp(mkz(a[0]), self.n)
            hi = clamp(mkz(a[1]), self.n) if len(a) > 1 else None
        p = GList._find(self, v, lo, hi)
        if p is None:
            raise ValueError('x is not in list')
        return p

    def __contains__(self, v):
        return GList._find(self, v) is not None

    def count(self, v):
        """a number determined by the sequence and the value"""
        c = z3.Function('count(%s)' % (self.tag,), I, I)(token(v))
        CUR.x.assume_t(z3.And(c >= 0, c <= zt(self.n)))
        return SymZ(c)

    def remove(self, v):
        p = GList._find(self, v)
        if p is None:
            raise ValueError('list.remove(x): x not in list')
        self._drop(p)

    def clear(self):
        self._set(0, lambda i: z3.IntVal(-1), ('fin', ()))

    def reverse(self):
        n, ft = zt(self.n), self.ft
        self._set(self.n, lambda i: ft(n - 1 - i), ('rev', self.tag))

    def sort(self, key=None, reverse=False):
        s = ghost_sorted(GList.pyvc_iter(self), key=key, reverse=reverse)
        self._set(s.n, s.ft, s.tag)

    def copy(self):
        return list_copy(self.pyvc_iter())

    def _stepped(self, s):
        """an extended slice picks POS(k) for k < COUNT, both determined by the length of the list and the slice"""
        if s.step is None or isinstance(s.step, int) and s.step == 1:
            return None
        if bool(mkz(s.step) == 0):
            raise ValueError('slice step cannot be zero')
        name = 'slice(%s,%s,%s,%s)' % tuple('-' if v is None else zt(v) for v in (s.start, s.stop, s.step, self.n))
        cnt = z3.Int('count' + name)
        CUR.x.assume_t(z3.And(cnt >= 0, cnt <= zt(self.n)))
        return name, cnt, z3.Function('pos' + name, I, I), z3.Function('rest' + name, I, I), z3.Function('pick' + name, I, I)

    def _slice(self, s):
        lo = clamp(mkz(s.start), self.n) if s.start is not None else 0
        hi = clamp(mkz(s.stop), self.n) if s.stop is not None else self.n
        if bool(hi < lo):
            hi = lo
        return lo, hi

    def __getitem__(self, i):
        if isinstance(i, slice):
            st = GList._stepped(self, i)
            if st:
                ft = self.ft
                r = GList.__new__(GList)
                r._set(SymZ(st[1]), lambda k: ft(st[2](k)), ('slice', self.tag, st[0]))
                return r
            lo, hi = GList._slice(self, i)
            ft, l = self.ft, zt(lo)
            r = GList.__new__(GList)
            r._set(hi - lo, lambda i: ft(i + l), ('slice', self.tag, str(l), str(zt(hi))))
            return r
        return Space.make(self.ft(zt(norm(mkz(i), self.n))))

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            m, g, tag = seq_of(v)
            st = GList._stepped(self, i)
            if st:
                if not bool(SymZ(st[1]) == m):
                    raise ValueError('attempt to assign sequence to extended slice')
                ft = self.ft
                self._set(self.n, lambda k: z3.If(st[4](k) >= 0, g(st[4](k)), ft(k)), ('setslice', self.tag, st[0], tag))
                return
            lo, hi = GList._slice(self, i)
            ft, l, h, mm = self.ft, zt(lo), zt(hi), zt(m)
            self._set(self.n - (hi - lo) + m, lambda i: z3.If(i < l, ft(i), z3.If(i < l + mm, g(i - l), ft(i - l - mm + h))),
                      tag if l.eq(z3.IntVal(0)) and h.eq(zt(self.n)) else ('setslice', self.tag, str(l), str(h), tag))
            return
        p, ft, t = zt(norm(mkz(i), self.n)), self.ft, token(v)
        self._set(self.n, lambda i: z3.If(i == p, t, ft(i)), ('set', self.tag, str(p), str(t)))

    def __delitem__(self, i):
        if isinstance(i, slice):
            st = GList._stepped(self, i)
            if st:
                ft = self.ft
                return self._set(SymZ(zt(self.n) - st[1]), lambda k: ft(st[3](k)), ('delslice', self.tag, st[0]))
            return GList.__setitem__(self, i, [])
        self._drop(norm(mkz(i), self.n))

    def __iter__(self):
        return _It(GList.pyvc_iter(self))

    def __reversed__(self):
        n, ft = zt(self.n), self.ft
        return _It(Seq(self.n, lambda i: ft(n - 1 - i), ('rev', self.tag)))

    def __len__(self):
        raise Unsupported('len of a list of symbolic length')

    def __bool__(self):
        return bool(self.n != 0)

    def __eq__(self, o):
        raise Unsupported('comparison of lists')

    __hash__ = None


class _It(Seq):
    """a list iterator: iterating it goes through the sequence"""
    __slots__ = ()

    def __init__(self, s):
        Seq.__init__(self, s.n, s.ft, s.tag)

    def __next__(self):
        raise Unsupported('next of a list iterator')


def list_copy(s):
    r = GList.__new__(GList)
    r._set(s.n, s.ft, s.tag)
    return r


def ghost_sorted(v, key=None, reverse=False):
    """sorted: the permutation is determined by the sequence of values, the key and the direction"""
    n, ft, tag = seq_of(v)
    x = CUR.x
    perm = z3.Function('perm(%s,%s,%s)' % (tag, id(key) if key else None, reverse), I, I)
    r = GList.__new__(GList)
    r._set(n, lambda i: ft(perm(i)), ('sorted', tag, str(id(key) if key else None), str(reverse)))
    return r


def hook_sorted(v, key=None, reverse=False):
    if isinstance(v, Seq) or GList in type(v).__mro__:
        return ghost_sorted(v, key, reverse)
    return sorted(v, key=key, reverse=reverse)


def hook_comp(f, it):
    """[f(v) for v in it]: over a ghost sequence, the items of the result are worked out when they are asked for"""
    if isinstance(it, SymSeq) or GList in type(it).__mro__:
        s = it if isinstance(it, SymSeq) else it.pyvc_iter()
        return SymSeq(s.n, lambda i: f(s.at(i)))
    return [f(v) for v in it]


LIST_MUTATORS = ['append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', '__setitem__', '__delitem__', '__iadd__', '__imul__']


# ------------------------------------------------------------------------------------------------ dictionaries

class DictMeta(type):
    def __instancecheck__(cls, v):
        if cls is GDict:
            return isinstance(v, dict) or GDict in type(v).__mro__
        return type.__instancecheck__(cls, v)

    def __subclasscheck__(cls, c):
        return type.__subclasscheck__(cls, c) or cls is GDict and isinstance(c, type) and issubclass(c, dict)


class GDict(metaclass=DictMeta):
    """contract of collections.OrderedDict with str keys and token values.  ORD orders the keys (insertion order)."""

    def __new__(cls, *a, **k):
        self = object.__new__(cls)
        self.pres, self.val, self.ord = z3.K(I, z3.BoolVal(False)), z3.K(I, z3.IntVal(-1)), z3.K(I, z3.IntVal(0))
        self.lo, self.hi = z3.IntVal(0), z3.IntVal(0)
        return self

    def __init__(self, *a, **k):
        if a and a[0] is not self or k:
            self.update(*a, **k)

    # raw operations
    def _has(self, k):
        return CUR.x.branch(z3.Select(self.pres, key(k)))

    def _put(self, k, v):
        t = key(k)
        if not GDict._has(self, k):
            self.pres = z3.Store(self.pres, t, True)
            self.ord = z3.Store(self.ord, t, self.hi)
            self.hi = self.hi + 1
        self.val = z3.Store(self.val, t, token(v))

    def _del(self, k):
        if not GDict._has(self, k):
            raise KeyError(k)
        self.pres = z3.Store(self.pres, key(k), False)

    def _val(self, k):
        return Space.make(z3.simplify(z3.Select(self.val, key(k))))

    # documented operations (those of a subclass go through its __setitem__, __getitem__ and __delitem__ where the C
    # implementation of CPython does: update, setdefault and |= ; popitem and move_to_end act on the base)
    def __setitem__(self, k, v):
        GDict._put(self, k, v)

    def __getitem__(self, k):
        if not GDict._has(self, k):
            raise KeyError(k)
        return GDict._val(self, k)

    def __delitem__(self, k):
        GDict._del(self, k)

    def __contains__(self, k):
        return GDict._has(self, k)

    def get(self, k, default=None):
        return GDict._val(self, k) if GDict._has(self, k) else default

    def pop(self, k, *d, **kw):
        if kw:
            d = (kw['default'],)
        if GDict._has(self, k):
            v = GDict._val(self, k)
            GDict._del(self, k)
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def setdefault(self, k, default=None):
        if GDict._has(self, k):
            return self[k]
        self[k] = default
        return default

    def update(self, *a, **kw):
        for o in a:
            for k, v in (o.items() if isinstance(o, dict) else o):
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def __ior__(self, o):
        self.update(o)
        return self

    def _extreme(self, last):
        x = CUR.x
        x.n += 1
        if not x.branch(z3.Bool('nonempty!%d' % x.n)):
            j = z3.Int('j!')
            x.assume_t(z3.ForAll([j], z3.Not(z3.Select(self.pres, j))))
            if not x.ex.sat(x.pc):
                raise Infeasible()
            return None
        k = x.fresh_int('key')
        j = z3.Int('j!')
        o = z3.Select(self.ord, j)
        mine = z3.Select(self.ord, k)
        x.assume_t(z3.Select(self.pres, k))
        x.assume_t(z3.ForAll([j], z3.Implies(z3.And(z3.Select(self.pres, j), j != k), o < mine if last else o > mine)))
        if not x.ex.sat(x.pc):
            raise Infeasible()
        return Key(k)

    def popitem(self, last=True):
        k = GDict._extreme(self, bool(last))
        if k is None:
            raise KeyError('dictionary is empty')
        v = GDict._val(self, k)
        GDict._del(self, k)
        return k, v

    def move_to_end(self, k, last=True):
        if not GDict._has(self, k):
            raise KeyError(k)
        if bool(last):
            self.ord = z3.Store(self.ord, key(k), self.hi)
            self.hi = self.hi + 1
        else:
            self.lo = self.lo - 1
            self.ord = z3.Store(self.ord, key(k), self.lo)

    def clear(self):
        self.pres = z3.K(I, z3.BoolVal(False))

    def items(self):
        return Items(self, lambda k, v: (Key(k), v))

    def values(self):
        return Items(self, lambda k, v: v)

    def keys(self):
        return Items(self, lambda k, v: Key(k))

    def __iter__(self):
        return Items(self, lambda k, v: Key(k))

    def __len__(self):
        raise Unsupported('len of a dictionary of symbolic size')

    __hash__ = None


class Items(Seq):
    """keys, values or items of a GDict in order: item i is the key KEYAT(i)"""
    __slots__ = ('d', 'g', 'key_at')

    def __init__(self, d, g):
        x = CUR.x
        x.n += 1
        n = z3.Int('size!%d' % x.n)
        at = z3.Function('keyat!%d' % x.n, I, I)
        i, j = z3.Ints('i! j!')
        x.assume_t(n >= 0)
        x.assume_t(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(d.pres, at(i))), patterns=[at(i)]))
        pos = z3.Function('keypos!%d' % x.n, I, I)
        x.assume_t(z3.ForAll([j], z3.Implies(z3.Select(d.pres, j), z3.And(pos(j) >= 0, pos(j) < n, at(pos(j)) == j)),
                             patterns=[z3.Select(d.pres, j)]))
        x.assume_t(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), z3.Select(d.ord, at(i)) < z3.Select(d.ord, at(j))),
                             patterns=[z3.MultiPattern(at(i), at(j))]))
        val = d.val
        SymSeq.__init__(self, SymZ(n), lambda k: g(at(zt(k)), Space.make(z3.Select(val, at(zt(k))))))
        self.ft, self.tag, self.d, self.g, self.key_at = None, ('items', x.n), d, g, at


class Key(Tok):
    """a dictionary key: equal only to itself"""

    def __eq__(self, o):
        if isinstance(o, (Key, str)):
            return mkbool(self.t == key(o))
        return False

    __hash__ = Tok.__hash__


KEYS = {}


def key(k):
    if isinstance(k, Key):
        return k.t
    if isinstance(k, SymZ):
        return k.t
    if isinstance(k, int):
        return z3.IntVal(k)
    if isinstance(k, str):
        return z3.IntVal(-1000 - KEYS.setdefault(k, len(KEYS)))
    raise Unsupported('dictionary key %r' % (k,))


def arbitrary_list(x, obj, name='at'):
    """give a GList instance arbitrary contents"""
    at = z3.Function(name, I, I)
    n = z3.Int(name + '.n')
    x.assume_t(n >= 0)
    obj._set(SymZ(n), lambda i: at(i), name)
    return obj


def arbitrary_dict(x, obj, name='d'):
    obj.pres, obj.val, obj.ord = (z3.Const(name + '.pres', z3.ArraySort(I, z3.BoolSort())), z3.Const(name + '.val', z3.ArraySort(I, I)),
                                  z3.Const(name + '.ord', z3.ArraySort(I, I)))
    obj.lo, obj.hi = z3.Int(name + '.lo'), z3.Int(name + '.hi')
    i, j = z3.Ints('i! j!')
    o = lambda k: z3.Select(obj.ord, k)
    p = lambda k: z3.Select(obj.pres, k)
    x.assume_t(z3.ForAll([i], z3.Implies(p(i), z3.And(o(i) < obj.hi, o(i) >= obj.lo)), patterns=[p(i)]))
    x.assume_t(z3.ForAll([i, j], z3.Implies(z3.And(p(i), p(j), i != j), o(i) != o(j)), patterns=[z3.MultiPattern(p(i), p(j))]))
    return obj


def package(modules):
    """modules of avb with the builtin containers under contract"""
    from . import driver, fixed
    pk = fixed.SymPackage(driver.SRC + '/avb', modules, {'list': GList, 'dict': GDict, 'sorted': hook_sorted, 'pyvc_comp': hook_comp})
    import collections
    import types
    pk.lib['collections'] = types.SimpleNamespace(OrderedDict=GDict, defaultdict=collections.defaultdict)
    return pk
