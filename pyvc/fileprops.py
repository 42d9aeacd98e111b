"""C07, C08, C17: the file: header, chunk table, loading, saving, references.

Ghost objects standing for what lies below the package: a file of arbitrary bytes (GFile), a file being written (GOut),
arrays and byte buffers of symbolic size, the registry of classes, the weak cache.  AVBFile and the codec are executed
from /repo's source on them."""
import array as _array
import binascii as _binascii
import io
import os
import random
import struct
import types

import z3

from . import ghost
from . import identprops
from .fixed import (CUR, SymZ, Sym, SymBuf, SymSeq, SymInt, SymTime, StrVal, LoopSpec, Unsupported, Opaque, Chunk, isint,
                    land, lor, lnot, mkbool, zt, unpack_int, pack_int, items_of, canon_enc)
from .ghost import mkz

I = z3.IntSort()
ORDERS = ('little', 'big')
BYTE = z3.Function('BYTE', I, z3.BitVecSort(8))
_BYT = None


def it(v):
    """integer term"""
    if isinstance(v, int):
        return z3.IntVal(v)
    return SymZ.term(v)


def Z(t):
    t = z3.simplify(t) if z3.is_expr(t) else t
    return t if isinstance(t, int) else t.as_long() if z3.is_int_value(t) else SymZ(t)


class Slice(Opaque):
    """n bytes of the file from position p on"""

    def __init__(self, p, n):
        from .fixed import BYT
        self.p = p
        Opaque.__init__(self, z3.Function('SLICE', I, I, BYT)(p, n), n)


class Zeros(Opaque):
    def __init__(self, n):
        from .fixed import BYT
        Opaque.__init__(self, z3.Function('ZEROS', I, BYT)(n), n)


def u32(order, p):
    return it(unpack_int([BYTE(p + i) for i in range(4)], False, order))


def u16(order, p):
    return it(unpack_int([BYTE(p + i) for i in range(2)], False, order))


def bytes_at(p, n, rev=False):
    b = [BYTE(p + i) for i in range(n)]
    return SymBuf(b[::-1] if rev else b)


def fourcc_at(order, p):
    return bytes_at(p, 4, order == 'little')


class GFile:
    """contract of a binary file opened for reading: arbitrary contents of length LEN; optionally a known beginning"""

    def __init__(self, x, pre=()):
        self.x, self.pre = x, list(pre)
        self.plen = sum(1 if not isinstance(i, Opaque) else i.n for i in self.pre)
        self.LEN = z3.Int('LEN')
        x.assume_t(self.LEN >= self.plen)
        self.pos = 0
        self.ops = []

    def _rest(self):
        return Z(z3.If(it(self.pos) < self.LEN, self.LEN - it(self.pos), 0))

    def _prefix(self, n):
        out, p = [], 0
        for i in self.pre:
            w = i.n if isinstance(i, Opaque) else 1
            if self.pos <= p < self.pos + n:
                if p + w > self.pos + n:
                    raise Unsupported('partial read of a text')
                out.append(i)
            elif p < self.pos < p + w:
                raise Unsupported('partial read of a text')
            p += w
        self.pos += n
        return SymBuf(out)

    def read(self, n=-1):
        self.ops.append('read')
        if n is None or isinstance(n, int) and n < 0:
            n = self._rest()
        n = n if isinstance(n, int) else Z(it(n))
        if isinstance(n, int) and isinstance(self.pos, int) and self.pos + n <= self.plen:
            return self._prefix(n)
        if isinstance(self.pos, int) and self.pos < self.plen:
            raise Unsupported('read across the end of the header')
        p = it(self.pos)
        if isinstance(n, int):
            if bool(mkbool(p + n <= self.LEN)):
                self.pos = Z(p + n)
                return SymBuf([BYTE(z3.simplify(p + i)) for i in range(n)])
            m = it(self._rest())
            self.pos = Z(p + m)
            return SymBuf([Slice(p, m)])
        if bool(n < 0):
            n = self._rest()
        m = it(n)
        if bool(mkbool(p + m > self.LEN)):
            m = it(self._rest())
        if bool(mkbool(m == 0)):
            return SymBuf([])
        self.pos = Z(p + m)
        return SymBuf([Slice(p, m)])

    def readinto(self, buf):
        self.ops.append('readinto')
        if not isinstance(buf, SymBuf) or buf.kind is not bytearray:
            raise Unsupported('readinto of something else')
        n = buf.symlen()
        p, m = it(self.pos), it(n)
        if bool(mkbool(p + m <= self.LEN)):
            buf.items = [Slice(p, m)]
            self.pos = Z(p + m)
            return n
        k = it(self._rest())
        buf.items = [Slice(p, k), Zeros(m - k)]
        self.pos = Z(p + k)
        return Z(k)

    def seek(self, off, whence=0):
        self.ops.append('seek')
        o = it(off)
        p = o if whence == 0 else it(self.pos) + o if whence == 1 else self.LEN + o
        if bool(mkbool(p < 0)):
            raise ValueError('negative seek position')
        self.pos = Z(p)
        return self.pos

    def tell(self):
        return self.pos

    def close(self):
        self.ops.append('close')


class GReader:
    """io.BytesIO over a record: a reader takes some of it"""

    def __init__(self, data):
        self.data, self.taken = SymBuf(data.items), 0

    def take(self, m):
        self.taken = m

    def read(self, n=-1):
        if n not in (-1, None):
            raise Unsupported('read of part of a record')
        left = Z(it(self.data.symlen()) - it(self.taken))
        self.taken = self.data.symlen()
        if not bool(mkbool(it(left) > 0)):
            return b''
        from .fixed import BYT
        return SymBuf([Opaque(z3.Const('left over', BYT), it(left))])

    def tell(self):
        return self.taken

    def getvalue(self):
        return SymBuf(self.data.items)


class GArr:
    """array.array of any length; the items are numbers of the type the code names"""

    def __init__(self, n, ft, code='L'):
        self.n, self.ft = n, ft
        bits = 8 * _array.array(code).itemsize
        self.low, self.high = (0, 2 ** bits) if code.isupper() else (-2 ** (bits - 1), 2 ** (bits - 1))

    def pyvc_len(self):
        return self.n

    def _i(self, i):
        i = mkz(i) if isinstance(i, (int, SymZ)) else SymZ(it(i))
        return ghost.norm(i, self.n)

    def __getitem__(self, i):
        return Z(self.ft(it(self._i(i))))

    def __setitem__(self, i, v):
        i, v, ft = it(self._i(i)), it(v), self.ft
        if bool(mkbool(z3.Or(v < self.low, v >= self.high))):
            raise OverflowError('array item out of range')
        self.ft = lambda j: z3.If(j == i, v, ft(j))

    def append(self, v):
        n = it(self.n)
        self.n = SymZ(z3.simplify(n + 1))
        self[SymZ(n)] = v


def hook_array(code, v=()):
    code = str(code)
    whole = code in ('b', 'B', 'h', 'H', 'i', 'I', 'l', 'L', 'q', 'Q')
    if isinstance(v, SymSeq):
        if not whole:
            raise Unsupported('array of other items')
        a = GArr(SymZ(it(v.n)), lambda j: it(v.at(SymZ(j))), code)
        j = SymZ(z3.Int('any item'))
        if not bool(mkbool(z3.Implies(z3.And(j.t >= 0, j.t < it(v.n)), z3.And(a.ft(j.t) >= a.low, a.ft(j.t) < a.high)))):
            raise OverflowError('array item out of range')
        return a
    if whole and isinstance(v, (list, tuple)) and all(isinstance(i, int) for i in v):
        _array.array(code, v)

        def ft(j):
            r = z3.IntVal(0)
            for k, i in enumerate(v):
                r = z3.If(j == k, z3.IntVal(i), r)
            return z3.simplify(r)
        return GArr(SymZ(z3.IntVal(len(v))), ft, code)
    return _array.array(code, v)


def package(modules=('utils', 'core', 'attributes', 'ioctx', 'file')):
    pk = ghost.package(list(modules))
    from . import fixed
    pk.lib['array'] = types.SimpleNamespace(array=hook_array)
    pk.lib['binascii'] = types.SimpleNamespace(hexlify=lambda b: b'', unhexlify=_binascii.unhexlify)
    pk.lib['weakref'] = types.SimpleNamespace(WeakValueDictionary=ghost.GDict)
    real = fixed.hook_bytearray

    def bytearray_(v=0, *a):
        if isinstance(v, (SymInt, SymZ)):
            if bool(mkbool(it(v) < 0)):
                raise ValueError('negative count')
            return SymBuf([Zeros(it(v))], bytearray)
        return real(v, *a)
    pk.builtins['bytearray'] = fixed._TypeHook(bytearray, bytearray_)
    pk.builtins['print'] = lambda *a, **k: None
    stream = pk.lib['io'].BytesIO

    def bytesio(d=b''):
        if isinstance(d, SymBuf) and any(isinstance(i, Opaque) for i in d.items):
            return GReader(d)
        return stream(d)
    pk.lib['io'].BytesIO = bytesio
    pk.lib['io'].open = lambda p, *a, **k: p
    return pk


DEBUG = False


class GhostError(Exception):
    pass


def attempt(x, f, *a, **k):
    """('ok', result) or ('raised', exception)"""
    try:
        return 'ok', f(*a, **k)
    except Exception as ex:
        if x.dead is not None:
            raise x.dead
        if isinstance(ex, z3.Z3Exception) or DEBUG:
            raise
        return 'raised', ex


# ------------------------------------------------------------------------------------------------ loading

class Registry:
    """which class codes are known; a class reads its record or refuses it"""

    def __init__(self, x, f):
        reg = self
        self.x, self.asked, self.made = x, [], []

        class Obj:
            def __new__(cls, *a, **k):
                o = object.__new__(cls)
                o.pyvc_token = z3.Int('new object')
                o.root, o.instance_id = k.get('root'), None
                o.data = None
                reg.made.append(o)
                return o

            def __init__(self, *a, **k):
                pass

            def read(self, r):
                reg.read(self, r)
        self.cls = Obj

    def _known(self, c):
        self.asked.append(c)
        return self.x.branch(z3.Bool('the class is known'))

    def get(self, c, default=None):
        return self.cls if self._known(c) else default

    def __contains__(self, c):
        return self._known(c)

    def __getitem__(self, c):
        if not self._known(c):
            raise KeyError(c)
        return self.cls

    def read(self, o, r):
        x = self.x
        x.check(o.root is not None and o.root.reading, 'a record is read with the reading flag set')
        o.data = getattr(r, 'data', None)
        if o.data is None:
            o.data = SymBuf(r.items)
        if x.branch(z3.Bool('the record is refused')):
            raise GhostError('refused')
        m = z3.Int('bytes taken')
        x.assume_t(z3.And(m >= 0, m <= it(o.data.symlen())))
        x.assume(True)
        if not isinstance(r, GReader):
            raise Unsupported('another stream')
        r.take(SymZ(m))


class GFast(dict):
    pass


OP = z3.Function('OP', I, I)


def loaded_file(x, e, order):
    """a file opened for reading, in any state"""
    x.ex.quant = True
    F = e.file.AVBFile
    f = F.__new__(F)
    f.f = GFile(x)
    f.check_refs, f.debug_copy_refs, f.reading = True, False, False
    f.ictx, f.octx = e.ioctx.AVBIOContext(order), None
    f.fast_readers = {}
    f.object_cache = ghost.arbitrary_dict(x, ghost.GDict.__new__(ghost.GDict), 'cache')
    f.modified_objects = ghost.arbitrary_dict(x, ghost.GDict.__new__(ghost.GDict), 'modified')
    n = z3.Int('table.n')
    x.assume_t(n >= 1)
    i = z3.Int('i!')
    x.assume_t(z3.ForAll([i], z3.And(OP(i) >= 0, OP(i) < 2 ** 60), patterns=[OP(i)]))
    f.object_positions = GArr(SymZ(n), lambda j: OP(j))
    f.root_chunk = object()
    e.utils.AVBClaseID_dict = f.registry = Registry(x, f)
    ghost.Space.make = staticmethod(ghost.Tok)
    return f


def same_dict(x, d, p, label):
    q = x.fresh_int('q')
    x.check(mkbool(z3.Select(d.pres, q) == z3.Select(p.pres, q)), label)
    x.check(mkbool(z3.Implies(z3.Select(p.pres, q), z3.Select(d.val, q) == z3.Select(p.val, q))), label)


def is_slice(x, b, p, n, label):
    """b is the n bytes at p"""
    if b is None or not isinstance(b, SymBuf):
        x.fail(label)
    items = [i for i in b.items if not (isinstance(i, Opaque) and not x.ex.sat(x.pc + [i.n != 0]))]
    if not items:
        return x.check(mkbool(n == 0), label)
    if len(items) != 1 or not isinstance(items[0], Slice):
        x.fail(label)
    x.check(mkbool(z3.And(items[0].p == p, items[0].n == n)), label)


class Fast:
    """compiled readers for some of the classes; one reads its record as read does, or refuses it"""

    def __init__(self, x, f, reg):
        self.x, self.f, self.reg, self.asked, self.used = x, f, reg, [], []

    def known(self, c):
        self.asked.append(c)
        return self.x.branch(z3.Bool('the class has a compiled reader'))

    def get(self, c, default=None):
        return self.reader if self.known(c) else default

    def __contains__(self, c):
        return self.known(c)

    def __getitem__(self, c):
        if not self.known(c):
            raise KeyError(c)
        return self.reader

    def reader(self, root, o, data):
        x = self.x
        self.used.append(o)
        x.check(root is self.f, 'the compiled reader is given the file')
        x.check(root.reading, 'a record is read with the reading flag set')
        o.data = data
        if x.branch(z3.Bool('the record is refused')):
            raise GhostError('refused')


def load(order, compiled=False):
    def prop(x, e):
        f = loaded_file(x, e, order)
        reg, F = f.registry, f.f
        fast = None
        if compiled:
            fast = f.fast_readers = Fast(x, f, reg)
        idx = SymZ(z3.Int('index'))
        i = idx.t
        x.assume_t(i >= 0)
        cache, mod, table = identprops.raw_copy(f.object_cache), identprops.raw_copy(f.modified_objects), f.object_positions
        n, ft = table.n, table.ft
        st, r = attempt(x, f.read_object, idx)
        cached = z3.Select(cache.pres, i)
        p = OP(i)
        size = u32(order, p + 4)
        x.check(f.reading is False, 'internal: the reading flag is cleared')
        x.check(table is f.object_positions and table.ft is ft, 'internal: the table is unchanged')
        same_dict(x, f.modified_objects, mod, 'loading registers nothing as modified')
        if st == 'ok' and r is None:
            x.check(idx == 0, 'only index 0 gives no object')
        if bool(idx == 0):
            x.check(st == 'ok' and r is None, 'index 0 is the null reference')
            x.check(not F.ops, 'internal: the null reference needs no file access')
            return same_dict(x, f.object_cache, cache, 'the null reference leaves the cache alone')
        if bool(mkbool(cached)):
            x.check(st == 'ok' and isinstance(r, ghost.Tok), 'an object that is loaded is given')
            x.check(mkbool(r.t == z3.Select(cache.val, i)), 'the loaded object is given')
            x.check(not F.ops and not reg.made, 'internal: an object that is loaded is not read again')
            return same_dict(x, f.object_cache, cache, 'the cache stays as it is')
        left = z3.Int('bytes taken') < size
        if fast is not None:
            # the compiled reader does not say how much it has read
            left = z3.And(left, z3.Not(z3.Bool('the class has a compiled reader')))
        bad = z3.Or(i >= it(n), p + 8 > F.LEN, p + 8 + size > F.LEN, z3.Not(z3.Bool('the class is known')),
                    z3.Bool('the record is refused'), left)
        if st == 'raised':
            x.check(mkbool(bad), 'a well-formed object loads: %s' % type(r).__name__)
            return same_dict(x, f.object_cache, cache, 'a failed load leaves nothing behind')
        x.check(mkbool(i < it(n)), 'an index outside the table is refused')
        x.check(mkbool(p + 8 <= F.LEN), 'a chunk header cut short is refused')
        x.check(mkbool(p + 8 + size <= F.LEN), 'a record cut short is refused')
        x.check(mkbool(z3.Bool('the class is known')), 'an unknown class is refused')
        x.check(mkbool(z3.Not(left)), 'left over bytes are refused')
        x.check(len(reg.made) >= 1 and r in reg.made, 'the object is an instance of the class of the chunk')
        for c in reg.asked + (fast.asked if fast else []):
            x.check(c == fourcc_at(order, p), 'the class code is the one of the chunk')
        is_slice(x, r.data, p + 8, size, 'the object reads exactly its record')
        x.check(r.root is f, 'a loaded object belongs to the file')
        x.check(r.instance_id is not None and r.instance_id == idx, 'a loaded object knows its index')
        cache[idx] = r
        same_dict(x, f.object_cache, cache, 'the object is kept under its index')
    return prop


def chunk(order):
    """read_chunk: the class code, position and size of the chunk of an object"""
    def prop(x, e):
        f = loaded_file(x, e, order)
        idx = SymZ(z3.Int('index'))
        i, F, n = idx.t, f.f, f.object_positions.n
        x.assume_t(i >= 0)
        st, c = attempt(x, f.read_chunk, idx)
        if bool(idx == 0):
            return x.check(st == 'ok' and c is f.root_chunk, 'chunk 0 is the header')
        p = OP(i)
        if st == 'raised':
            return x.check(mkbool(z3.Or(i >= it(n), p + 8 > F.LEN)), 'the chunk of an object is found')
        size = u32(order, p + 4)
        x.check(mkbool(z3.And(i < it(n), p + 8 <= F.LEN)), 'a chunk that is not there is refused')
        x.check(c.class_id == fourcc_at(order, p), 'class code of the chunk')
        x.check(c.pos == Z(p + 8), 'position of the record of the chunk')
        x.check(mkbool(it(c.size) == size), 'size of the chunk')
        x.check(c.root is f, 'file of the chunk')
        b = c.read()
        m = z3.If(p + 8 + size <= F.LEN, size, F.LEN - p - 8)
        is_slice(x, b, p + 8, m, 'the chunk reads its record')
    return prop


# ------------------------------------------------------------------------------------------------ header

def chunks(x, e):
    """chunks yields the chunk of the header and of every object, in order"""
    n = z3.Int('positions')
    x.assume_t(n >= 0)
    g = types.SimpleNamespace(count=z3.IntVal(0))

    class File(e.file.AVBFile):
        def read_chunk(self, i):
            return ghost.Tok(z3.Function('CHUNK', I, I)(it(i)))
    f = File.__new__(File)
    f.object_positions = GArr(SymZ(n), lambda j: OP(j))

    def heap(x, k):
        g.count = x.fresh_int('yielded')
    x.loops = {'AVBFile.chunks#0': LoopSpec({}, lambda x, v: [mkbool(g.count == zt(v.k))], heap=heap)}
    for c in f.chunks():
        x.check(isinstance(c, ghost.Tok) and mkbool(c.t == z3.Function('CHUNK', I, I)(g.count)), 'the chunks come in order')
        g.count = g.count + 1
    x.check(mkbool(g.count == n), 'every chunk is given')


def by_class(x, e):
    """iter_class_ids yields the objects whose class code is asked for, every one of them, in order"""
    n, J = z3.Int('positions'), z3.Int('J')
    x.assume_t(z3.And(n >= 0, J >= 0, J < n))
    CB = [z3.Function('CODE%d' % i, I, z3.BitVecSort(8)) for i in range(4)]
    codes = [b'CMPO', b'SCLP']
    g = types.SimpleNamespace(last=z3.IntVal(-1), seen=z3.BoolVal(False))

    def match(k):
        return z3.Or([z3.And([CB[i](k) == c[i] for i in range(4)]) for c in codes])

    class File(e.file.AVBFile):
        def chunks(self):
            return SymSeq(SymZ(n), lambda k: types.SimpleNamespace(class_id=SymBuf([CB[i](zt(k)) for i in range(4)], bytes)))

        def read_object(self, i):
            o = ghost.Tok(z3.Function('OBJECT', I, I)(it(i)))
            o.at = it(i)
            return o
    f = File.__new__(File)
    f.object_positions = GArr(SymZ(n), lambda j: OP(j))

    def heap(x, k):
        g.last, g.seen = x.fresh_int('last'), z3.Bool('seen')

    def inv(x, v):
        k = zt(v.k)
        return [mkbool(z3.And(g.last >= -1, g.last < k)), mkbool(g.seen == z3.And(J < k, match(J)))]
    x.loops = {'AVBFile.iter_class_ids#0': LoopSpec({}, inv, heap=heap)}
    for o in f.iter_class_ids(codes):
        x.check(isinstance(o, ghost.Tok) and hasattr(o, 'at'), 'objects of the file are given')
        x.check(mkbool(z3.And(o.at >= 0, o.at < n, match(o.at))), 'only objects of the classes asked for are given')
        x.check(mkbool(o.at > g.last), 'the objects come in order, each once')
        g.last = o.at
        g.seen = z3.Or(g.seen, o.at == J)
    x.check(mkbool(z3.Implies(match(J), g.seen)), 'every object of the classes asked for is given')


def header(x, order, n, root, ts, timestr, version):
    """the documented header; version: 30 bytes"""
    def c4(v):
        return v[::-1] if order == 'little' else v

    def num(v, w):
        return items_of(x.enc_int(v, w, False, order))
    out = items_of(b'\x06\x00' if order == 'little' else b'\x00\x06')
    out += items_of(b'Domain') + items_of(c4(b'OBJD')) + num(7, 2) + items_of(b'AObjDoc') + items_of(b'\x04')
    out += num(19, 2) + timestr
    cp = len(out) if not any(isinstance(i, Opaque) for i in out) else 43
    out += num(n, 4) + num(root, 4) + items_of(b'IIII' if order == 'little' else b'MMMM') + num(ts, 4) + num(0, 4)
    out += items_of(c4(b'ATob') + c4(b'ATve')) + num(30, 2) + version + items_of(bytes(16))
    return out, cp


HEAD = 2 + 6 + 4 + 2 + 7 + 1 + 2 + 19 + 4 * 5 + 8 + 2 + 30 + 16


class Version(Sym):
    """a version text with an encoding of n bytes"""

    def __init__(self, b):
        self.b = b

    def encode(self, encoding='utf-8', errors='strict'):
        if canon_enc(encoding) != canon_enc('macroman') or errors != 'strict':
            raise Unsupported('another encoding')
        return SymBuf(self.b)

    def __eq__(self, o):
        return False

    def __bool__(self):
        return bool(self.b)


class SaveTime(SymTime):
    def strftime(self, fmt):
        x = CUR.x
        return Version([z3.BitVec('time text %s[%d]' % (fmt, i), 8) for i in range(19)])


TIMEFMT = '%Y/%m/%d %H:%M:%S'
VERSIONS = list(range(31)) + [31, 32, 33, 64, 255]


def write_header(order):
    def prop(x, e):
        F = e.file.AVBFile
        f = F.__new__(F)
        f.octx, f.ictx = e.ioctx.AVBIOContext(order), None
        ts = x.bits('ts', 32)
        f.last_save = SaveTime(ts, 0)
        n = x.choose('version length', VERSIONS)
        vb = [z3.BitVec('version[%d]' % i, 8) for i in range(n)]
        f.creator_version = Version(vb)
        out = x.stream()
        pos = f.write_header(out)
        want, cp = header(x, order, 0, 0, ts, [z3.BitVec('time text %s[%d]' % (TIMEFMT, i), 8) for i in range(19)],
                          (vb + items_of(b' ' * 30))[:30])
        x.check(len(out.items) == HEAD, 'length of the header')
        x.check(out.getvalue() == SymBuf(want), 'bytes of the header')
        x.check(pos == cp, 'internal: place of the number of objects')
        x.check(out.tell() == HEAD, 'the header is followed by the chunks')
    return prop


def opened(x, e, gf, calls, **kw):
    """runs __init__ on the ghost file; -> (file, status, result)"""
    P = z3.Function('P', I, I)
    J = z3.Int('J')

    class File(e.file.AVBFile):
        def read_object(self, index):
            calls.append(index)
            return ghost.Tok(z3.Int('content'))
    f = File.__new__(File)
    order = {}

    def o():
        return f.ictx.byte_order

    place = []

    def table(v):
        """the table filled by the loop: of full length from the start, or made longer turn by turn"""
        t = f.__dict__.get('object_positions')
        ts = [t] if t is not None else [y for y in vars(v).values() if isinstance(y, GArr)]
        if len(ts) != 1 or not isinstance(ts[0], GArr):
            raise Unsupported('the table of positions is not found')
        return ts[0]

    def heap(x, k):
        x.n += 1
        a = z3.Function('table!%d' % x.n, I, I)
        t, grows = place
        t.ft = lambda j: a(j)
        if grows:
            t.n = SymZ(it(k) + 1)
        gf.pos = SymZ(x.fresh_int('pos'))

    def inv(x, v):
        k = zt(v.k)
        t = table(v)
        if v.phase == 'init':
            x.assume_t(P(0) == it(gf.pos))
            place[:] = [t, z3.is_int_value(z3.simplify(it(t.n)))]
        x.assume_t(z3.And(P(k + 1) == P(k) + 8 + u32(o(), P(k) + 4)))
        return [mkbool(it(gf.pos) == P(k)), mkbool(P(k) >= 0), mkbool(z3.Implies(z3.And(J >= 0, J < k), t.ft(J + 1) == P(J))), mkbool(t.ft(z3.IntVal(0)) == 0),
                mkbool(it(t.n) == (zt(v.k) if place[1] else it(v.n)) + 1), mkbool(z3.Implies(J >= 0, z3.Implies(J < k, P(J) + 8 <= gf.LEN)))]
    x.loops = {'AVBFile.__init__#0': LoopSpec({}, inv, heap=heap)}
    e.file.READERS = {b'TEST': None}
    st, r = attempt(x, e.file.AVBFile.__init__, f, gf, **kw)
    return f, st, r, P, J


def open_saved(order, ext=True):
    """a file that starts with a header as written: same values, every chunk at its true position"""
    def prop(x, e):
        from .fixed import BYT, enc_dec
        n, root, ts = x.bits('count', 32), x.bits('root', 32), x.bits('ts', 32)
        vt = z3.Const('version', BYT)
        pre, cp = header(x, order, n, root, ts, [Opaque(z3.Const('save time', BYT), 19)], [Opaque(vt, 30)])
        gf = GFile(x, pre)
        x.check(gf.plen == HEAD, 'length of the header')
        x.assume_t(gf.LEN < 2 ** 60)
        calls = []
        f, st, r, P, J = opened(x, e, gf, calls, **({} if ext else {'use_ext': False}))
        N = it(n)
        if st == 'raised':
            if x.turn is None:
                x.fail('a header as written is accepted: %s %s' % (type(r).__name__, r))
            k = x.turn.k
            return x.check(mkbool(z3.Or(P(k) + 8 > gf.LEN, P(k) >= 2 ** 60)), 'a chunk table as written is accepted: %s %s' % (type(r).__name__, r))
        t = f.object_positions
        x.check(mkbool(it(t.n) == N + 1), 'one position for every object')
        x.check(mkbool(z3.Implies(z3.And(J >= 0, J < N), t.ft(J + 1) == P(J))), 'every chunk is at its true position')
        x.assume_t(z3.Implies(N > 0, P(0) == HEAD))
        x.check(mkbool(z3.Implies(z3.And(J >= 0, J < N), P(J) + 8 <= gf.LEN)), 'a chunk table cut short is refused')
        x.check(f.ictx.byte_order == order, 'byte order')
        if not ext:
            x.check(f.fast_readers is not e.file.READERS and not f.fast_readers, 'the compiled reader is not used if it is not wanted')
        elif order == 'big':
            x.check(f.fast_readers is not e.file.READERS and not f.fast_readers, 'the compiled reader is not used for big-endian files')
        else:
            x.check(f.fast_readers is e.file.READERS, 'the compiled reader is used if there is one')
        x.check(f.root_index == root, 'index of the root object')
        x.check(isinstance(f.last_save, SymTime) and f.last_save.ts == ts, 'save time')
        x.check(isinstance(f.creator_version, StrVal) and mkbool(f.creator_version.t == enc_dec('macroman')[1](vt)), 'creator version')
        x.check(len(calls) == 1 and calls[0] == root, 'internal: the root object is loaded')
        x.check(isinstance(f.content, ghost.Tok), 'the content is the root object')
        x.check(mkbool(it(f.next_object_id) >= N), 'new objects get numbers of their own')
        x.check(f.root_chunk.class_id == b'OBJD' and f.root_chunk.pos == 8 and f.root_chunk.size == HEAD - 8, 'the header chunk')
        x.check(f.reading is False and f.octx is None and not any(True for _ in ()), 'internal: state of a file just opened')
        q = x.fresh_int('q')
        for d in (f.object_cache, f.modified_objects):
            if type(d) is ghost.GDict:
                x.check(mkbool(z3.Not(z3.Select(d.pres, q))), 'nothing is loaded or modified at first')
            else:
                x.check(not d, 'nothing is loaded or modified at first')
    return prop


def refuse(first):
    return lambda x, e: refuse_(x, e, first)


def refuse_(x, e, first):
    """whatever is accepted has the marks of an Avid bin"""
    from .fixed import enc_dec, STR
    x.ex.quant = True            # undecided feasibility counts as feasible
    gf = GFile(x)
    x.assume_t(gf.LEN < 2 ** 60)
    x.assume_t((BYTE(0) == 6) if first else (BYTE(0) != 6))
    f, st, r, P, J = opened(x, e, gf, [])
    if st == 'raised':
        return
    le = bytes_at(0, 2) == b'\x06\x00'
    be = bytes_at(0, 2) == b'\x00\x06'
    x.check(lor(le, be), 'another byte order mark is refused')
    order = f.ictx.byte_order
    x.check(le if order == 'little' else be, 'byte order')
    x.check(bytes_at(2, 6) == b'Domain', 'another magic is refused')
    x.check(fourcc_at(order, 8) == b'OBJD', 'another first chunk is refused')
    s1 = u16(order, z3.IntVal(12))
    t1 = Slice(z3.IntVal(14), s1)
    x.check(mkbool(enc_dec('macroman')[1](t1.t) == z3.Const('literal AObjDoc', STR)), 'another document name is refused')
    p = z3.IntVal(14) + s1
    x.check(bytes_at(p, 1) == b'\x04', 'another version mark is refused')
    s2 = u16(order, p + 1)
    p = z3.simplify(p + 3 if bool(unpack_int([BYTE(z3.simplify(p + 1 + i)) for i in range(2)], False, order) >= 65535) else p + 3 + s2)
    x.check(lor(bytes_at(p + 8, 4) == b'IIII', bytes_at(p + 8, 4) == b'MMMM'), 'another integer mark is refused')
    x.check(fourcc_at(order, p + 20) == b'ATob', 'another mark is refused (ATob)')
    x.check(fourcc_at(order, p + 24) == b'ATve', 'another mark is refused (ATve)')
    x.check(mkbool(p + 30 <= gf.LEN), 'a header cut short is refused')
    x.check(mkbool(it(f.object_positions.n) == u32(order, p) + 1), 'number of objects')
    x.check(mkbool(it(f.root_index) == u32(order, p + 4)), 'index of the root object')


# ------------------------------------------------------------------------------------------------ saving

def record_of(x, name='record'):
    """what an object writes: any bytes"""
    from .fixed import BYT
    n = z3.Int(name + ' length')
    x.assume_t(n >= 0)
    return SymBuf([Opaque(z3.Const(name, BYT), n), z3.BitVec(name + ' last byte', 8)])


class GBuffer:
    """io.BytesIO() an object writes to"""

    def __init__(self):
        self.items = []

    def write(self, d):
        self.items += items_of(d)

    def getvalue(self):
        return SymBuf(self.items)


def write_object(order):
    def prop(x, e):
        F = e.file.AVBFile
        f = F.__new__(F)
        f.octx, f.ictx = e.ioctx.AVBIOContext(order), None
        foreign = x.branch(z3.Bool('foreign'))
        g = F.__new__(F)
        g.octx = None if x.branch(z3.Bool('other file not being saved')) else e.ioctx.AVBIOContext(order)
        cc = x.buf('class code', 4)
        empty = x.branch(z3.Bool('empty record'))
        rec = SymBuf([]) if empty else record_of(x)

        class Obj:
            root = g if foreign else f
            class_id = cc
            calls = 0

            def write(self, b):
                if x.branch(z3.Bool('the object cannot be written')):
                    raise GhostError('refused')
                b.write(rec)
        out = x.stream(x.buf('before', 3))
        out.seek(3)
        st, r = attempt(x, f.write_object, out, Obj())
        ok = not empty and not x.branch(rec.items[-1] != 3) and not foreign
        if st == 'raised':
            n = it(rec.symlen())
            if ok:
                x.check(mkbool(z3.Or(z3.Bool('the object cannot be written'), n >= 2 ** 32)), 'an object is written: %s %s' % (type(r).__name__, r))
            return
        x.check(not foreign, 'an object of another file is refused')
        x.check(ok, 'a record without end marker is refused')
        x.check(mkbool(z3.Not(z3.Bool('the object cannot be written'))), 'an object that cannot be written is refused')
        its = out.items
        x.check(SymBuf(its[:3]) == x.buf('before', 3), 'what is there before stays')
        x.check(len(its) > 7 and SymBuf(its[3:7]) == SymBuf(cc.items[::-1] if order == 'little' else cc.items), 'class code of the chunk')
        x.check(isinstance(its[7], Chunk) and (its[7].w, its[7].signed, its[7].order) == (4, False, order) and mkbool(
            it(its[7].v) == it(rec.symlen())), 'the size of the chunk is the length of the record')
        x.check(SymBuf(its[8:]) == rec, 'the chunk holds the record')
    return prop


class GOut:
    """contract of a file opened for writing: END bytes so far; chunks are appended by the contract of write_object"""

    def __init__(self, x):
        self.x, self.pos, self.end, self.patches, self.other = x, SymZ(z3.IntVal(0)), SymZ(z3.IntVal(0)), [], []
        self.count, self.ch, self.closed = z3.IntVal(0), z3.K(I, z3.IntVal(-1)), False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def close(self):
        self.closed = True

    def tell(self):
        return self.pos

    def seek(self, p, whence=0):
        self.pos = SymZ(it(p) if whence == 0 else it(self.pos) + it(p) if whence == 1 else it(self.end) + it(p))
        return self.pos

    def write(self, data):
        for i in items_of(data):
            w = i.w if isinstance(i, Chunk) else i.n if isinstance(i, Opaque) else 1
            self.patches.append((self.pos, i))
            self.pos = self.pos + Z(z3.IntVal(w) if isinstance(w, int) else w)
            if not bool(self.pos <= self.end):
                self.other.append(i)
                self.end = self.pos


ID, SRC, PV = z3.Function('ID', I, I), z3.Function('SRC', I, I), z3.Function('PV', I, I)
TG = z3.Function('TG', I, z3.BoolSort())


def save(order):
    """AVBFile.write: every object of the walk once, numbered in order of first appearance"""
    def prop(x, e):
        x.ex.quant = True
        ghost.Space.make, ghost.Space.numbers = SymZ, True
        m = z3.Int('m')
        j, q, r = z3.Ints('j! q! r!')
        T = z3.Int('T')
        sel = z3.Select
        # contract of walk_references: m objects, the content last; what an object refers to comes before it
        x.assume_t(z3.And(m >= 1, m < 2 ** 32 - 1))
        x.assume_t(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.And(SRC(ID(j)) >= 0, SRC(ID(j)) <= j, ID(SRC(ID(j))) == ID(j))),
                             patterns=[ID(j)]))
        x.assume_t(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m, TG(ID(j))), z3.And(PV(j) >= 0, PV(j) < j, ID(PV(j)) == T)), patterns=[ID(j)]))
        x.assume_t(SRC(ID(m - 1)) == m - 1)          # the content refers to no object that refers to it

        class W:
            def __init__(self, i):
                self.i, self.instance_id, self.class_id = i, SymZ(ID(i)), b'CLSS'
                self.root = None
        H, cp = z3.Int('header end'), z3.Int('count place')
        x.assume_t(z3.And(cp >= 0, cp + 8 <= H))
        out = GOut(x)

        class File(e.file.AVBFile):
            def write_header(self, f):
                x.check(f is out and self.octx is not None and self.octx.byte_order == order, 'internal: the header is written to the file')
                x.check(out.end == 0 and out.pos == 0, 'internal: the header comes first')
                out.pos = out.end = SymZ(H)
                return SymZ(cp)

            def write_object(self, f, obj):
                x.check(f is out, 'internal: objects are written to the file')
                x.check(out.pos == out.end, 'internal: a chunk follows the chunk before')
                k = obj.i
                M = self.ref_mapping
                # what it refers to is already there
                x.check(mkbool(z3.Implies(TG(ID(k)), sel(mapped(M), T))), 'an object is stored after what it refers to')
                if x.branch(z3.Bool('write fails!%d' % x.n)):
                    raise GhostError('refused')
                n = x.fresh_int('length')
                x.assume_t(n >= 0)
                out.count = out.count + 1
                out.ch = z3.Store(out.ch, out.count, ID(k))
                out.pos = out.end = out.end + SymZ(n + 8)

        def mapped(M):
            if type(M) is ghost.GDict:
                return M.pres
            if type(M) is dict:
                a = z3.K(I, z3.BoolVal(False))
                for k in M:
                    a = z3.Store(a, it(k), True)
                return a
            raise Unsupported('another mapping')

        def value(M):
            if type(M) is ghost.GDict:
                return M.val
            a = z3.K(I, z3.IntVal(-1))
            for k in M:
                a = z3.Store(a, it(k), it(M[k]))
            return a
        f = File.__new__(File)
        f.ictx, f.octx = None, None
        # whatever was saved before
        if x.branch(z3.Bool('saved before')):
            f.next_chunk_id = SymZ(x.fresh_int('chunks before'))
            f.ref_mapping = ghost.arbitrary_dict(x, ghost.GDict.__new__(ghost.GDict), 'mapping before')
        content = ghost.Tok(z3.Int('content'))
        f.content = content
        walks = []

        def walk(o):
            walks.append(o)
            return SymSeq(SymZ(m), lambda i: W(zt(i)))
        e.file.walk_references = e.core.walk_references = walk

        def heap(x, k):
            d = ghost.GDict.__new__(ghost.GDict)
            d.pres, d.val = z3.Const('map.pres', z3.ArraySort(I, z3.BoolSort())), z3.Const('map.val', z3.ArraySort(I, I))
            f.ref_mapping = d
            out.count, out.ch = x.fresh_int('count'), z3.Const('chunks', z3.ArraySort(I, I))
            out.pos = SymZ(x.fresh_int('pos'))
            out.end = SymZ(x.fresh_int('end'))
            f.next_chunk_id = SymZ(x.fresh_int('next'))

        def inv(x, v):
            k, c, ch = zt(v.k), out.count, out.ch
            p, val = mapped(f.ref_mapping), value(f.ref_mapping)
            fa = z3.ForAll
            return [mkbool(b) for b in (
                z3.And(c >= 0, c <= k, it(f.next_chunk_id) == c),
                z3.And(it(out.pos) == it(out.end), it(out.end) >= H),
                fa([j], z3.Implies(z3.And(j >= 0, j < k), sel(p, ID(j))), patterns=[ID(j)]),
                fa([q], z3.Implies(sel(p, q), z3.And(SRC(q) >= 0, SRC(q) < k, ID(SRC(q)) == q)), patterns=[sel(p, q)]),
                fa([q], z3.Implies(sel(p, q), z3.And(sel(val, q) >= 1, sel(val, q) <= c, sel(ch, sel(val, q)) == q)), patterns=[sel(p, q)]),
                fa([q], z3.Implies(z3.And(q >= 1, q <= c), z3.And(sel(p, sel(ch, q)), sel(val, sel(ch, q)) == q)), patterns=[sel(ch, q)]),
                fa([q, r], z3.Implies(z3.And(sel(p, q), sel(p, r), SRC(q) < SRC(r)), sel(val, q) < sel(val, r)),
                   patterns=[z3.MultiPattern(sel(p, q), sel(p, r))]),
            )] + [not out.patches and not out.other]
        x.loops = {'AVBFile.write#0': LoopSpec({}, inv, heap=heap)}
        st, ex = attempt(x, f.write, out, order)
        x.check(out.closed, 'the file is closed')
        if st == 'raised':
            x.check(isinstance(ex, GhostError), 'saving fails only if an object cannot be written: %s %s' % (type(ex).__name__, ex))
            return
        x.check(len(walks) == 1 and walks[0] is content, 'internal: the objects are those of the content')
        c, ch, p, val = out.count, out.ch, mapped(f.ref_mapping), value(f.ref_mapping)
        J = x.fresh_int('J')
        K = x.fresh_int('K')
        one = z3.And(J >= 0, J < m)
        x.check(mkbool(z3.Implies(one, z3.And(sel(val, ID(J)) >= 1, sel(val, ID(J)) <= c, sel(ch, sel(val, ID(J))) == ID(J)))), 'every object is stored')
        x.check(mkbool(z3.Implies(z3.And(J >= 1, K >= 1, J < K, K <= c), sel(ch, J) != sel(ch, K))), 'every object is stored once')
        x.check(mkbool(z3.Implies(z3.And(J >= 1, J <= c), z3.And(SRC(sel(ch, J)) >= 0, SRC(sel(ch, J)) < m))), 'nothing else is stored')
        x.check(mkbool(z3.Implies(z3.And(one, TG(ID(J))), z3.And(sel(val, T) >= 1, sel(val, T) < sel(val, ID(J))))),
                'an object is stored after what it refers to')
        # the header
        x.check(not out.other, 'nothing else is written')
        flat = []
        for pos, i in out.patches:
            x.check(isinstance(i, Chunk) and (i.w, i.signed, i.order) == (4, False, order), 'the counts are numbers of four bytes')
            flat.append((pos, i.v))
        seen = [False, False]
        for pos, v in flat:
            at0, at4 = bool(pos == SymZ(cp)), bool(pos == SymZ(cp + 4))
            x.check(at0 or at4, 'only the counts of the header are overwritten')
            if at0:
                seen[0] = v
            else:
                seen[1] = v
        x.check(seen[0] is not False and mkbool(it(seen[0]) == c), 'number of objects in the header')
        x.check(seen[1] is not False and mkbool(it(seen[1]) == sel(val, ID(m - 1))), 'index of the root object in the header')
    return prop



# ------------------------------------------------------------------------------------------------ concrete runs

def parse(data):
    """independent reader of the file structure -> dict, or None if it is no such file"""
    if data[:2] == b'\x06\x00':
        o = '<'
    elif data[:2] == b'\x00\x06':
        o = '>'
    else:
        return None
    try:
        p = [2]

        def take(n):
            b = data[p[0]:p[0] + n]
            if len(b) != n:
                raise ValueError
            p[0] += n
            return b

        def num(c):
            return struct.unpack(o + c, take(struct.calcsize(o + c)))[0]

        def code():
            b = take(4)
            return b[::-1] if o == '<' else b

        def text():
            n = num('H')
            return take(n) if n < 65535 else b''
        if take(6) != b'Domain' or code() != b'OBJD' or text().strip(b'\0') != b'AObjDoc' or take(1) != b'\x04':
            return None
        d = dict(order='little' if o == '<' else 'big', time=text())
        d['count_pos'] = p[0]
        d['count'], d['root'] = num('I'), num('I')
        mark = num('I')
        if mark not in (0x49494949, 0x4D4D4D4D):
            return None
        d['mark'] = mark
        d['ts'] = num('I')
        take(4)
        if code() != b'ATob' or code() != b'ATve':
            return None
        d['version'] = text()
        d['reserved'] = take(16)
        d['start'] = p[0]
        d['chunks'] = []
        for i in range(d['count']):
            pos = p[0]
            c, n = code(), num('I')
            d['chunks'].append((pos, c, n, take(n)))
        d['end'] = p[0]
        return d
    except ValueError:
        return None


def reachable(e, root):
    """the objects reachable from root, by their property data (own traversal, no recursion)"""
    seen, todo, edges = {}, [root], {}
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen[id(o)] = o
        out = []
        vals = [o]
        helpers = set()
        while vals:
            v = vals.pop()
            if v is not o and isinstance(v, e.utils.AVBObjectRef):
                v = v.value
            if v is None:
                continue
            if v is not o and getattr(v, 'class_id', None):
                out.append(v)
                continue
            if isinstance(v, dict):
                vals += list(v.values())
            elif isinstance(v, (list, tuple)):
                vals += list(v)
            elif hasattr(v, 'property_data') and id(v) not in helpers:
                helpers.add(id(v))
                vals += list(v.property_data.values())
        edges[id(o)] = out
        todo += out
    return seen, edges


def random_time(r):
    import datetime
    return datetime.datetime.fromtimestamp(r.choice([0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, r.randrange(2 ** 32)]))


def build(e, r):
    f = identprops.sample_file(e, r)
    for i in range(r.randrange(0, 3)):
        f.content.add_mob(f.create.Composition(name=u'm%d' % i, mob_type='CompositionMob'))
    f.last_save = random_time(r)
    f.creator_version = r.choice([u'', u'pyavb 0.1.0', u'\xe9t\xe9', u'x' * 29, u'y' * 30, u'z' * 31, u'w' * 300])
    return f


def c_saved(x, e):
    """a saved file, parsed independently, describes its contents; opening it gives them back"""
    import datetime
    r = x.rng
    f = build(e, r)
    order = r.choice(ORDERS)
    if r.random() < .3:                       # reopened and saved again
        f = identprops.reopen(e, identprops.save(f, r.choice(ORDERS)))
        f.read_object(r.randrange(1, len(f.object_positions)))
        m = next(iter(f.content.mobs))
        m.name = u'again'
        if r.random() < .5:
            f.content.add_mob(f.create.Composition(name=u'new', mob_type='MasterMob'))
    x.note('order', order)
    if r.random() < .3:                       # saved before
        identprops.save(f, r.choice(ORDERS))
    data = identprops.save(f, order)
    d = parse(data)
    x.check(d is not None, 'a saved file has the documented structure')
    x.check(d['order'] == order and d['mark'] == (0x49494949 if order == 'little' else 0x4D4D4D4D), 'byte order marks')
    x.check(d['end'] == len(data), 'the file holds exactly the chunks it announces')
    t = f.last_save.replace(microsecond=0)
    x.check(d['time'].decode('ascii') == t.strftime(TIMEFMT), 'save time text')
    x.check(datetime.datetime.fromtimestamp(d['ts']) == t, 'save time')
    v = f.creator_version.encode('mac-roman')[:30]
    x.check(d['version'] == v + b' ' * (30 - len(v)), 'creator version')
    seen, edges = reachable(e, f.content)
    x.check(d['count'] == len(seen), 'the number of objects written')
    x.check(d['root'] == d['count'], 'the root object is the last one')
    g = identprops.reopen(e, data)
    x.check(list(g.object_positions) == [0] + [c[0] for c in d['chunks']], 'chunk positions')
    x.check(g.root_index == d['root'] and g.last_save == t and g.creator_version.encode('mac-roman') == d['version'].strip(b'\0'), 'header values')
    x.check(type(g.content) is type(f.content), 'the root object')
    cs = list(g.chunks())
    x.check(cs[0].class_id == b'OBJD' and cs[0].pos == 8 and cs[0].pos + cs[0].size == d['start'], 'chunk 0')
    for i, (pos, code, n, body) in enumerate(d['chunks']):
        c = g.read_chunk(i + 1)
        x.check((c.class_id, c.pos, c.size, c.read()) == (code, pos + 8, n, body), 'chunk %d' % (i + 1))
        x.check((cs[i + 1].class_id, cs[i + 1].pos, cs[i + 1].size) == (code, pos + 8, n), 'chunk %d of all' % (i + 1))
        o = g.read_object(i + 1)
        x.check(binascii_parse(c.hex()) == (code, n, body), 'chunk %d in hexadecimal digits' % (i + 1))
        x.check(o.class_id == code and o.instance_id == i + 1, 'object %d' % (i + 1))
        buf = io.BytesIO()
        g.octx = g.ictx
        g.ref_mapping = {k: k for k in range(len(g.object_positions))}
        o.write(buf)
        g.octx = None
        x.check(buf.getvalue() == body, 'the chunk of object %d holds its record' % (i + 1))


    codes = r.sample([b'CMPO', b'SCLP', b'ATTR', b'ABIN', b'SEQU', b'ZZZZ'], r.randrange(4))
    x.check(g.create.Attributes().instance_id > d['count'], 'new objects get numbers of their own')
    got = [o.instance_id for o in g.iter_class_ids(codes)]
    x.check(got == [i + 1 for i, c in enumerate(d['chunks']) if c[1] in codes], 'objects by class code')


def binascii_parse(h):
    b = _binascii.unhexlify(h)
    return b[:4][::-1], struct.unpack('<I', b[4:8])[0], b[8:]


class Sparse:
    """a file of pieces [(position, bytes)], zeros between them"""

    def __init__(self, pieces, size):
        self.pieces, self.size, self.pos = pieces, size, 0

    def seek(self, p, whence=0):
        self.pos = p + (0, self.pos, self.size)[whence]
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        n = max(0, min(n if n is not None and n >= 0 else self.size, self.size - self.pos))
        if n > 1 << 20:
            raise MemoryError
        out = bytearray(n)
        for p, b in self.pieces:
            for i in range(max(p, self.pos), min(p + len(b), self.pos + n)):
                out[i - self.pos] = b[i - p]
        self.pos += n
        return bytes(out)

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def close(self):
        pass


def c_huge(x, e):
    """a file of more than 4 GiB"""
    data = identprops.save(build(e, x.rng), 'little')
    d = parse(data)
    k = next(i for i, c in enumerate(d['chunks']) if c[1] == b'ATTR')
    small = b'RTTA' + struct.pack('<I', d['chunks'][k][2]) + d['chunks'][k][3]
    head = bytearray(data)
    head[d['count_pos']:d['count_pos'] + 4] = struct.pack('<I', d['count'] + 4)
    pieces, p, at = [(0, bytes(head))], len(head), []
    for i in range(3):
        pieces.append((p, b'ZZZZ' + struct.pack('<I', 0xFFFFFFFF - i)))
        at.append(p)
        p += 8 + 0xFFFFFFFF - i
    pieces.append((p, small))
    at.append(p)
    g = e.avb.open(Sparse(pieces, p + len(small))) if hasattr(e, 'avb') else e.file.AVBFile(Sparse(pieces, p + len(small)))
    x.check(list(g.object_positions) == [0] + [c[0] for c in d['chunks']] + at, 'chunk positions beyond 4 GiB')
    o = g.read_object(d['count'] + 4)
    x.check(o.class_id == b'ATTR' and dict(o.items()).keys() == dict(g.read_object(k + 1).items()).keys(), 'an object beyond 4 GiB')


def c_refused(x, e):
    """files that are damaged in the header or cut short"""
    r = x.rng
    data = bytearray(identprops.save(build(e, r), r.choice(ORDERS)))
    d = parse(bytes(data))
    kind = r.choice(['flip', 'cut', 'junk', 'other'])
    if kind == 'flip':
        i = r.randrange(d['start'])
        data[i] ^= 1 << r.randrange(8)
    elif kind == 'cut':
        data = data[:r.randrange(len(data))]
    elif kind == 'junk':
        data = bytearray(r.getrandbits(8) for i in range(r.randrange(200)))
        if r.random() < .5:
            data = bytearray(b'\x06\x00Domain') + data
    else:
        data[d['count_pos']:d['count_pos'] + 4] = struct.pack('<I' if d['order'] == 'little' else '>I', d['count'] + r.choice([1, 2, 255]))
    data = bytes(data)
    x.note('file', '%s %d %s' % (kind, len(data), data[:d['start']].hex()))
    p = parse(data)
    try:
        g = identprops.reopen(e, data)
    except Exception:
        x.check(p is None or p['root'] > p['count'] or kind == 'flip', 'a well-formed file is accepted (%s)' % kind)
        return
    if kind == 'cut':
        # the last record may be cut short: it is refused when it is loaded
        n = len(g.object_positions) - 1
        try:
            for i in range(1, n + 1):
                g.read_object(i)
        except Exception:
            return
        x.fail('a file cut short is refused')
    if p is None:
        x.fail('data that is no such file is refused (%s)' % kind)
    x.check(g.root_index == p['root'] and len(g.object_positions) == p['count'] + 1, 'the header is read as it is (%s)' % kind)
    x.check(g.creator_version.encode('mac-roman') == p['version'].strip(b'\0'), 'creator version (%s)' % kind)



# ------------------------------------------------------------------------------------------------ references

class Root:
    def __init__(self, x, name='root'):
        self.x, self.check_refs, self.debug_copy_refs, self.log = x, True, False, []
        self.n = z3.Int(name + ' table')
        x.assume_t(self.n >= 1)
        self.object_positions = GArr(SymZ(self.n), lambda j: OP(j))

    def read_object(self, i):
        self.log.append(i)
        return ghost.Tok(z3.Function('OBJECT', I, I)(it(i)))


def read_ref(order):
    """a stored reference: null, an object of the table, or refused"""
    def prop(x, e):
        root = Root(x)
        rest = x.buf('rest', 2)
        v = x.bits('index', 32)
        f = x.stream(x.cat(x.enc_int(v, 4, False, order), rest))
        st, r = attempt(x, e.ioctx.AVBIOContext(order).read_object_ref, root, f)
        inside = mkbool(it(v) < root.n)
        if st == 'raised':
            return x.check(lnot(inside), 'a reference inside the table is read')
        x.check(inside, 'a reference outside the table is refused')
        x.check(f.rest() == rest, 'a reference takes four bytes')
        o = r.value
        if bool(v == 0):
            x.check(o is None and not root.log, 'reference 0 is null')
        else:
            x.check(len(root.log) == 1 and root.log[0] == v, 'a reference is resolved in its file')
            x.check(isinstance(o, ghost.Tok) and mkbool(o.t == z3.Function('OBJECT', I, I)(it(v))), 'a reference gives the object at its index')
        x.check(r.valid is True or r.valid == True, 'the reference is valid')
    return prop


def short_ref(order):
    def prop(x, e):
        for n in range(4):
            st, r = attempt(x, e.ioctx.AVBIOContext(order).read_object_ref, Root(x), x.stream(x.buf('S', n) if n else b''))
            x.check(st == 'raised', 'a reference cut short is refused')
    return prop


def write_ref(order):
    """a reference to a stored object is its number; anything else is refused"""
    def prop(x, e):
        x.ex.quant = True
        ghost.Space.make, ghost.Space.numbers = SymZ, True
        root, other = Root(x), Root(x, 'other')
        M = ghost.arbitrary_dict(x, ghost.GDict.__new__(ghost.GDict), 'map')
        root.ref_mapping = M
        other.ref_mapping = ghost.arbitrary_dict(x, ghost.GDict.__new__(ghost.GDict), 'othermap')
        q = z3.Int('q!')
        x.assume_t(z3.ForAll([q], z3.And(z3.Select(M.val, q) >= 1, z3.Select(M.val, q) < 2 ** 32), patterns=[z3.Select(M.val, q)]))
        before = identprops.raw_copy(M)

        class O:
            instance_id = SymZ(z3.Int('id'))
            class_id = b'OBJX'

            def __bool__(self):                   # an empty list or an empty dictionary is an object, too
                return x.branch(z3.Bool('truthy'))
        null = x.branch(z3.Bool('null'))
        foreign = x.branch(z3.Bool('foreign'))
        v = O()
        v.root = other if foreign else root
        f = x.stream()
        st, r = attempt(x, e.ioctx.AVBIOContext(order).write_object_ref, root, f, None if null else v)
        same_dict(x, M, before, 'writing a reference leaves the numbers alone')
        has = z3.Select(M.pres, O.instance_id.t)
        if null:
            x.check(st == 'ok' and f.getvalue() == x.enc_int(0, 4, False, order), 'a null reference is 0')
        elif st == 'raised':
            x.check(mkbool(z3.Or(z3.BoolVal(foreign), z3.Not(has))), 'a reference to a stored object is written')
            x.check(not f.items, 'a refused reference stores nothing')
        else:
            x.check(not foreign, 'an object of another file is refused')
            x.check(mkbool(has), 'an object that is not stored is refused')
            its = f.items
            x.check(len(its) == 1 and isinstance(its[0], Chunk) and (its[0].w, its[0].signed, its[0].order) == (4, False, order) and mkbool(
                it(its[0].v) == z3.Select(M.val, O.instance_id.t)), 'a reference is the number of the object')
    return prop


KIND, ITEM, NIT = z3.Function('KIND', I, I), z3.Function('ITEM', I, I, I), z3.Function('NIT', I, I)
WK, WN, PS = z3.Function('WK', I, I, I), z3.Function('WN', I, I), z3.Function('PS', I, I)
WP, TV, TGT = z3.Function('WP', I, I, I), z3.Function('TV', I, z3.BoolSort()), z3.Function('TGT', I, z3.BoolSort())
IJ, REACH = z3.Function('IJ', I, I), z3.Function('REACH', I, z3.BoolSort())
K_NONE, K_PLAIN, K_OBJ, K_LIST, K_LISTOBJ, K_DICTOBJ, K_HELPER, K_REF = range(8)
NIL = z3.Function('NIL', I, z3.BoolSort())
T_ = z3.Int('T')


def walk(kind):
    """walk_references(obj), recursive calls by contract: every object that obj refers to is yielded before obj, obj comes last,
    whatever is yielded is reachable, and what a yielded object refers to has been yielded before it"""
    def prop(x, e):
        x.ex.quant = True
        i, j = z3.Ints('i! j!')
        g = types.SimpleNamespace(done=z3.BoolVal(False), last=None, n=0)
        fa = z3.ForAll
        # contract of the recursive calls
        x.assume_t(fa([i], WN(i) >= 0, patterns=[WN(i)]))
        x.assume_t(fa([i], z3.Implies(TV(i), z3.And(PS(i) >= 0, PS(i) < WN(i), WK(i, PS(i)) == T_)), patterns=[TV(i)]))
        x.assume_t(fa([i, j], z3.Implies(z3.And(j >= 0, j < WN(i), TGT(WK(i, j))), z3.And(WP(i, j) >= 0, WP(i, j) < j, WK(i, WP(i, j)) == T_)),
                      patterns=[WK(i, j)]))
        x.assume_t(fa([i, j], z3.Implies(z3.And(j >= 0, j < WN(i), REACH(i)), REACH(WK(i, j))), patterns=[WK(i, j)]))
        # what a value refers to
        x.assume_t(fa([i], z3.Implies(z3.Or(KIND(i) == K_NONE, KIND(i) == K_PLAIN), z3.And(z3.Not(TV(i)), WN(i) == 0)), patterns=[KIND(i)]))
        x.assume_t(fa([i], z3.Implies(z3.Or(KIND(i) == K_OBJ, KIND(i) == K_LISTOBJ, KIND(i) == K_DICTOBJ), TV(i) == (i == T_)), patterns=[KIND(i)]))
        x.assume_t(fa([i], z3.Implies(KIND(i) == K_REF, TV(i) == z3.And(i == T_, z3.Not(NIL(i)))), patterns=[KIND(i)]))
        x.assume_t(fa([i], z3.Implies(z3.And(KIND(i) == K_LIST, TV(i)), z3.And(IJ(i) >= 0, IJ(i) < NIT(i), TV(ITEM(i, IJ(i))))), patterns=[KIND(i)]))
        x.assume_t(fa([i], NIT(i) >= 0, patterns=[NIT(i)]))
        x.assume_t(fa([i, j], z3.Implies(z3.And(REACH(i), j >= 0, j < NIT(i)), REACH(ITEM(i, j))), patterns=[ITEM(i, j)]))

        class Node:
            class_id = b'OBJX'

            def __init__(self, t):
                self.pyvc_token = t

            def __getattr__(self, name):
                if name in ('property_data', '__dict__'):
                    raise Unsupported('the walk goes into an object without a call by contract')
                raise AttributeError(name)

        class Helper:
            class_id = None

            def __init__(self, t):
                self.pyvc_token = t
                self.property_data = None

        class List(ghost.GList):
            __slots__ = ('pyvc_token',)

            def pyvc_iter(self):
                t = self.pyvc_token
                s = SymSeq(SymZ(NIT(t)), lambda k: make(ITEM(t, zt(k))))
                return s

        class ListObj(List):
            __slots__ = ()
            class_id = b'LSTX'

        class DictObj(ghost.GDict):
            class_id = b'ATTX'

        class Ref(e.utils.AVBObjectRef):
            __slots__ = ('pyvc_token',)
            value = property(lambda s: node(s.pyvc_token))

        def node(t):
            return None if x.branch(NIL(t)) else Node(t)

        def refy(t):
            r = Ref.__new__(Ref)
            r.pyvc_token = t
            return r

        def listy(c, t):
            l = c.__new__(c)
            l.pyvc_token = t
            return l

        def dicty(t):
            d = DictObj.__new__(DictObj)
            d.pyvc_token = t
            return d
        MK = {K_NONE: lambda t: None, K_PLAIN: lambda t: 7, K_OBJ: Node, K_LIST: lambda t: listy(List, t), K_LISTOBJ: lambda t: listy(ListObj, t),
              K_DICTOBJ: dicty, K_REF: refy, K_HELPER: Helper}

        def make(t):
            t = z3.simplify(t)
            for k in list(MK)[:-1]:
                if x.branch(KIND(t) == k):
                    g.tok = t
                    return MK[k](t)
            x.assume_t(KIND(t) == K_HELPER)
            return Helper(t)

        def contract(v):
            """recursive call"""
            t = getattr(v, 'pyvc_token', None)
            if t is None:
                return SymSeq(SymZ(z3.IntVal(0)), None)
            x.check(mkbool(REACH(t)), 'internal: only what the object holds is walked')
            g.walked = t
            return SymSeq(SymZ(WN(t)), lambda s: Node(WK(t, zt(s))))
        real = e.core.walk_references
        N = z3.Int('N')
        V = z3.Function('V', I, I)
        me = z3.Int('obj')
        x.assume_t(N >= 0)
        values = SymSeq(SymZ(N), lambda k: make(V(zt(k))))
        x.assume_t(fa([i], z3.Implies(z3.And(i >= 0, i < N), REACH(V(i))), patterns=[V(i)]))
        # helper objects (tracks, control points ...) sit in a list of a property, never elsewhere; the items of a list are never
        # bare references (a reference list resolves them)
        x.assume_t(fa([i], KIND(V(i)) != K_HELPER, patterns=[V(i)]))
        x.assume_t(fa([i, j], KIND(ITEM(i, j)) != K_REF, patterns=[ITEM(i, j)]))
        x.assume_t(KIND(z3.IntVal(ghost.NONE)) == K_NONE)
        Kx = z3.Int('K')
        refers = TGT(me) if kind not in ('helper', 'plain list') else TV(me)
        x.assume_t(z3.Implies(refers, z3.And(Kx >= 0, Kx < N, TV(V(Kx)))))
        x.assume_t(z3.And(me != T_, z3.Not(z3.And(KIND(me) == K_NONE))))

        class Props:
            def values(self):
                return values

            def items(self):
                return SymSeq(SymZ(N), lambda k: (ghost.Key(zt(k)), make(V(zt(k)))))

        class L1(ghost.GList):
            __slots__ = ('pyvc_token',)

            def pyvc_iter(self):
                return values

        class L2(L1):
            __slots__ = ()
            class_id = b'LSTX'

        class D1(ghost.GDict):
            class_id = b'ATTX'
            values = Props.values
            items = Props.items
        obj = {'object': lambda: Node(me), 'helper': lambda: Helper(me), 'plain list': lambda: listy(L1, me), 'list object': lambda: listy(L2, me),
               'attributes': lambda: D1.__new__(D1)}[kind]()
        obj.pyvc_token = me
        if kind in ('object', 'helper'):
            obj.property_data = Props()
        has_class = kind not in ('helper', 'plain list')

        def fresh_done(x, k):
            x.n += 1
            g.done = z3.Bool('done!%d' % x.n)
            g.last = None

        def inv0(x, v):
            return [mkbool(z3.Implies(z3.And(refers, Kx < zt(v.k)), g.done))]

        entry = {}

        def inv_list(x, v):
            if v.phase == 'init':
                entry['list'] = g.done, g.tok
            d, t = entry['list']
            return [mkbool(z3.Implies(d, g.done)), mkbool(z3.Implies(z3.And(TV(t), KIND(t) == K_LIST, IJ(t) < zt(v.k)), g.done))]

        def inv_walk(name):
            def inv(x, v):
                if v.phase == 'init':
                    entry[name] = g.done, getattr(g, 'walked', None)
                d, t = entry[name]
                if t is None:
                    return [mkbool(z3.Implies(d, g.done))]
                return [mkbool(z3.Implies(d, g.done)),
                        mkbool(fa([i], z3.Implies(z3.And(i >= 0, i < zt(v.k), WK(t, i) == T_), g.done), patterns=[WK(t, i)]))]
            return inv
        x.loops = {'walk_references#0': LoopSpec({}, inv0, heap=fresh_done), 'walk_references#1': LoopSpec({}, inv_list, heap=fresh_done),
                   'walk_references#2': LoopSpec({}, inv_walk('a'), heap=fresh_done), 'walk_references#3': LoopSpec({}, inv_walk('b'), heap=fresh_done)}
        e.core.walk_references = contract
        try:
            for o in real(obj):
                if o is obj:
                    x.check(has_class, 'an object has a class code')
                    x.check(mkbool(z3.Implies(refers, g.done)), 'what an object refers to comes before it')
                    g.last = o
                    continue
                x.check(isinstance(o, Node) and o is not obj, 'only objects are yielded')
                t = o.pyvc_token
                x.check(mkbool(REACH(t)), 'only reachable objects are yielded')
                x.check(mkbool(z3.Implies(TGT(t), g.done)), 'what a yielded object refers to comes before it')
                g.done = z3.Or(g.done, t == T_)
                g.last = o
        finally:
            e.core.walk_references = real
        x.check(mkbool(z3.Implies(refers, g.done)), 'everything referred to is yielded')
        if has_class:
            x.check(g.last is obj, 'the object itself comes last')
    return prop


def walk_other(x, e):
    for v in (None, 7, u'text', b'bytes', 1.5):
        x.check(list(e.core.walk_references(v)) == [], 'plain values hold no objects')


WALKS = ('object', 'helper', 'plain list', 'list object', 'attributes')


def c_references(x, e):
    """a saved and reopened file has the same graph of objects, each stored once, after what it refers to"""
    r = x.rng
    f = build(e, r)
    order = r.choice(ORDERS)
    if r.random() < .4:
        f = identprops.reopen(e, identprops.save(f, r.choice(ORDERS)))
        if r.random() < .5:
            f.content.add_mob(f.create.Composition(name=u'new', mob_type='MasterMob'))
        m = next(iter(f.content.mobs))
        m.attributes[u'shared'] = m.tracks[0].component
        m.attributes[u'nothing'] = f.create.Attributes()
    seen, edges = reachable(e, f.content)
    if r.random() < .5:                       # saving again, whatever came of the first time
        identprops.save(f, r.choice(ORDERS))
    data = identprops.save(f, order)
    g = identprops.reopen(e, data)
    n = len(g.object_positions) - 1
    x.check(n == len(seen), 'every object is stored once')
    seen2, edges2 = reachable(e, g.content)
    x.check(len(seen2) == n, 'every stored object is reachable')
    # the two graphs are the same
    pair, todo = {id(f.content): g.content}, [f.content]
    while todo:
        a = todo.pop()
        b = pair[id(a)]
        x.check(type(a) is type(b), 'a reference leads to an object of the same class')
        ea, eb = edges[id(a)], edges2[id(b)]
        va, vb = flat(e, a), flat(e, b)
        x.check(len(va) == len(vb), 'as many references in %s' % type(a).__name__)
        for (ka, p), (kb, q) in zip(va, vb):
            x.check(ka == kb and (p is None) == (q is None), 'reference %r of a %s' % (ka, type(a).__name__))
            if p is None:
                continue
            if id(p) in pair:
                x.check(pair[id(p)] is q, 'shared objects stay shared (%r of a %s)' % (ka, type(a).__name__))
            else:
                pair[id(p)] = q
                todo.append(p)
            x.check(q.instance_id < b.instance_id, 'an object is stored after what it refers to')
    x.check(len(pair) == n and len(set(id(v) for v in pair.values())) == n, 'the graphs are the same')


def c_large(x, e):
    """more objects than fit in sixteen bits, in one list and in one file"""
    f = e.file.AVBFile()
    mob = f.create.Composition(name=u'large', mob_type='CompositionMob')
    t = f.create.Track()
    t.index = 1
    n = 66000
    t.component = f.create.Sequence(edit_rate=25, media_kind='picture')
    for i in range(n):
        c = f.create.Filler(edit_rate=25, media_kind='picture')
        c.length = i
        t.component.components.append(c)
    mob.tracks.append(t)
    f.content.add_mob(mob)
    data = identprops.save(f, 'little')
    d = parse(data)
    x.check(d is not None and d['count'] == d['root'] and d['end'] == len(data), 'a saved file has the documented structure')
    x.check(sum(c[1] == b'FILL' for c in d['chunks']) == n, 'every object is stored once')
    g = identprops.reopen(e, data)
    c = next(iter(g.content.mobs)).tracks[0].component.components
    x.check(len(c) == n, 'every reference of a list is stored')
    seen = set()
    for i, k in enumerate(c):
        x.check(k.length == i, 'reference %d of a list' % i)
        seen.add(k.instance_id)
    x.check(len(seen) == n, 'every object is stored once')


def flat(e, o):
    """the references of an object in order of property name: (place, object or None)"""
    out = []

    def go(key, v):
        if isinstance(v, e.utils.AVBObjectRef):
            v = v.value
        if v is None or getattr(v, 'class_id', None):
            out.append((key, v))
        elif isinstance(v, dict):
            for k in sorted(v, key=str):
                go(key + (k,), v[k])
        elif isinstance(v, (list, tuple)):
            for k, w in enumerate(v):
                go(key + (k,), w)
        elif hasattr(v, 'property_data'):
            for k in sorted(v.property_data):
                go(key + (k,), v.property_data[k])
    if isinstance(o, e.attributes.Attributes):
        for k in o:
            go((k,), o[k])
    elif isinstance(o, e.core.AVBRefList):
        for k, w in enumerate(o):
            go((k,), w)
    else:
        for k in sorted(o.property_data):
            go((k,), o.property_data[k])
    # absent and null are the same for a property that is optional
    return [(k, v) for k, v in out if v is not None or len(k) > 1]


def c_foreign(x, e):
    """objects of another file, objects that are not stored and references outside the table are refused"""
    r = x.rng
    f = build(e, r)
    g = build(e, r)
    if r.random() < .5:
        g = identprops.reopen(e, identprops.save(g))
    kind = r.choice(['mob', 'component', 'attribute', 'list', 'track', 'index', 'unstored', 'while saving'])
    x.note('kind', kind)
    m = next(iter(f.content.mobs))
    other = next(iter(g.content.mobs))
    if kind in ('index', 'unstored'):
        ctx = e.ioctx.AVBIOContext(r.choice(ORDERS))
        if kind == 'index':
            h = identprops.reopen(e, identprops.save(f))
            n = len(h.object_positions)
            i = r.choice([n, n + 1, 2 ** 31, 2 ** 32 - 1, n + r.randrange(1000)])
            try:
                ctx.read_object_ref(h, io.BytesIO(ctx_u32(ctx, i)))
            except Exception:
                pass
            else:
                x.fail('a reference outside the table is refused')
            try:
                h.read_object(i)
            except Exception:
                return
            x.fail('an object outside the table is refused')
        f.octx = ctx
        f.ref_mapping = {m.instance_id: 1}
        buf = io.BytesIO()
        try:
            ctx.write_object_ref(f, buf, m.tracks[0].component)
        except Exception:
            x.check(not buf.getvalue(), 'nothing is stored')
            return
        x.fail('an object that is not stored is refused')
    if kind == 'mob':
        m.attributes[u'other'] = other
    elif kind == 'component':
        m.tracks[0].component = other.tracks[0].component
    elif kind == 'attribute':
        m.attributes = other.attributes
    elif kind == 'list':
        m.tracks[0].component.components.append(g.create.Filler())
    elif kind == 'track':
        m.tracks.append(other.tracks[0])
    else:
        m.attributes[u'other'] = other
        g.octx = e.ioctx.AVBIOContext('little')
        g.ref_mapping = {k: 1 for k in range(1000)}
    try:
        data = identprops.save(f)
    except Exception:
        return
    x.fail('an object of another file is refused (%s)' % kind)


def ctx_u32(ctx, i):
    return i.to_bytes(4, ctx.byte_order)


def c_corrupt(x, e):
    """a chunk that is damaged is refused, leaves nothing behind and does not disturb the others"""
    r = x.rng
    data = bytearray(identprops.save(build(e, r), r.choice(ORDERS)))
    d = parse(bytes(data))
    o = d['order']
    n = d['count']
    k = r.randrange(n)
    pos, code, size, body = d['chunks'][k]
    kind = r.choice(['extra', 'cut', 'class', 'end', 'short header', 'start', 'drop end'])
    x.note('damage', '%s of chunk %d %s' % (kind, k + 1, code))

    def head(c, n):
        return (c[::-1] if o == 'little' else c) + n.to_bytes(4, o)
    if kind == 'extra':
        t = r.choice([1, 2, 7])
        data[pos:pos + 8 + size] = head(code, size + t) + body + bytes(t)
    elif kind == 'cut':
        t = r.randrange(1, size + 1)
        data[pos:pos + 8 + size] = head(code, size - t) + body[:size - t]
    elif kind == 'drop end':
        data[pos:pos + 8 + size] = head(code, size - 1) + body[:size - 1]
    elif kind == 'class':
        data[pos:pos + 4] = head(b'ZZZZ', 0)[:4]
    elif kind == 'start':
        data[pos + 8] ^= 1 << r.randrange(8)
    elif kind == 'end':
        data[pos + 8 + size - 1] ^= 1 << r.randrange(8)
        if code == b'DATD':
            return
    else:
        if k != n - 1:
            return
        data = data[:pos + 8 + r.randrange(size)]
    if k == n - 1:                            # the root object: opening fails
        try:
            identprops.reopen(e, bytes(data))
        except Exception:
            return
        x.fail('%s: a damaged root object is refused' % kind)
    g = identprops.reopen(e, bytes(data))
    before = dict(g.object_cache)
    mod = dict(g.modified_objects)
    for again in range(2):
        try:
            g.read_object(k + 1)
        except Exception:
            pass
        else:
            x.fail('%s: a damaged %s is refused' % (kind, code))
    x.check(g.reading is False, 'loading has ended')
    x.check(k + 1 not in g.object_cache and dict(g.object_cache) == before, 'a failed load leaves nothing behind')
    x.check(g.modified_objects == mod, 'a failed load modifies nothing')
    for i in range(n):
        if i != k:
            b = g.read_object(i + 1)
            x.check(b.instance_id == i + 1 and b.class_id == d['chunks'][i][1], 'other objects load')


REF_PROPS = []
for _o in ORDERS:
    REF_PROPS += [('write_object_ref ' + _o, write_ref(_o), 'symbolic'), ('read_object_ref ' + _o, read_ref(_o), 'symbolic'),
                  ('read_object_ref cut short ' + _o, short_ref(_o), 'symbolic'),
                  ('write ' + _o, save(_o), 'symbolic'), ('write_object ' + _o, write_object(_o), 'symbolic'),
                  ('read_object ' + _o, load(_o), 'symbolic')]
REF_PROPS += [('walk_references ' + k, walk(k), 'symbolic') for k in WALKS]
REF_PROPS += [('walk_references plain values', walk_other), ('saved references', c_references, 'concrete'), ('foreign objects', c_foreign, 'concrete'),
              ('large file', c_large, 'once')]
PROPS = []
for _o in ORDERS:
    PROPS += [('read_object ' + _o, load(_o), 'symbolic'), ('read_chunk ' + _o, chunk(_o), 'symbolic'),
              ('write_header ' + _o, write_header(_o), 'symbolic'), ('open ' + _o, open_saved(_o), 'symbolic'),
              ('write_object ' + _o, write_object(_o), 'symbolic'), ('write ' + _o, save(_o), 'symbolic')]
PROPS += [('chunks', chunks, 'symbolic'), ('iter_class_ids', by_class, 'symbolic')]
PROPS += [('refused files, little', refuse(True), 'symbolic'), ('refused files, big', refuse(False), 'symbolic')]
PROPS += [('saved files', c_saved, 'concrete'), ('damaged files', c_refused, 'concrete'), ('huge file', c_huge, 'once')]
PROPS += [('damaged chunks', c_corrupt, 'concrete')]
