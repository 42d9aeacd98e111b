"""Proof that the compiled reader (_ext_core.cpp, _ext.pyx) gives what the record layout says, hence what the plain reader
gives (C01-C05).  The C++ core is translated from clang's AST and the Cython module from its parse tree on every run; the
translated text is run by the same engine, with contracts for the run-time functions of the translation (below)."""
import datetime
import importlib.util
import os
import struct as _struct
import sys
import types
import uuid
import z3
from . import cxx, cyx, cxxrt, driver
from . import contracts as _contracts
from .classproof import ClassVerifier, Failure
from .concrete import *  # noqa: F401,F403
from .interp import Interp, Solver, Sources, State, Frame, raise_, mk_int, mk_bool, int_term, Ctl, is_concrete, NORM
from .prims import as_term, int_t
from .layout import *
from .values import *

TS = z3.Function('timestamp', SORTS['DateTime'], INT)        # seconds since the epoch of a stored time
# rounding operations: equal results for equal operands is all that is used
POW, FMUL, FDIV = (z3.Function('c_' + n, *([z3.RealSort()] * k)) for n, k in (('pow10', 2), ('mul', 3), ('div', 3)))
PREFIX = '''

class Vec(list):
    pass


class Ptr(object):
    def __init__(self, v, i):
        self.v = v
        self.i = i

    def put(self, x):
        bv_set(self.v, self.i, x)
        self.i = self.i + 1

    def set(self, k, x):
        bv_set(self.v, self.i + k, x)

    def step(self, k):
        self.i = self.i + k

'''


def generate(scratch):
    """translate both files; -> (module, core, cython module)"""
    src = os.path.join(driver.SRC, '..')
    core = find(driver.REPO, '_ext_core.cpp')
    pyx = find(driver.REPO, '_ext.pyx')
    text, c = cxx.to_python(core)
    text2, y = cyx.to_python(pyx, c)
    path = os.path.join(os.path.realpath(scratch), 'compiled_reader.py')
    head, _, rest = text.partition('\n')
    with open(path, 'w') as f:
        f.write(head + PREFIX + rest + '\n' + text2)
    spec = importlib.util.spec_from_file_location('compiled_reader', path)
    m = importlib.util.module_from_spec(spec)
    sys.modules['compiled_reader'] = m
    spec.loader.exec_module(m)
    return m, c, y


def find(root, name):
    for d, _, fs in os.walk(os.path.join(root, 'src')):
        if name in fs:
            return os.path.join(d, name)
    raise Unsupported('%s not found' % name)


class ExtInterp(Interp):
    optional = True

    def setup(self, mod):
        self.mod = mod
        self.origin = {}             # term of an unsigned read -> (the signed field it was read from, width)
        self.keep = []
        K = self.contracts
        for n in cxxrt.NAMES:
            h = getattr(self, 'x_' + n, None)
            if h is not None:
                K[getattr(cxxrt, n)] = lambda I, st, a, kw, h=h: h(st, *a, **kw)
        self.unsupported_fns = []
        if hasattr(mod, 'read_mob_id'):
            K[mod.read_mob_id] = lambda I, st, a, kw: self.c_mob_id(st, *a)

    def early(self, v):
        return isinstance(v, int) and not isinstance(v, bool) and v < 0

    # ------------------------------------------------------------ structs
    def record(self, st, name, zero=True):
        at = {}
        for f, k in self.mod.RECORDS[name]:
            if isinstance(k, tuple) and k[0] == 'vec':
                at[f] = st.alloc(HList(self.mod.Vec))
            elif isinstance(k, tuple):
                at[f] = self.record(st, k[1], zero)
            elif k == 'bytes':
                at[f] = self.bytevec(st, SBytes(()), 0)
            elif not zero:
                at[f] = HAVOC
            else:
                at[f] = {'ptr': None, 'int': 0, 'bool': False, 'float': 0.0}[k]
        return st.alloc(HObj(cxxrt.CxxRec, at))

    def bytevec(self, st, b, n):
        return st.alloc(HObj(cxxrt.ByteVec, {'b': b, 'n': n}))

    def x_cxx_unsupported(self, st, msg):
        raise Unsupported('not translated: %s' % (msg,))

    def x_cxx_new(self, st, name):
        s = st.clone()
        return [(s, self.record(s, name))]

    def x_cxx_new_uninit(self, st, name):
        s = st.clone()
        return [(s, self.record(s, name, False))]

    def x_cxx_copy(self, st, x):
        if isinstance(x, Union):
            return self.with_alts(st, x, lambda s, y: self.x_cxx_copy(s, y))
        s = st.clone()
        return [(s, self.copy_sub(s, x, dict(s.heap), (), [], {}))]

    def vec(self, st, v):
        if not (isinstance(v, Ref) and isinstance(st.heap[v.id], HList)):
            raise Unsupported('not a vector: %r' % (v,))
        return st.heap[v.id]

    def x_cxx_resize(self, st, v, n, name):
        rec = self.vec(st, v)
        t = int_term(n)
        have = as_term(self.list_len(rec))
        d = z3.simplify(t - have)
        out = []
        if z3.is_int_value(d) and 0 <= d.as_long() <= 16:
            s = st.clone()
            new = [One(self.record(s, name)) for _ in range(d.as_long())]
            s.heap[v.id] = rec.rep(parts=rec.parts + tuple(new))
            return [(s, None)]
        if rec.parts:
            for s, b in self.fork(st, t == have + 1):
                if not b:
                    raise Unsupported('resize of a vector that is not empty')
                s = s.clone()
                s.heap[v.id] = rec.rep(parts=rec.parts + (One(self.record(s, name)),))
                out.append((s, None))
            return out
        for s, b in self.fork(st, z3.And(t >= 0, t < 2 ** 62)):
            if not b:
                out.append((s, raise_(MemoryError, 'vector of that size')))
                continue
            s = s.clone()
            s.heap[v.id] = rec.rep(parts=(Many(t, lambda s2, k: self.record(s2, name)),))
            out.append((s, None))
        return out

    def x_cxx_bound(self, st, n, most):
        return [(s, n if ok else raise_(IndexError, 'end of record')) for s, ok in self.fork(st, int_term(n) <= most)]

    def x_cxx_last(self, st, v):
        rec = self.vec(st, v)
        if not rec.parts or not isinstance(rec.parts[-1], One):
            raise Unsupported('last element of a vector')
        return [(st, rec.parts[-1].v)]

    def x_cxx_clear(self, st, v):
        s = st.clone()
        s.heap[v.id] = self.vec(st, v).rep(parts=())
        return [(s, None)]

    # ------------------------------------------------------------ numbers
    def x_cxx_int(self, st, b):
        if isinstance(b, bool):
            return [(st, int(b))]
        if isinstance(b, SBool):
            return [(st, mk_int(z3.If(b.t, z3.IntVal(1), z3.IntVal(0))))]
        return [(st, b)]

    def x_cy_bool(self, st, x):
        if isinstance(x, (bool, SBool)):
            return [(st, x)]
        return [(st, mk_bool(int_term(x) != 0))]

    def x_cxx_div(self, st, a, b):
        ta, tb = int_term(a), int_term(b)
        if not self.entails(st, z3.And(ta >= 0, tb > 0)):
            raise Unsupported('division of negative numbers')
        t = z3.simplify(ta)
        d = z3.simplify(tb)
        if z3.is_int_value(d) and z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % d.as_long() == 0:
            return [(st, mk_int(z3.simplify(t / d)))]
        return [(st, mk_int(z3.simplify(ta / tb)))]

    def x_cxx_mod(self, st, a, b):
        ta, tb = int_term(a), int_term(b)
        if not self.entails(st, z3.And(ta >= 0, tb > 0)):
            raise Unsupported('division of negative numbers')
        return [(st, mk_int(z3.simplify(ta % tb)))]

    # doubles of the C++ text: exact numbers; POW(k) is what pow(10.0, k) gives
    def real(self, x):
        if isinstance(x, SReal):
            return x.t
        if isinstance(x, float):
            return z3.RealVal(repr(x))
        raise Unsupported('a double: %r' % (x,))

    def x_cxx_float(self, st, x):
        if isinstance(x, (SReal, float)):
            return [(st, x)]
        t = int_term(x)
        if t is None:
            raise Unsupported('conversion of %r to double' % (x,))
        return [(st, SReal(z3.ToReal(t)))]

    def x_cxx_fadd(self, st, a, b):
        return [(st, SReal(self.real(a) + self.real(b)))]

    def x_cxx_fsub(self, st, a, b):
        return [(st, SReal(self.real(a) - self.real(b)))]

    def x_cxx_fmul(self, st, a, b):
        return [(st, SReal(FMUL(self.real(a), self.real(b))))]

    def x_cxx_fdiv(self, st, a, b):
        return [(st, SReal(FDIV(self.real(a), self.real(b))))]

    def x_cxx_pow(self, st, a, b):
        if not self.entails(st, self.real(a) == 10):
            raise Unsupported('pow of %r' % (a,))
        return [(st, SReal(POW(self.real(b))))]

    def x_wrap(self, st, x, bits, signed):
        if isinstance(x, Union):
            return self.with_alts(st, x, lambda s, y: self.x_wrap(s, y, bits, signed))
        m, h = 1 << bits, 1 << (bits - 1)
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int):
            x %= m
            return [(st, x - m if signed and x >= h else x)]
        t = int_term(x)
        if t is None or isinstance(x, (SReal, SBool)):
            raise Unsupported('conversion of %r' % (x,))
        o = self.origin.get(t.get_id())
        if o is not None and signed and o[1] == bits:
            return [(st, mk_int(o[0]))]
        if o is not None and not o[2] and (bits > o[1] or bits == o[1] and not signed):
            return [(st, x)]
        lo, hi = (-h, h) if signed else (0, m)
        if self.entails(st, z3.And(t >= lo, t < hi)):
            return [(st, x)]
        if signed and self.entails(st, z3.And(t >= 0, t < m)):
            return [(st, mk_int(z3.If(t >= h, t - m, t)))]
        if not signed and self.entails(st, z3.And(t >= -m, t < m)):
            return [(st, mk_int(z3.If(t < 0, t + m, t)))]
        return [(st, mk_int(z3.simplify((t + h) % m - h if signed else t % m)))]

    # ------------------------------------------------------------ the record read
    def fin(self, rs):
        """the end of the record is std::out_of_range, an IndexError in Python"""
        return [(s, raise_(IndexError, 'end of record') if isinstance(v, Ctl) and v.out[0] == 'exc' and
                 v.out[1].cls is _struct.error else v) for s, v in rs]

    def x_read_u8(self, st, f):
        out = []
        for s, pos in self.heads(st, f):
            s = s.clone()
            s.heap[f.id] = HIn(pos)
            for s2, v in self.fin(self.read_int(s, f, 1, False, 'little')):
                if not isinstance(v, Ctl):
                    s2 = s2.clone()
                    s2.heap[f.id] = HIn(s2.heap[f.id].pos, pos)
                    self.note(s, pos, v, 1)
                out.append((s2, v))
        return out

    def note(self, st, pos, v, w):
        if pos is None or not isinstance(v, SInt):
            return
        h = pos[0][pos[1]]
        if isinstance(h, IntSeg) and h.w == w:
            self.origin[v.t.get_id()] = (as_term(h.t) if h.signed else z3.If(v.t >= 1 << (8 * w - 1), v.t - (1 << (8 * w)), v.t),
                                         8 * w, False)
            self.keep.append(v.t)

    def x_unread(self, st, f):
        r = st.heap[f.id]
        if r.prev is False:
            raise Unsupported('moves back in the record')
        s = st.clone()
        s.heap[f.id] = HIn(r.prev)
        return [(s, None)]

    def x_read_un(self, st, f, w):
        out = []
        for s, pos in self.heads(st, f):
            s = s.clone()
            s.heap[f.id] = HIn(pos)
            h = None if pos is None else pos[0][pos[1]]
            if isinstance(h, ValSeg) and h.kind.startswith('string:') and w == 2:
                e = self.expand(s, h)
                s.add(blen(e[1].t) >= 0, blen(e[1].t) < 0xFFFF)
                s2 = self.replace_head(s, f, pos, e)
                out.extend(self.x_read_un(s2, f, w))
                continue
            if isinstance(h, ValSeg) and h.kind == 'datetime' and h.order == 'little' and w == 4:
                s2 = self.advance(s, f, pos)
                s2.add(TS(h.t) >= 0, TS(h.t) < 2 ** 32)
                v = SInt(TS(h.t))
                self.origin[v.t.get_id()] = (z3.If(v.t >= 2 ** 31, v.t - 2 ** 32, v.t), 32, False)
                self.keep.append(v.t)
                out.append((s2, v))
                continue
            for s2, v in self.fin(self.read_int(s, f, w, False, 'little')):
                if not isinstance(v, Ctl):
                    self.note(s, pos, v, w)
                out.append((s2, v))
        return out

    def x_read_u16le(self, st, f):
        return self.x_read_un(st, f, 2)

    def x_read_u32le(self, st, f):
        return self.x_read_un(st, f, 4)

    def x_read_u64le(self, st, f):
        return self.x_read_un(st, f, 8)

    def x_read_double_le(self, st, f):
        return self.fin(self.read_val(st, f, 'double', 'little', 'Float', float))

    def x_read_exp10_encoded_float(self, st, f):
        return self.fin(self.read_val(st, f, 'exp10', 'little', 'Float', float))

    def c_mob_id(self, st, p, f, name):
        """reads a mob id: the 32 bytes of its MobID form (the body is verified by mob_id_body)"""
        out = []
        for s, pos in self.heads(st, f):
            h = None if pos is None else pos[0][pos[1]]
            if not (isinstance(h, ValSeg) and h.kind == 'mobid' and h.order == 'little'):
                s = s.clone()
                s.heap[f.id] = HIn(pos)
                out.extend(self.call_py(s, self.mod.read_mob_id, [p, f, name], {}))
                continue
            s2 = self.advance(s, f, pos)
            r = self.record(s2, 'BytesData')
            rec = s2.heap[r.id]
            s2.heap[rec.attrs['data'].id] = HObj(cxxrt.ByteVec, {'b': SBytes((h,)), 'n': 32})
            s2.heap[r.id] = rec.with_attr('name', name)
            vec = s2.heap[p.id].attrs['mob_ids']
            v = s2.heap[vec.id]
            s2.heap[vec.id] = v.rep(parts=v.parts + (One(r),))
            out.append((s2, 0))
            if self.cut:
                out.append((self.cut_state(s, f), raise_(IndexError, 'end of record')))
        return out

    # ------------------------------------------------------------ byte vectors
    def bv(self, st, v):
        if not (isinstance(v, Ref) and isinstance(st.heap[v.id], HObj) and st.heap[v.id].cls is cxxrt.ByteVec):
            raise Unsupported('not a byte vector: %r' % (v,))
        return st.heap[v.id].attrs

    def bv_alts(self, st, v, f):
        if isinstance(v, Union):
            return self.with_alts(st, v, lambda s, y: self.bv_alts(s, y, f))
        at = self.bv(st, v)
        if isinstance(at['b'], Union):
            # decide which case it is, with its own length
            out = []
            for c, b in at['b'].alts:
                if self.feasible(st, c):
                    s = st.assume(c)
                    s.heap[v.id] = HObj(cxxrt.ByteVec, {'b': b, 'n': mk_int(as_term(self.bytes_len(b)))})
                    out.extend(f(s, v, s.heap[v.id].attrs))
            return out
        return f(st, v, at)

    def x_bv_new(self, st, *a):
        s = st.clone()
        return [(s, self.bytevec(s, SBytes(()), 0))]

    def x_bv_resize(self, st, v, n):
        def go(s, v, at):
            if isinstance(n, int) and 0 <= n <= 64 and isinstance(at['n'], int):
                segs = [IntSeg(1, False, 'little', int_term(x)) for x in self.bytes_ints(s, at['b'])] if at['n'] else []
                segs = (segs + [IntSeg(1, False, 'little', z3.IntVal(0))] * n)[:n]
                b = SBytes(segs)
            else:
                b = None             # zeros and what was there; not kept
            t = int_term(n)
            out = []
            for s2, ok in self.fork(s, z3.And(t >= 0, t < 2 ** 62)):
                if not ok:
                    out.append((s2, raise_(MemoryError)))
                    continue
                s2 = s2.clone()
                s2.heap[v.id] = HObj(cxxrt.ByteVec, {'b': HAVOC if b is None else b, 'n': n})
                out.append((s2, None))
            return out
        return self.bv_alts(st, v, go)

    def known(self, at):
        if at['b'] is HAVOC or at['b'] is None:
            raise Unsupported('contents of a byte vector')
        return at['b']

    def x_bv_set(self, st, v, i, x):
        def go(s, v, at):
            b = self.known(at)
            if not (isinstance(i, int) and isinstance(at['n'], int)):
                raise Unsupported('byte index')
            if not 0 <= i < at['n']:
                return [(s, raise_(IndexError, 'outside of the vector'))]
            xs = [int_term(y) for y in self.bytes_ints(s, b)]
            t = int_term(x)
            if not self.entails(s, z3.And(t >= 0, t < 256)):
                t = t % 256
            xs[i] = t
            s = s.clone()
            s.heap[v.id] = HObj(cxxrt.ByteVec, {'b': SBytes([IntSeg(1, False, 'little', y) for y in xs]), 'n': at['n']})
            return [(s, None)]
        return self.bv_alts(st, v, go)

    def x_bv_get(self, st, v, i):
        def go(s, v, at):
            return self.bytes_item(s, self.known(at), i)
        return self.bv_alts(st, v, go)

    def x_bv_len(self, st, v):
        return self.bv_alts(st, v, lambda s, v, at: [(s, at['n'])])

    def x_bv_fill(self, st, v, n, f):
        """copies n bytes of the record to the start of the vector; refuses a record with fewer bytes left"""
        def go(s, v, at):
            out = []
            if not self.entails(s, int_term(n) == int_term(at['n'])):
                raise Unsupported('%s bytes are copied to a vector of %s' % (n, at['n']))
            for s2, b in self.take(s, f, n):
                ln = as_term(self.bytes_len(b))
                for s3, ok in self.fork(s2, ln == int_term(n)):
                    if not ok:
                        out.append((s3, raise_(IndexError, 'end of record')))
                        continue
                    s3 = s3.clone()
                    s3.heap[v.id] = HObj(cxxrt.ByteVec, {'b': b, 'n': n})
                    out.append((s3, None))
            return out
        return self.bv_alts(st, v, go)

    def x_bv_slice(self, st, ptr, lo, hi):
        at = st.heap[ptr.id].attrs

        def go(s, v, bat_):
            b = self.known(bat_)
            if self.entails(s, z3.And(int_term(at['i']) + int_term(lo) == 0,
                                      int_term(at['i']) + int_term(hi) == int_term(bat_['n']))):
                return [(s, SBytes(b.segs, bytes))]
            if isinstance(at['i'], int) and isinstance(lo, int) and isinstance(hi, int) and isinstance(bat_['n'], int):
                xs = self.bytes_ints(s, b)
                l, h = at['i'] + lo, at['i'] + hi
                if not 0 <= l <= h <= len(xs):
                    return [(s, raise_(IndexError, 'outside of the vector'))]
                return [(s, SBytes([IntSeg(1, False, 'little', int_term(x)) for x in xs[l:h]], bytes))]
            raise Unsupported('part of a byte vector')
        return self.bv_alts(st, at['v'], go)

    def x_cy_list(self, st, v):
        s = st.clone()
        return [(s, s.alloc(HList(list, self.vec(st, v).parts)))]

    def expand(self, st, seg):
        x = Interp.expand(self, st, seg)
        if isinstance(seg, ValSeg) and seg.kind == 'fourcc' and x:
            b = x[0].t
            st.add(blen(seg.t) == 4)
            for i in range(4):
                st.add(bat(b, i) == (bat(seg.t, 3 - i) if seg.order == 'little' else bat(seg.t, i)))
        return x

    def bytes_strip(self, st, v, args):
        """text without a NUL at either end (the others are compared by the bounded check)"""
        if args != [b'\0'] and args != (b'\0',):
            raise Unsupported('strip')
        segs = self.to_segs(st, v)
        if not segs:
            return [(st, v)]
        if len(segs) == 1 and isinstance(segs[0], BlobSeg):
            t = segs[0].t
            if z3.is_app(t) and any(t.decl().eq(e) for e in str_enc.values()) and self.entails(
                    st, z3.And(as_term(segs[0].lo) == 0, as_term(segs[0].hi) == blen(t))):
                return [(st, SVal('Bytes', t, bytes))]
        raise Unsupported('strip')

    # ------------------------------------------------------------ Python values made from them
    def call_other(self, st, f, args, kw):
        if f is uuid.UUID and list(kw) == ['bytes_le'] and not args:
            b = kw['bytes_le']
            segs = self.to_segs(st, b)
            if len(segs) == 1 and isinstance(segs[0], ValSeg) and segs[0].kind == 'rawuuid' and segs[0].order == 'little':
                return [(st, SVal('UUID', segs[0].t, uuid.UUID))]
            raise Unsupported('UUID of %r' % (segs,))
        return Interp.call_other(self, st, f, args, kw)

    def call(self, st, f, args, kw):
        if isinstance(f, types.BuiltinMethodType) and f.__self__ is datetime.datetime and f.__name__ == 'fromtimestamp' and \
                len(args) == 1 and isinstance(args[0], SInt):
            t = args[0].t
            if z3.is_app(t) and t.decl().eq(TS):
                return [(st, SVal('DateTime', t.arg(0), datetime.datetime))]
            raise Unsupported('time of %s' % t)
        if f is self.ref_class and len(args) == 2 and not kw and int_term(args[1]) is not None:
            return [(st, SRef(args[1], args[0]))]
        if f is self.mobid_cls and list(kw) == ['bytes_le'] and not args:
            segs = self.to_segs(st, kw['bytes_le'])
            if len(segs) == 1 and isinstance(segs[0], ValSeg) and segs[0].kind == 'mobid' and segs[0].order == 'little':
                return [(st, SVal('MobID', segs[0].t, self.mobid_cls))]
            raise Unsupported('mob id of %r' % (segs,))
        return Interp.call(self, st, f, args, kw)


def make_interp(mods, mod, scratch, timeout_ms=8000):
    I = ExtInterp(Sources([os.path.join(driver.SRC, 'avb'), os.path.realpath(scratch)]), Solver(timeout_ms))
    _contracts.install(I, mods['ioctx'], mods['mobid'].MobID)
    I.ref_class = mods['utils'].AVBObjectRef
    I.mobid_cls = mods['mobid'].MobID
    I.setup(mod)
    return I


class ExtVerifier(ClassVerifier):
    """the reader of the compiled module in place of the read method"""
    reflist = 0

    def run(self, st, fn_owner, meth, obj, f):
        I = self.I
        cls = st.heap[obj.id].cls
        reader = I.mod.READERS[cls.class_id]
        st.frames.append(Frame({}, None))
        root = st.heap[obj.id].attrs['root']
        out = []
        for s, r in I.call(st, reader, [root, obj, f], {}):
            if s.poison and not isinstance(r, Ctl) and I.feasible(s):
                raise Unsupported('a loop left early and the record accepted')
            out.append((s, r))
        return out

    def same(self, st, x, v, root, where):
        if isinstance(v, (VList, VMany)) and v.cls == 'AVBRefList':
            self.reflist += 1
            try:
                return ClassVerifier.same(self, st, x, v, root, where)
            finally:
                self.reflist -= 1
        if isinstance(v, VLeaf) and v.kind == 'ref' and self.reflist and int_term(x) is not None \
                and not isinstance(x, (bool, SBool)):
            # a number in a reference list stands for the object of that number (deref_int)
            return self.goal(st, int_term(x) == v.t, '%s: refers to %s, stored %s' % (where, x, v.t))
        return ClassVerifier.same(self, st, x, v, root, where)


# ------------------------------------------------------------------------------------------------- function bodies

class _Goals:
    """obligations about one function of the compiled reader"""

    def __init__(self, I):
        self.I = I
        self.n = 0

    def start(self, segs, *facts):
        st = State()
        st.pc = tuple(facts)
        st.frames.append(Frame({}, None))
        f = st.alloc(HIn((tuple(segs), 0, None) if segs else None))
        return st, f

    def goal(self, st, cond, what):
        self.n += 1
        cond = z3.BoolVal(cond) if isinstance(cond, bool) else cond
        if self.I.entails(st, cond):
            return
        if st.approx or self.I.solver.check(st.pc + (z3.Not(z3.simplify(cond)),)) == 'unknown':
            raise Unsupported('not provable: ' + what)
        raise Failure(what, st.pc + (z3.Not(cond),))

    def at_end(self, st, f, rest):
        pos = self.I.norm_pos(st, st.heap[f.id].pos)
        left = []
        while pos is not None:
            left += pos[0][pos[1]:]
            pos = pos[2]
        if len(left) != len(rest) or any(a is not b for a, b in zip(left, rest)):
            raise Failure('leaves %s unread' % (left,), st.pc)


def body_exp10(G, mod):
    """the value of a stored rate m * 10**e: what the plain reader computes, with the operations of C"""
    m, e = z3.Int('m'), z3.Int('e')
    tail = IntSeg(1, False, 'little', z3.Int('tail'))
    st, f = G.start([IntSeg(4, True, 'little', m), IntSeg(2, True, 'little', e), tail], m >= -2 ** 31, m < 2 ** 31, e >= -2 ** 15, e < 2 ** 15)
    ends = 0
    for s, r in G.I.call_py(st, mod.body_read_exp10_encoded_float, [f], {}):
        if not G.I.feasible(s):
            continue
        if isinstance(r, Ctl):
            raise Failure('refuses a stored rate: %r' % (r,), s.pc)
        ends += 1
        t = G.I.real(r)
        M, E = z3.ToReal(m), z3.ToReal(e)
        G.goal(s, z3.Implies(e < 0, t == FDIV(M, POW(-E))), 'rate with a negative exponent is mantissa / 10**-exponent')
        G.goal(s, z3.Implies(e >= 0, t == FMUL(M, POW(E))), 'rate is mantissa * 10**exponent')
        G.at_end(s, f, [tail])
    if not ends:
        raise Unsupported('no normal end')


MOB = [('tag', 65), ('u32', 12)] + [('byte', i) for i in range(12)] + [x for i in range(12, 16) for x in (('tag', 68), ('byte', i))] + \
    [('tag', 72)] + [('byte', i) for i in range(16, 20)] + [('tag', 70), ('byte', 20), ('byte', 21), ('tag', 70), ('byte', 22), ('byte', 23)] + \
    [('tag', 65), ('u32', 8)] + [('byte', i) for i in range(24, 32)]


def mob_segs(B, free=None):
    """the bytes of a stored mob id; free: index of the marker that may be anything, as x"""
    out, facts, want = [], [], None
    x = z3.Int('x')
    for k, (kind, v) in enumerate(MOB):
        if kind == 'byte':
            out.append(IntSeg(1, False, 'little', B[v]))
        elif k == free:
            want = x == v
            w = 1 if kind == 'tag' else 4
            out.append(IntSeg(w, False, 'little', x))
            facts += [x >= 0, x < 256 ** w]
        else:
            out.append(IntSeg(1 if kind == 'tag' else 4, False, 'little', z3.IntVal(v)))
    return out, facts, want


def body_mob_id(G, mod):
    """reads a stored mob id and keeps its 32 bytes; refuses wrong markers and lengths and a mob id cut short"""
    B = [z3.Int('B%d' % i) for i in range(32)]
    bytes_ = [z3.And(b >= 0, b < 256) for b in B]
    tail = IntSeg(1, False, 'little', z3.Int('tail'))

    def run(segs, facts):
        st, f = G.start(segs, *(bytes_ + facts))
        p = G.I.record(st, 'Properties')
        for s, r in G.I.call_py(st, mod.read_mob_id, [p, f, b'name'], {}):
            if G.I.feasible(s):
                yield s, r, f, p
    ends = 0
    for s, r, f, p in run(mob_segs(B)[0] + [tail], []):
        if isinstance(r, Ctl):
            raise Failure('refuses a stored mob id: %r' % (r,), s.pc)
        G.goal(s, int_term(r) == 0, 'accepts a stored mob id')
        ends += 1
        v = s.heap[s.heap[p.id].attrs['mob_ids'].id]
        if len(v.parts) != 1 or not isinstance(v.parts[0], One):
            raise Failure('not one mob id: %s' % (v.parts,), s.pc)
        rec = s.heap[v.parts[0].v.id].attrs
        if rec['name'] != b'name':
            raise Failure('name %r' % (rec['name'],), s.pc)
        at = s.heap[rec['data'].id].attrs
        G.goal(s, int_term(at['n']) == 32, 'a mob id of 32 bytes')
        xs = G.I.bytes_ints(s, at['b'])
        for i in range(32):
            G.goal(s, int_term(xs[i]) == B[i], 'byte %d of the mob id' % i)
        G.at_end(s, f, [tail])
    if not ends:
        raise Unsupported('no normal end')
    for k, (kind, v) in enumerate(MOB):
        if kind == 'byte':
            continue
        segs, facts, want = mob_segs(B, k)
        for s, r, f, p in run(segs + [tail], facts):
            if not isinstance(r, Ctl):
                G.goal(s, z3.Implies(int_term(r) >= 0, want), 'a mob id with another marker or length than %d (%s) is accepted' % (v, kind))
    segs = []
    for g in mob_segs(B)[0]:
        segs += [g] if g.w == 1 else [IntSeg(1, False, 'little', z3.IntVal(x)) for x in g.t.as_long().to_bytes(4, 'little')]
    for k in range(len(segs)):
        for s, r, f, p in run(segs[:k], []):
            if not isinstance(r, Ctl):
                G.goal(s, int_term(r) < 0, 'a mob id of %d bytes is accepted' % k)


BODIES = [('read_exp10_encoded_float', body_exp10), ('read_mob_id', body_mob_id)]


def check_bodies(mods, mod, scratch):
    """-> [(name, status, detail, goals)]"""
    out = []
    for name, f in BODIES:
        G = _Goals(make_interp(mods, mod, scratch))
        try:
            f(G, mod)
            out.append((name, 'discharged', '', G.n))
        except (Failure, Refuted) as e:
            out.append((name, 'refuted', '%s: %s' % (name, e), 0))
        except Mismatch as e:
            out.append((name, 'refuted', '%s: %s' % (name, e), 0))
        except (Unsupported, RecursionError, z3.Z3Exception, KeyError, AttributeError, TypeError, IndexError, ValueError) as e:
            out.append((name, 'undecided', '%s: %s: %s' % (name, type(e).__name__, e), 0))
    return out
