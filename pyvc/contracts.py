"""Contracts of the primitive codecs (avb.ioctx.AVBIOContext), used modularly when record classes are verified.

Each contract states what the codec does to the stream; C06 verifies the codecs themselves against the same
statements.  Keys are the real function objects, so whichever function the dispatch table of a context resolves
to is the one whose contract applies (the dispatch itself is code under verification).
"""
import types
import uuid
import datetime
import struct as _struct
import z3
from .values import *
from .interp import raise_, mk_int, mk_bool, int_term, Ctl, is_concrete
from .prims import INT_KINDS, as_term, int_t


def install(interp, ioctx, mobid_cls):
    C = ioctx.AVBIOContext
    interp.real_ctx = {'little': C('little'), 'big': C('big')}
    K = interp.contracts
    ctxdict = {}
    for n, v in C.__dict__.items():
        ctxdict[n] = v.__func__ if isinstance(v, staticmethod) else v

    def reg(name, h):
        f = ctxdict.get(name)
        if f is None:
            return
        if f in K:
            raise Unsupported('two codec names share one function: %s' % name)
        K[f] = h

    def strip(args):
        """codecs may be static or bound: drop a leading context"""
        return args[1:] if args and isinstance(args[0], Ctx) else args

    def r_int(kind, order):
        w, s = INT_KINDS[kind]
        return lambda I, st, a, kw: I.read_int(st, strip(a)[0], w, s, order)

    def w_int(kind, order):
        w, s = INT_KINDS[kind]
        return lambda I, st, a, kw: I.write_int(st, strip(a)[0], strip(a)[1], w, s, order)
    for kind in INT_KINDS:
        if kind in ('u8', 's8'):
            reg('read_' + kind, r_int(kind, 'little'))
            reg('write_' + kind, w_int(kind, 'little'))
            continue
        for sfx, order in (('le', 'little'), ('be', 'big')):
            reg('read_' + kind + sfx, r_int(kind, order))
            reg('write_' + kind + sfx, w_int(kind, order))
    for sfx, order in (('le', 'little'), ('be', 'big')):
        reg('read_double_' + sfx, lambda I, st, a, kw, o=order: I.read_val(st, strip(a)[0], 'double', o, 'Float', float))
        reg('write_double_' + sfx, lambda I, st, a, kw, o=order: I.write_val(st, strip(a)[0], strip(a)[1], 'double', o, 'Float'))
        reg('read_fourcc_' + sfx, lambda I, st, a, kw, o=order: I.read_val(st, strip(a)[0], 'fourcc', o, 'Bytes', bytes))
        reg('write_fourcc_' + sfx, lambda I, st, a, kw, o=order: I.write_val(st, strip(a)[0], strip(a)[1], 'fourcc', o, 'Bytes'))

    def read_bool(I, st, a, kw):
        return I.bind(I.read_int(st, strip(a)[0], 1, False, 'little'),
                      lambda s, v: [(s, mk_bool(int_term(v) == 1))])

    def write_bool(I, st, a, kw):
        f, v = strip(a)
        if isinstance(v, SBool):
            return I.write_int(st, f, SInt(z3.If(v.t, z3.IntVal(1), z3.IntVal(0))), 1, False, 'little')
        out = []
        for s, b in I.truth(st, v):
            if isinstance(b, Ctl):
                out.append((s, b))
            else:
                out.extend(I.write_int(s, f, 1 if b else 0, 1, False, 'little'))
        return out

    def assert_tag(I, st, a, kw):
        f, ver = strip(a)

        def go(s, v):
            out = []
            c = int_term(v) == int_term(ver)
            for s2, b in I.fork(s, c):
                out.append((s2, None if b else raise_(AssertionError, 'tag')))
            return out
        return I.bind(I.read_int(st, f, 1, False, 'little'), go)
    reg('read_bool', read_bool)
    reg('write_bool', write_bool)
    reg('read_assert_tag', assert_tag)

    def pair(name, kind, sort, pytype):
        reg('read_' + name, lambda I, st, a, kw: I.read_val(st, a[1], kind, a[0].order, sort, pytype))

        def w(I, st, a, kw):
            def one(s, v):
                if v is None or not (isinstance(v, SVal) and v.sort == sort):
                    if is_concrete(v) and I.term_of(s, v, sort) is not None and not isinstance(v, (str, bytes, list, dict)):
                        if sort == 'Float' and isinstance(v, (int, float)) and not isinstance(v, bool):
                            return I.write_val(s, a[1], v, kind, a[0].order, sort)
                    return [(s, raise_(AttributeError, 'cannot encode %r as %s' % (v, kind)))]
                return I.write_val(s, a[1], v, kind, a[0].order, sort)
            return I.with_alts(st, a[2], one)
        reg('write_' + name, w)
    pair('exp10_encoded_float', 'exp10', 'Float', float)
    pair('mob_id', 'mobid', 'MobID', mobid_cls)
    pair('uuid', 'uuid', 'UUID', uuid.UUID)
    pair('raw_uuid', 'rawuuid', 'UUID', uuid.UUID)
    pair('datetime', 'datetime', 'DateTime', datetime.datetime)

    def enc_of(a, kw, i):
        e = a[i] if len(a) > i else kw.get('encoding', 'macroman')
        return e

    def read_string(I, st, a, kw):
        f = a[1]
        enc = enc_of(a, kw, 2)
        out = []
        for s, pos in I.heads(st, f):
            if pos is not None:
                h = pos[0][pos[1]]
                if isinstance(h, ValSeg) and h.kind == 'string:' + enc and h.order == a[0].order:
                    out.append((I.advance(s, f, pos), SVal('Str', h.t, str)))
                    if I.cut:                            # gives what is left of the text instead of raising
                        out.append((I.cut_state(s, f), SVal('Str', fresh('Str'), str)))
                    continue
                if isinstance(h, IntSeg) and h.w == 2 and h.order == a[0].order:
                    t = z3.simplify(as_term(h.t))
                    if z3.is_int_value(t) and t.as_long() in (0, 0xFFFF):
                        out.append((I.advance(s, f, pos), u''))
                        continue
                I.mismatch(s, 'reads a %s string where the record holds %r' % (enc, h))
            out.append((s, raise_(_struct.error, 'end of record')))
        return out

    def write_string(I, st, a, kw):
        f, v = a[1], a[2]
        enc = enc_of(a, kw, 3)

        def one(s, x):
            if x is None or x == '' if not isinstance(x, (SVal, Ref)) else False:
                return [(I.emit(s, f, IntSeg(2, False, a[0].order, z3.IntVal(0))), None)]
            t = I.term_of(s, x, 'Str')
            if t is None:
                return [(s, raise_(AttributeError, 'not a string'))]
            out = []
            for s2, b in I.fork(s, blen(enc_fn(enc)(t)) <= (65532 if enc == 'utf-8' else 65534)):
                if b:
                    out.append((I.emit(s2, f, ValSeg('string:' + enc, a[0].order, t)), None))
                else:
                    out.append((s2, raise_(_struct.error, 'string too long')))
            return out
        return I.with_alts(st, v, one)
    reg('read_string', read_string)
    reg('write_string', write_string)

    def read_ref(I, st, a, kw):
        return I.bind(I.read_int(st, a[2], 4, False, a[0].order), lambda s, v: [(s, SRef(v, a[1]))])

    def write_ref(I, st, a, kw):
        def one(s, v):
            if v is None:
                return I.write_int(s, a[2], 0, 4, False, a[0].order)
            if isinstance(v, SObj):
                return I.write_int(s, a[2], v.idx, 4, False, a[0].order)
            return [(s, raise_(AttributeError, 'not an object: %r' % (v,)))]
        return I.with_alts(st, a[3], one)
    reg('read_object_ref', read_ref)
    reg('write_object_ref', write_ref)

    def const_then(n, kind):
        def h(I, st, a, kw):
            def go(s, v):
                out = []
                for s2, b in I.fork(s, int_term(v) == 1):
                    if not b:
                        out.append((s2, raise_(AssertionError, 'version')))
                        continue
                    rs = [(s2, [])]
                    for _ in range(n):
                        nxt = []
                        for s3, acc in rs:
                            if isinstance(acc, Ctl):
                                nxt.append((s3, acc))
                                continue
                            for s4, x in I.read_int(s3, a[1], 2, kind == 's16', a[0].order):
                                nxt.append((s4, x if isinstance(x, Ctl) else acc + [x]))
                        rs = nxt
                    for s3, acc in rs:
                        if isinstance(acc, Ctl):
                            out.append((s3, acc))
                        else:
                            s3 = s3.clone()
                            out.append((s3, s3.alloc(HList(list, [One(x) for x in acc]))))
                return out
            return I.bind(I.read_int(st, a[1], 2, True, a[0].order), go)
        return h

    def write_const_then(n, kind):
        w, sg = INT_KINDS[kind]

        def h(I, st, a, kw):
            def one(s0, v):
                rs = I.write_int(s0, a[1], 1, 2, True, a[0].order)
                for i in range(n):
                    rs = I.bind(rs, lambda s, _, i=i: I.bind(
                        I.getitem(s, v, i), lambda s2, x: I.write_int(s2, a[1], x, w, sg, a[0].order)))
                return rs
            return I.with_alts(st, a[2], one)
        return h
    reg('read_rect', const_then(4, 's16'))
    reg('read_rgb_color', const_then(3, 'u16'))
    reg('write_rect', write_const_then(4, 's16'))
    reg('write_rgb_color', write_const_then(3, 'u16'))
    return K
