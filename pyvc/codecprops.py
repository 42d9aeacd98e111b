"""C06: obligations on the primitive codecs of avb.ioctx.AVBIOContext, for both byte orders."""
from .fixed import land, lor, lnot, implies, SymTime, SymF, StrVal, ExactF, mkbool
import datetime as _dt
import struct as _struct
import uuid as _uuid
from fractions import Fraction

ORDERS = ('little', 'big')


def raises(x, what, f, *a):
    try:
        f(*a)
    except Exception:
        return
    x.fail(what)


def wrote(x, e, f, pre, want, label):
    x.check(f.getvalue() == x.cat(pre, want), label)


def int_props(kind, w, signed):
    out = []

    def names(e, order):
        c = e.ctx[order]
        r = [(getattr(c, 'read_' + kind), getattr(c, 'write_' + kind))]
        if w > 1:
            sfx = 'le' if order == 'little' else 'be'
            r.append((getattr(e.Ctx, 'read_' + kind + sfx), getattr(e.Ctx, 'write_' + kind + sfx)))
        else:
            r.append((getattr(e.Ctx, 'read_' + kind), getattr(e.Ctx, 'write_' + kind)))
        return r
    for order in ORDERS:
        def write(x, e, order=order):
            v = x.bits('v', 8 * w, signed)
            pre = x.buf('pre', 3)
            for rd, wr in names(e, order):
                f = x.stream()
                f.write(pre)
                wr(f, v)
                wrote(x, e, f, pre, x.enc_int(v, w, signed, order), 'writes exactly its bytes')

        def read(x, e, order=order):
            B, T = x.buf('B', w), x.buf('T', 3)
            for rd, wr in names(e, order):
                f = x.stream(x.cat(B, T))
                v = rd(f)
                x.check(x.kind(v) is int, 'an integer')
                x.check(v == x.dec_int(B, order, signed), 'reads the value')
                x.check(f.rest() == T, 'consumes exactly its bytes')

        def range_(x, e, order=order):
            v = x.integer('v')
            lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
            x.assume(lor(v < lo, v > hi))
            for rd, wr in names(e, order):
                raises(x, 'writes a value that does not fit', wr, x.stream(), v)

        def short(x, e, order=order):
            for rd, wr in names(e, order):
                for n in range(w):
                    raises(x, 'reads a value that is cut short', rd, x.stream(x.buf('S', n) if n else b''))
        out += [('write_%s %s' % (kind, order), write), ('read_%s %s' % (kind, order), read),
                ('write_%s %s out of range' % (kind, order), range_), ('read_%s %s cut short' % (kind, order), short)]
    return out


def bool_write(x, e):
    b = x.boolean('b')
    for order in ORDERS:
        f = x.stream()
        e.ctx[order].write_bool(f, b)
        want = x.cat(b'\x01') if b else x.cat(b'\x00')
        x.check(f.getvalue() == want, 'one byte 1 or 0')


def bool_read(x, e):
    B, T = x.buf('B', 1), x.buf('T', 2)
    for order in ORDERS:
        f = x.stream(x.cat(B, T))
        v = e.ctx[order].read_bool(f)
        x.check(x.kind(v) is bool, 'a bool')
        x.check(v == (B[0] == 1), 'true for 1')
        x.check(f.rest() == T, 'consumes one byte')
    raises(x, 'reads a value that is cut short', e.ctx['little'].read_bool, x.stream())


def double_props():
    out = []
    for order in ORDERS:
        sfx = '_le' if order == 'little' else '_be'

        def fs(e, order=order, sfx=sfx):
            c = e.ctx[order]
            return [(c.read_double, c.write_double), (getattr(e.Ctx, 'read_double' + sfx), getattr(e.Ctx, 'write_double' + sfx))]

        def write(x, e, order=order, fs=fs):
            v, pre = x.double('v'), x.buf('pre', 2)
            for rd, wr in fs(e):
                f = x.stream()
                f.write(pre)
                wr(f, v)
                wrote(x, e, f, pre, x.enc_double(v, order), 'writes the eight bytes of the double')
                g = x.stream(f.getvalue())
                g.read(2)
                x.check(rd(g) == v, 'reads the same double back')

        def read(x, e, order=order, fs=fs):
            B, T = x.buf('B', 8), x.buf('T', 2)
            if not x.symbolic and (B[6 if order == 'little' else 1] & 0xf0) == 0xf0 and (B[7 if order == 'little' else 0] & 0x7f) == 0x7f:
                return          # NaN
            for rd, wr in fs(e):
                f = x.stream(x.cat(B, T))
                x.check(x.enc_double(rd(f), order) == B, 'reads the double of these bytes')
                x.check(f.rest() == T, 'consumes eight bytes')
                raises(x, 'reads a double that is cut short', rd, x.stream(B[:7]))
        out += [('write_double ' + order, write), ('read_double ' + order, read)]
    return out


def fourcc_props():
    out = []
    for order in ORDERS:
        sfx = '_le' if order == 'little' else '_be'

        def fs(e, order=order, sfx=sfx):
            c = e.ctx[order]
            return [(c.read_fourcc, c.write_fourcc), (getattr(e.Ctx, 'read_fourcc' + sfx), getattr(e.Ctx, 'write_fourcc' + sfx))]

        def write(x, e, order=order, fs=fs):
            v, pre = x.buf('v', 4), x.buf('pre', 2)
            for rd, wr in fs(e):
                f = x.stream()
                f.write(pre)
                wr(f, v)
                wrote(x, e, f, pre, v[::-1] if order == 'little' else v, 'writes the code in byte order')

        def read(x, e, order=order, fs=fs):
            B, T = x.buf('B', 4), x.buf('T', 2)
            for rd, wr in fs(e):
                f = x.stream(x.cat(B, T))
                v = rd(f)
                x.check(x.kind(v) is bytes, 'bytes')
                x.check(v == (B[::-1] if order == 'little' else B), 'reads the code')
                x.check(f.rest() == T, 'consumes four bytes')

        def bad(x, e, order=order, fs=fs):
            for rd, wr in fs(e):
                for n in (0, 1, 3, 5, 8):
                    raises(x, 'writes a code of the wrong length', wr, x.stream(), x.buf('v', n) if n else b'')
        out += [('write_fourcc ' + order, write), ('read_fourcc ' + order, read), ('write_fourcc %s wrong length' % order, bad)]
    return out


def call_string(c, f, enc, *a):
    """encoding None: the default (macroman)"""
    fn = c.write_string if a else c.read_string
    return fn(f, *a) if enc is None else (fn(f, *a, encoding=enc) if enc == 'utf-8' else fn(f, *(a + (enc,))))


def string_props():
    out = []
    for order in ORDERS:
        for enc in (None, 'macroman', 'utf-8'):
            codec = enc or 'macroman'
            mark = b'\x00\x00' if enc == 'utf-8' else b''

            def write(x, e, order=order, enc=enc, codec=codec, mark=mark):
                s, pre = x.text('s'), x.buf('pre', 2)
                d = x.enc_text(s, codec)
                n = x.size(d) + len(mark)
                c = e.ctx[order]
                f = x.stream()
                f.write(pre)
                if n <= 65534:
                    call_string(c, f, enc, s)
                    wrote(x, e, f, pre, x.cat(x.enc_int(n, 2, False, order), mark, d), 'writes length and text')
                else:
                    raises(x, 'writes a text that does not fit', call_string, c, f, enc, s)

            def read(x, e, order=order, enc=enc, codec=codec, mark=mark):
                s, T = x.text('s'), x.buf('T', 3)
                d = x.enc_text(s, codec)
                n = x.size(d) + len(mark)
                x.assume(n <= 65534)
                f = x.stream(x.cat(x.enc_int(n, 2, False, order), mark, d, T))
                v = call_string(e.ctx[order], f, enc)
                x.check(x.kind(v) is str, 'text')
                x.check(v == s, 'reads the text')
                x.check(f.rest() == T, 'consumes length and text')

            def empty(x, e, order=order, enc=enc):
                c = e.ctx[order]
                for s in (u'', None, b''):
                    f = x.stream()
                    call_string(c, f, enc, s)
                    x.check(f.getvalue() == x.cat(b'\x00\x00'), 'an empty text is a zero length')
                T = x.buf('T', 3)
                for h in (b'\x00\x00', b'\xff\xff'):
                    f = x.stream(x.cat(h, T))
                    v = call_string(c, f, enc)
                    x.check(v == u'' and x.kind(v) is str, 'length 0 and 65535 read as the empty text')
                    x.check(f.rest() == T, 'consumes the length only')
                raises(x, 'reads a text without length', call_string, c, x.stream(x.buf('S', 1)), enc)
            tag = '%s %s' % (order, enc or 'default')
            out += [('write_string ' + tag, write), ('read_string ' + tag, read), ('empty string ' + tag, empty)]

    def unencodable(x, e):
        for order in ORDERS:
            raises(x, 'writes a text its encoding cannot hold', call_string, e.ctx[order], x.stream(), None, u'\u4e2d\u6587')
    out.append(('write_string not encodable', unencodable, 'concrete'))
    return out


def tagged_uuid(x, U, order):
    i = lambda b: x.cat(b) if order == 'big' else x.cat(b[::-1])
    b = U.bytes
    return x.cat(b'\x48', i(b[0:4]), b'\x46', i(b[4:6]), b'\x46', i(b[6:8]), b'\x41', x.enc_int(8, 4, True, order), b[8:16])


def uuid_props():
    out = []
    for order in ORDERS:
        def write(x, e, order=order):
            U, pre = x.uuid('U'), x.buf('pre', 2)
            f = x.stream()
            f.write(pre)
            e.ctx[order].write_uuid(f, U)
            wrote(x, e, f, pre, tagged_uuid(x, U, order), 'tagged fields')
            f = x.stream()
            f.write(pre)
            e.ctx[order].write_raw_uuid(f, U)
            wrote(x, e, f, pre, U.bytes_le if order == 'little' else U.bytes, 'sixteen bytes')

        def read(x, e, order=order):
            U, T = x.uuid('U'), x.buf('T', 2)
            f = x.stream(x.cat(tagged_uuid(x, U, order), T))
            v = e.ctx[order].read_uuid(f)
            x.check(v == U, 'reads the tagged uuid')
            x.check(f.rest() == T, 'consumes exactly the tagged uuid')
            f = x.stream(x.cat(U.bytes_le if order == 'little' else U.bytes, T))
            x.check(e.ctx[order].read_raw_uuid(f) == U, 'reads the raw uuid')
            x.check(f.rest() == T, 'consumes sixteen bytes')

        def bad(x, e, order=order):
            U, b = x.uuid('U'), x.buf('b', 1)
            d = tagged_uuid(x, U, order)
            for i, tag in ((0, 72), (5, 70), (8, 70), (11, 65)):
                x.assume(b[0] != tag)
                raises(x, 'accepts a wrong marker', e.ctx[order].read_uuid, x.stream(x.cat(d[:i], b, d[i + 1:])))
            n = x.bits('n', 32, True)
            x.assume(n != 8)
            raises(x, 'accepts a wrong length', e.ctx[order].read_uuid,
                   x.stream(x.cat(d[:12], x.enc_int(n, 4, True, order), d[16:])))
            for k in range(24):
                raises(x, 'reads a uuid that is cut short', e.ctx[order].read_uuid, x.stream(d[:k]))
            for k in range(16):
                raises(x, 'reads a uuid that is cut short', e.ctx[order].read_raw_uuid, x.stream(d[:k]))
        out += [('write_uuid ' + order, write), ('read_uuid ' + order, read), ('read_uuid %s malformed' % order, bad)]
    return out


def mob_bytes(x, e, B, order):
    le = lambda lo, hi: x.cat(B[lo:hi]) if order == 'little' else x.cat(B[lo:hi][::-1])
    return x.cat(b'\x41', x.enc_int(12, 4, True, order), B[0:12], b'\x44', B[12:13], b'\x44', B[13:14], b'\x44', B[14:15],
                 b'\x44', B[15:16], b'\x48', le(16, 20), b'\x46', le(20, 22), b'\x46', le(22, 24),
                 b'\x41', x.enc_int(8, 4, True, order), B[24:32])


def mobid_props():
    out = []
    for order in ORDERS:
        def write(x, e, order=order):
            B, pre = x.buf('B', 32), x.buf('pre', 2)
            f = x.stream()
            f.write(pre)
            m = e.MobID(bytes_le=B)
            e.ctx[order].write_mob_id(f, m)
            wrote(x, e, f, pre, mob_bytes(x, e, B, order), 'tagged fields of the mob id')
            x.check(m.bytes_le == B, 'writing leaves the mob id alone')

        def read(x, e, order=order):
            B, T = x.buf('B', 32), x.buf('T', 2)
            f = x.stream(x.cat(mob_bytes(x, e, B, order), T))
            m = e.ctx[order].read_mob_id(f)
            x.check(isinstance(m, e.MobID), 'a MobID')
            x.check(m.bytes_le == B, 'reads the mob id')
            x.check(f.rest() == T, 'consumes exactly the mob id')

        def bad(x, e, order=order):
            B, b = x.buf('B', 32), x.buf('b', 1)
            d = mob_bytes(x, e, B, order)
            for i, tag in ((0, 65), (17, 68), (19, 68), (21, 68), (23, 68), (25, 72), (30, 70), (33, 70), (36, 65)):
                x.assume(b[0] != tag)
                raises(x, 'accepts a wrong marker', e.ctx[order].read_mob_id, x.stream(x.cat(d[:i], b, d[i + 1:])))
            n = x.bits('n', 32, True)
            x.assume(n != 12)
            raises(x, 'accepts a wrong length', e.ctx[order].read_mob_id,
                   x.stream(x.cat(d[:1], x.enc_int(n, 4, True, order), d[5:])))
            for k in range(49):
                raises(x, 'reads a mob id that is cut short', e.ctx[order].read_mob_id, x.stream(d[:k]))
        out += [('write_mob_id ' + order, write), ('read_mob_id ' + order, read), ('read_mob_id %s malformed' % order, bad)]
    return out


def datetime_props():
    out = []
    for order in ORDERS:
        def write(x, e, order=order):
            d, pre = x.datetime('d'), x.buf('pre', 2)
            f = x.stream()
            f.write(pre)
            e.ctx[order].write_datetime(f, d)
            ts = d.ts if x.symbolic else int(d.timestamp())
            wrote(x, e, f, pre, x.enc_int(ts, 4, False, order), 'seconds since 1970')
            # the fraction of a second is not stored
            f = x.stream()
            d2 = SymTime(d.ts, x.bits('micro', 20)) if x.symbolic else d.replace(microsecond=x.bits('micro', 20) % 1000000)
            e.ctx[order].write_datetime(f, d2)
            wrote(x, e, f, b'', x.enc_int(ts, 4, False, order), 'whole seconds')

        def read(x, e, order=order):
            d, T = x.datetime('d'), x.buf('T', 2)
            ts = d.ts if x.symbolic else int(d.timestamp())
            f = x.stream(x.cat(x.enc_int(ts, 4, False, order), T))
            v = e.ctx[order].read_datetime(f)
            x.check(v == d, 'reads the time')
            if not x.symbolic:
                x.check(v.timestamp() == d.timestamp(), 'reads the instant')
            x.check(f.rest() == T, 'consumes four bytes')
            raises(x, 'reads a time that is cut short', e.ctx[order].read_datetime, x.stream(x.buf('S', 3)))

        def bad(x, e, order=order):
            if x.symbolic:
                ts = x.integer('ts')
                x.assume(lor(ts < 0, ts >= 2 ** 32))
                d = SymTime(ts, 0)
                if abs(ts) > 2 ** 53:
                    return          # no datetime is that far away
            else:
                d = _dt.datetime.fromtimestamp(x.choose('ts', (-1, -100000, 2 ** 32, 2 ** 32 + 86400 * 300)))
            raises(x, 'writes a time that does not fit', e.ctx[order].write_datetime, x.stream(), d)
        out += [('write_datetime ' + order, write), ('read_datetime ' + order, read),
                ('write_datetime %s out of range' % order, bad)]
    return out


def vec_props(name, n, signed):
    out = []
    for order in ORDERS:
        def fs(e, order=order):
            return getattr(e.ctx[order], 'read_' + name), getattr(e.ctx[order], 'write_' + name)

        def enc(x, v, order):
            return x.cat(x.enc_int(1, 2, True, order), *[x.enc_int(i, 2, signed, order) for i in v])

        def write(x, e, order=order, fs=fs, enc=enc):
            v, pre = [x.bits('v%d' % i, 16, signed) for i in range(n)], x.buf('pre', 2)
            for u in (v, tuple(v)):
                f = x.stream()
                f.write(pre)
                fs(e)[1](f, u)
                wrote(x, e, f, pre, enc(x, v, order), 'version and elements')

        def read(x, e, order=order, fs=fs, enc=enc):
            v, T = [x.bits('v%d' % i, 16, signed) for i in range(n)], x.buf('T', 2)
            f = x.stream(x.cat(enc(x, v, order), T))
            r = fs(e)[0](f)
            x.check(isinstance(r, list) and len(r) == n, 'a list')
            x.check(land(*[a == b for a, b in zip(r, v)]), 'reads the elements in order')
            x.check(f.rest() == T, 'consumes exactly its bytes')

        def bad(x, e, order=order, fs=fs, enc=enc):
            v = [x.bits('v%d' % i, 16, signed) for i in range(n)]
            d = enc(x, v, order)
            k = x.bits('version', 16, True)
            x.assume(k != 1)
            raises(x, 'accepts an unknown version', fs(e)[0], x.stream(x.cat(x.enc_int(k, 2, True, order), d[2:])))
            for i in range(2 + 2 * n):
                raises(x, 'reads data cut short', fs(e)[0], x.stream(d[:i]))
            lo, hi = (-32768, 32767) if signed else (0, 65535)
            b = x.integer('bad')
            x.assume(lor(b < lo, b > hi))
            for i in range(n):
                raises(x, 'writes an element that does not fit', fs(e)[1], x.stream(), v[:i] + [b] + v[i + 1:])
            raises(x, 'writes a list that is too short', fs(e)[1], x.stream(), v[:n - 1])
        out += [('write_%s %s' % (name, order), write), ('read_%s %s' % (name, order), read),
                ('%s %s malformed' % (name, order), bad)]
    return out


# ---- edit rates

def parse_rate(x, f, order):
    """(mantissa, exponent) of the six bytes written (checks their number)"""
    if x.symbolic:
        g = x.stream(f.getvalue())
        from .fixed import s_unpack
        o = '<' if order == 'little' else '>'
        m = s_unpack(o + 'i', g.read(4))[0]
        k = s_unpack(o + 'h', g.read(2))[0]
        x.check(g.read() == b'', 'six bytes')
        return m, k
    d = f.getvalue()
    x.check(len(d) == 6, 'six bytes')
    return int.from_bytes(d[:4], order, signed=True), int.from_bytes(d[4:], order, signed=True)


def rate_value(m, k):
    """exact value of m * 10**k; k concrete"""
    return m * Fraction(10) ** k


def rate_props():
    out = []
    for order in ORDERS:
        for digits in range(7):
            def write(x, e, order=order, digits=digits):
                m, v = x.decimal_bounded('m', digits)
                f = x.stream()
                e.ctx[order].write_exp10_encoded_float(f, v)
                M, K = parse_rate(x, f, order)
                if x.symbolic and not isinstance(K, int):
                    from .fixed import Unsupported
                    raise Unsupported('exponent')
                x.check(-6 <= K <= 0, 'an exponent between -6 and 0')
                # M * 10**K == m / 10**digits
                a, b = 6 + K + digits, 6
                a, b = a - min(a, b), b - min(a, b)
                x.check(M * 10 ** a == m * 10 ** b, 'stores exactly this decimal')

            def read(x, e, order=order, digits=digits):
                T = x.buf('T', 2)
                m, v = x.decimal('m', digits)
                f = x.stream(x.cat(x.enc_int(m, 4, True, order), x.enc_int(-digits, 2, True, order), T))
                r = e.ctx[order].read_exp10_encoded_float(f)
                x.check(x.kind(r) is float, 'a float')
                x.check(r == v, 'reads the double nearest to the decimal')
                x.check(f.rest() == T, 'consumes six bytes')
            out += [('write rate %s, %d decimals' % (order, digits), write), ('read rate %s, %d decimals' % (order, digits), read)]

        def ints(x, e, order=order):
            v = x.bits('v', 32, True)
            f = x.stream()
            e.ctx[order].write_exp10_encoded_float(f, v)
            x.check(f.getvalue() == x.cat(x.enc_int(v, 4, True, order), x.enc_int(0, 2, True, order)), 'an integer rate is stored as it is')

        def big(x, e, order=order):
            if x.symbolic:
                m = x.integer('m')
                x.assume(lor(m < -2 ** 31, m > 2 ** 31 - 1))
                x.assume(abs(m) <= 2 ** 53)
                for v in (m, ExactF(m)):
                    raises(x, 'writes a rate that does not fit', e.ctx[order].write_exp10_encoded_float, x.stream(), v)
            else:
                m = x.choose('m', (2 ** 31, -2 ** 31 - 1, 2 ** 32 + 25, 1e12, -1e30))
                for v in (m, float(m)):
                    raises(x, 'writes a rate that does not fit', e.ctx[order].write_exp10_encoded_float, x.stream(), v)

        def short(x, e, order=order):
            for n in range(6):
                raises(x, 'reads a rate cut short', e.ctx[order].read_exp10_encoded_float, x.stream(x.buf('S', n) if n else b''))
        out += [('write integer rate ' + order, ints), ('write rate %s out of range' % order, big), ('read rate %s cut short' % order, short)]
    return out


def assert_tag(x, e):
    B, T, t = x.buf('B', 1), x.buf('T', 1), x.bits('t', 8)
    f = x.stream(x.cat(B, T))
    ok = B[0] == t
    try:
        e.Ctx.read_assert_tag(f, t)
    except Exception:
        x.check(lnot(ok), 'the expected marker is accepted')
        return
    x.check(ok, 'another marker is refused')
    x.check(f.rest() == T, 'consumes the marker')


def iter_ext(x, e):
    """iter_ext yields the kind of every optional block and stops before anything else"""
    n = x.choose('n', (0, 1, 2, 3))
    tags = [x.buf('t%d' % i, 1) for i in range(n)]
    end, T = x.buf('end', 1), x.buf('T', 2)
    x.assume(end[0] != 1)
    f = x.stream(x.cat(*([x.cat(b'\x01', t) for t in tags] + [end, T])))
    got = []
    for t in e.Ctx.iter_ext(f):
        got.append(t)
    x.check(len(got) == n, 'one turn per block')
    x.check(land(*[g == t[0] for g, t in zip(got, tags)]), 'the kinds of the blocks')
    x.check(f.rest() == x.cat(end, T), 'leaves what follows')
    raises(x, 'accepts a record that ends here', lambda: list(e.Ctx.iter_ext(x.stream())))
    raises(x, 'accepts a block without kind', lambda: list(e.Ctx.iter_ext(x.stream(b'\x01'))))


def byte_order(x, e):
    raises(x, 'accepts an unknown byte order', e.Ctx, 'middle')
    x.check(e.Ctx('little').byte_order == 'little' and e.Ctx('big').byte_order == 'big', 'keeps its byte order')
    x.check(e.Ctx().byte_order == 'little', 'little endian by default')


PROPS = []
for _k, _w, _s in (('u8', 1, False), ('s8', 1, True), ('u16', 2, False), ('s16', 2, True), ('u32', 4, False), ('s32', 4, True),
                   ('u64', 8, False), ('s64', 8, True)):
    PROPS += int_props(_k, _w, _s)
PROPS += [('write_bool', bool_write), ('read_bool', bool_read)] + double_props() + fourcc_props() + string_props() + uuid_props() \
    + mobid_props() + datetime_props() + vec_props('rect', 4, True) + vec_props('rgb_color', 3, False) + rate_props() \
    + [('read_assert_tag', assert_tag), ('iter_ext', iter_ext), ('byte order', byte_order)]
