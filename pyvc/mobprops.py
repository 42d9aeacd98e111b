"""C11: obligations on avb.mobid.MobID.  Each function runs symbolically (proof) and concretely (replay, cross-check)."""
from .fixed import land, lor, lnot, implies, same_hash_input, Sym
import uuid as _uuid

LABEL_NEW = bytes([0x06, 0x0a, 0x2b, 0x34, 1, 1, 1, 5, 1, 1, 0x0f, 0x20])


def mk(x, e, name='B'):
    B = x.buf(name, 32)
    return B, e.MobID(bytes_le=B)


def same(x, m, B, label):
    x.check(m.bytes_le == B, label)
    x.check(x.kind(m.bytes_le) is bytearray, label + ': mutable bytes')


def from_int(x, e):
    B = x.buf('B', 32)
    v = x.dec_int(B, 'big')
    m = e.MobID(int=v)
    same(x, m, B, 'MobID(int=v) holds the big-endian bytes of v')
    x.check(m.int == v, 'int form')
    x.check(m.__int__() == v, 'int()')
    n = e.MobID(bytes_le=x.buf('C', 32))
    n.int = v
    same(x, n, B, 'assigning int')


def to_int(x, e):
    B, m = mk(x, e)
    v = m.int
    x.check(v == x.dec_int(B, 'big'), 'int form is the big-endian value of the bytes')
    same(x, e.MobID(int=v), B, 'int form determines the id')
    same(x, m, B, 'reading the int form changes nothing')


FIELDS = [('length', 12), ('instanceHigh', 13), ('instanceMid', 14), ('instanceLow', 15)]


def to_dict(x, e):
    B, m = mk(x, e)
    d = m.to_dict()
    x.check(set(d) == {'material', 'length', 'instanceHigh', 'instanceMid', 'instanceLow', 'SMPTELabel'}, 'dict keys')
    mat = d['material']
    x.check(set(mat) == {'Data1', 'Data2', 'Data3', 'Data4'}, 'material keys')
    for n, i in FIELDS:
        x.check(d[n] == B[i], 'dict ' + n)
    x.check(mat['Data1'] == x.dec_int(B[16:20], 'little'), 'Data1')
    x.check(mat['Data2'] == x.dec_int(B[20:22], 'little'), 'Data2')
    x.check(mat['Data3'] == x.dec_int(B[22:24], 'little'), 'Data3')
    x.check(len(mat['Data4']) == 8 and len(d['SMPTELabel']) == 12, 'list lengths')
    for i in range(8):
        x.check(mat['Data4'][i] == B[24 + i], 'Data4[%d]' % i)
    for i in range(12):
        x.check(d['SMPTELabel'][i] == B[i], 'SMPTELabel[%d]' % i)
    n = e.MobID(bytes_le=x.buf('C', 32))
    n.from_dict(d)
    same(x, n, B, 'from_dict(to_dict()) gives the same id, whatever the id was before')
    same(x, m, B, 'to_dict changes nothing')
    d['SMPTELabel'][0] = 1
    mat['Data4'][0] = 1
    same(x, m, B, 'the dict shares nothing with the id')


def from_dict(x, e):
    lab = x.buf('label', 12)
    d4 = x.buf('d4', 8)
    d = dict(length=x.bits('len', 8), instanceHigh=x.bits('hi', 8), instanceMid=x.bits('mid', 8), instanceLow=x.bits('lo', 8),
             SMPTELabel=[lab[i] for i in range(12)],
             material=dict(Data1=x.bits('d1', 32), Data2=x.bits('d2', 16), Data3=x.bits('d3', 16), Data4=[d4[i] for i in range(8)]))
    m = e.MobID()
    m.from_dict(d)
    f = lambda v, w: x.enc_int(v, w, False, 'little')
    same(x, m, x.cat(lab, f(d['length'], 1), f(d['instanceHigh'], 1), f(d['instanceMid'], 1), f(d['instanceLow'], 1),
                     f(d['material']['Data1'], 4), f(d['material']['Data2'], 2), f(d['material']['Data3'], 2), d4), 'from_dict')
    r = m.to_dict()
    for k in ('length', 'instanceHigh', 'instanceMid', 'instanceLow'):
        x.check(r[k] == d[k], 'to_dict(from_dict) ' + k)
    for k in ('Data1', 'Data2', 'Data3'):
        x.check(r['material'][k] == d['material'][k], 'to_dict(from_dict) ' + k)


def half_swapped(B):
    return land(B[11] == 0, B[24] == 6, B[25] == 0x0e, B[26] == 0x2b, B[27] == 0x34, B[28] == 0x7f, B[29] == 0x7f)


def ambiguous(B):
    """not half swapped, but its text reads as if it were (known finding)"""
    return land(lnot(half_swapped(B)), B[11] == 0, B[19] == 6, B[18] == 0x0e, B[17] == 0x2b, B[16] == 0x34,
                B[21] == 0x7f, B[20] == 0x7f)


def text(x, e):
    B, m = mk(x, e)
    x.assume(lnot(ambiguous(B)))
    t = m.urn
    same(x, e.MobID(t), B, 'MobID(text form)')
    n = e.MobID(bytes_le=x.buf('C', 32))
    n.urn = t
    same(x, n, B, 'assigning the text form, whatever the id was before')
    same(x, m, B, 'reading the text form changes nothing')
    x.check(m.__repr__() == t, 'repr is the text form')


def text_layout(x, e):
    B, m = mk(x, e)
    h = lambda *ix: x.cat(*[B[i:i + 1] for i in ix]).hex()
    head = 'urn:smpte:umid:' + h(0, 1, 2, 3) + '.' + h(4, 5, 6, 7) + '.' + h(8, 9, 10, 11) + '.' + h(12, 13, 14, 15) + '.'
    if half_swapped(B):
        x.check(m.urn == head + h(24, 25, 26, 27) + '.' + h(28, 29, 30, 31) + '.' + h(19, 18, 17, 16) + '.' + h(21, 20, 23, 22),
                'text form (half swapped)')
    else:
        x.check(m.urn == head + h(19, 18, 17, 16) + '.' + h(21, 20, 23, 22) + '.' + h(24, 25, 26, 27) + '.' + h(28, 29, 30, 31),
                'text form')


def text_variants(x, e):
    """upper case, and with the separators left out"""
    B, m = mk(x, e)
    x.assume(lnot(ambiguous(B)))
    t = m.urn
    same(x, e.MobID(t.upper()), B, 'upper case text')
    same(x, e.MobID(t.replace('urn:smpte:umid:', '').replace('.', '')), B, 'text without separators')


def text_bad_length(x, e):
    B, m = mk(x, e)
    t = m.urn
    for bad in (t[:-1], t + '0'):
        try:
            e.MobID(bad)
        except Exception:
            continue
        x.fail('text of the wrong length accepted')


def accessor(name, lo, hi, kind):
    w = hi - lo

    def spec(x, B):
        if kind == 'int':
            return x.dec_int(B[lo:hi], 'little')
        return B[lo:hi]

    def get(x, e):
        B, m = mk(x, e)
        x.check(getattr(m, name) == spec(x, B), name + ' reads its own bytes')
        same(x, m, B, 'reading %s changes nothing' % name)

    def set_(x, e):
        B, m = mk(x, e)
        N = x.buf('N', w)
        if kind == 'int':
            v = x.dec_int(N, 'little')
        else:
            v = [N[i] for i in range(w)]
        setattr(m, name, v)
        same(x, m, x.cat(B[:lo], N, B[hi:]), name + ' writes exactly its own bytes')
        x.check(getattr(m, name) == (v if kind == 'int' else N), name + ' reads back')

    def copies(x, e):
        B, m = mk(x, e)
        if kind == 'list':
            v = getattr(m, name)
            v[0] = 1
            same(x, m, B, 'the value of %s is a copy' % name)

    def refuses(x, e):
        B, m = mk(x, e)
        if kind == 'int':
            v = x.integer('v')
            x.assume(lor(v < 0, v >= 256 ** w))
            vals = [v]
        else:
            N = [B[i % 32] for i in range(w + 1)]
            bad = x.integer('v')
            x.assume(lor(bad < 0, bad > 255))
            vals = [N, N[:w - 1], N[:w - 1] + [bad]]
        for v in vals:
            try:
                setattr(m, name, v)
            except Exception:
                continue
            x.fail('%s accepts a value that does not fit' % name)
    return [('get ' + name, get), ('set ' + name, set_), ('value of ' + name, copies), ('refuse ' + name, refuses)]


def material(x, e):
    B, m = mk(x, e)
    u = m.material
    x.check(u.bytes_le == B[16:], 'material is the last sixteen bytes in little-endian UUID form')
    x.check(u.time_low == x.dec_int(B[16:20], 'little'), 'material.time_low')
    U = x.uuid('U')
    m.material = U
    same(x, m, x.cat(B[:16], U.bytes_le), 'material writes exactly the last sixteen bytes')
    x.check(m.material == U, 'material reads back')


def two(x, e):
    A = x.buf('A', 32)
    if x.choose('related', ('same', 'prefix', 'any')) == 'any':
        B = x.buf('B', 32)
    else:
        B = x.cat(A[:31], x.buf('B', 1))
    return A, B, e.MobID(bytes_le=A), e.MobID(bytes_le=B)


def equality(x, e):
    A, B, a, b = two(x, e)
    x.check((a == b) == (A == B), '== agrees with the bytes')
    x.check((a != b) == (A != B), '!= agrees with the bytes')
    c = e.MobID(bytes_le=A)
    x.check(a == c, 'equal bytes, equal ids')
    for o in (None, 5, 'x'):
        x.check(e.MobID.__eq__(a, o) is NotImplemented, 'other types are left to the other operand')


def hashing(x, e):
    A, B, a, b = two(x, e)
    ha, hb = e.MobID.__hash__(a), e.MobID.__hash__(b)
    x.check(implies(A == B, same_hash_input(ha, hb)), 'equal ids hash equally')
    x.check(same_hash_input(ha, e.MobID.__hash__(e.MobID(bytes_le=A))), 'the hash is determined by the bytes')
    a.length = B[12]
    x.check(same_hash_input(e.MobID.__hash__(a), e.MobID.__hash__(e.MobID(bytes_le=x.cat(A[:12], B[12:13], A[13:])))),
            'the hash follows the bytes')


def ordering(x, e):
    A, B, a, b = two(x, e)
    x.check((a < b) == (A < B), '<')
    x.check((a <= b) == (A <= B), '<=')
    x.check((a > b) == (A > B), '>')
    x.check((a >= b) == (A >= B), '>=')


def construct(x, e):
    x.check(e.MobID().bytes_le == bytes(32), 'a MobID without arguments is zero')
    src = x.buf('S', 32, bytearray)
    keep = x.cat(src[:])
    m = e.MobID(bytes_le=src)
    src[0] = 7
    same(x, m, keep, 'the id does not share the bytes it was made from')
    n = e.MobID(bytes_le=m.bytes_le)
    n.length = 9
    same(x, m, keep, 'ids do not share bytes')
    z = e.MobID(int=0)
    x.check(z.bytes_le == bytes(32), 'MobID(int=0)')


def new(x, e):
    ms = [e.MobID.new(), e.MobID.new(), e.mod.UniqueMobID()]
    for m in ms:
        b = m.bytes_le
        x.check(b[:12] == LABEL_NEW, 'standard label')
        x.check(b[12] == 0x13, 'length of a basic UMID')
        x.check(b[13:16] == bytes(3), 'instance number zero')
        x.check(x.kind(b) is bytearray and len(b) == 32, '32 bytes')
    if not x.symbolic:
        x.check(len({bytes(m.bytes_le) for m in ms}) == 3, 'new ids differ')
        x.check(all(m.material.version == 4 for m in ms), 'material is a random UUID')
    keep = ms[1].bytes_le[:]
    ms[0].length = 1
    x.check(ms[1].bytes_le == keep, 'new ids are independent')


def ints(x, e):
    for n in (1, 2, 8, 32):
        B = x.buf('B%d' % n, n)
        for order in ('big', 'little'):
            v = e.utils.int_from_bytes(B if x.symbolic else bytearray(B), byte_order=order)
            x.check(v == x.dec_int(B, order), 'int_from_bytes %s %d' % (order, n))
            x.check(e.utils.bytes_from_int(v, n, byte_order=order) == B, 'bytes_from_int %s %d' % (order, n))
    C = x.buf('C', 8)
    for i in (0, 3):
        x.check(e.utils.unpack_u16le_from(C, i) == x.dec_int(C[i:i + 2], 'little'), 'unpack_u16le_from')
        x.check(e.utils.unpack_u32le_from(C, i) == x.dec_int(C[i:i + 4], 'little'), 'unpack_u32le_from')
    for f, a in ((e.utils.int_from_bytes, (C,)), (e.utils.bytes_from_int, (1, 2))):
        try:
            f(*a, byte_order='middle')
        except ValueError:
            continue
        x.fail('unknown byte order accepted')


PROPS = [('MobID from int', from_int), ('MobID to int', to_int), ('MobID to dict', to_dict), ('MobID from dict', from_dict),
         ('MobID text round trip', text), ('MobID text layout', text_layout), ('MobID text variants', text_variants),
         ('MobID text of wrong length', text_bad_length)]
for _n, _lo, _hi, _k in (('SMPTELabel', 0, 12, 'list'), ('length', 12, 13, 'int'), ('instanceHigh', 13, 14, 'int'),
                         ('instanceMid', 14, 15, 'int'), ('instanceLow', 15, 16, 'int'), ('Data1', 16, 20, 'int'),
                         ('Data2', 20, 22, 'int'), ('Data3', 22, 24, 'int'), ('Data4', 24, 32, 'list')):
    PROPS += accessor(_n, _lo, _hi, _k)
PROPS += [('MobID material', material), ('MobID equality', equality), ('MobID hashing', hashing), ('MobID ordering', ordering),
          ('MobID construction', construct), ('MobID.new', new), ('integer helpers', ints)]


def ambiguous_text(x, e):
    """the known finding: an id whose text reads as a half-swapped one"""
    B = x.buf('B', 32)
    B = x.cat(B[:11], bytes([0]), B[12:16], bytes([0x34, 0x2b, 0x0e, 6, 0x7f, 0x7f]), B[22:])
    x.assume(ambiguous(B))
    same(x, e.MobID(e.MobID(bytes_le=B).urn), B, 'text form of an id with Data1 060e2b34, Data2 7f7f and label byte 0')
