"""Record layouts of src/avb/bin.py and src/avb/attributes.py"""
import z3
from ..layout import *
from .misc import s32s

SETTING = [T(2, 6), Str('name'), Str('kind'), Int('s16', 'attr_count'), Int('s16', 'attr_type'), ObjRef('attributes')]


class FormatDescriptors(Item):
    """format descriptors: id, size, then 16-bit size + 2, two zero bytes and the UTF-8 text"""
    def make(self, env, fields):
        class Text(Item):
            def make(self, e, f):
                t = e.val('format_descriptor', 'str', 32765, 'utf-8')
                f['format_descriptor'] = (always(e), VLeaf('str', t))
                b = e.enc_bytes(t, 'utf-8')
                n = e.blen(b)
                return (make_items([T(71)], e, {}) + [iseg(e, 's32', n)] + make_items([T(76)], e, {}) +
                        [iseg(e, 's16', n + 2), iseg(e, 's16', const_int(e, 0)), BlobSeg(b, const_int(e, 0), n)])
        rep = Rep('u16', 'format_descriptors', 'dict', [T(69), Int('s16', 'vcid_free_column_id'), Text()])
        return Opt(1, [T(69), rep], 'format_descriptors').make(env, fields)


COLUMNS = Rep('u16', 'columns', 'dict', [Str('title'), Int('s16', 'format'), Int('s16', 'type'), Bool('hidden')])
BIN_ITEM = [ObjRef('mob'), Int('s16', 'x'), Int('s16', 'y'), Int('s32', 'keyframe'), Bool('user_placed')]


class Items(Item):
    """record version (large or not), the two fields that follow it, and the counted items

    overfull: more items than the small form holds, in a bin not flagged large"""
    def __init__(self, overfull=False):
        self.overfull = overfull

    def make(self, env, fields):
        large = env.bool('large_bin')
        n = env.count('items', 0xffffffff, 0x10000 if self.overfull else 0)
        if env.symbolic:
            env.fact(z3.Not(large) if self.overfull else z3.Or(large, n <= 0xffff))
        elif self.overfull:
            large = False
        fields['large_bin'] = (always(env), VLeaf('bool', large))
        if self.overfull:
            large = always(env)
        mid = make_items([ObjRef('view_setting'), Int('u64', 'uid')], env, fields)
        rep = Rep(None, 'items', 'BinItem', BIN_ITEM)
        sub = env.sub('items')
        segs = sub.rep(n, rep.element)
        fields['items'] = (always(env), rep.value(env, sub, n))
        return ([iseg(env, 'u8', env.ite(large, const_int(env, 0x0f), const_int(env, 0x0e)))] + mid +
                env.cond(large, [iseg(env, 'u32', n)], [iseg(env, 'u16', n)]) + segs)


class Sifted(Item):
    def make(self, env, fields):
        segs, items = [], []
        for i in range(6):
            f = {}
            segs += make_items([Int('s16', 'method'), Str('string'), Str('column')], env.sub('sift%d' % i), f)
            items.append(VObj('SiftItem', f))
        fields['sifted_settings'] = (always(env), VList(items))
        return segs


def abin(overfull=False):
    return [T(2), Items(overfull), Int('s32', 'display_mask'), Int('s16', 'display_mode'), Bool('sifted'), Sifted(),
            Rep('s16', 'sort_columns', 'list', [Int('u8', 'direction'), Str('column')]),
            Int('s16', 'mac_font'), Int('s16', 'mac_font_size'), Int('s16', 'mac_image_scale'), Rect('home_rect'),
            Color('background_color'), Color('forground_color'), Int('s16', 'ql_image_scale'), ObjRef('attributes'),
            Bool('was_iconic')]


ABIN = abin()


class Refs(Item):
    """counted list of references: the whole record"""
    def __init__(self, kind, cls):
        self.kind, self.cls = kind, cls

    def make(self, env, fields):
        f = {}
        segs = Rep(self.kind, 'items', 'ref', listcls=self.cls).make(env, f)
        fields['__self__'] = f['items']
        return segs


class Attrs(Item):
    """counted typed, named values"""
    def make(self, env, fields):
        n = env.count('attrs', 0xffffffff)
        sub = env.sub('attrs')

        seen = {}

        def element(e):
            kinds = [1, 2, 3, 4]
            t = e.choice('type', kinds, 'u32')
            f = {'type': (None, VLeaf('int', t))}
            if not env.symbolic:
                # the keys of a mapping are distinct
                k = e._k('key')
                key = e.val('key', 'str', 65000, 'macroman')
                while seen.setdefault(key, k) != k:
                    key = '%s%d' % (key[:60000], len(seen))
                e.ch.memo[k] = key
            head = make_items([Str('key')], e, f)
            sw = Switch('type', [(1, Int('s32', 'value')), (2, Str('value')), (3, ObjRef('value')), (4, LenBytes('u32', 'value'))])
            segs = [iseg(e, 'u32', e.stored(t, kinds, 'u32'))] + head + sw.make(e, f)
            return f['key'][1], f['value'][1], segs
        segs = sub.rep(n, lambda e: (None, element(e)[2]))
        if env.symbolic:
            def elem(k):
                e = sub.elem(k)
                key, v, _ = element(e)
                return key, v, e.facts
            v = VMap(n, elem, 'Attributes')
        else:
            pairs = []
            for i in range(n):
                e = sub.elem(i)
                key, v, _ = element(e)
                pairs.append((key, v))
            v = VPairs(pairs, 'Attributes')
        fields['__self__'] = (always(env), v)
        return [iseg(env, 'u32', n)] + segs


LAYOUTS = [
    Layout('BinViewSetting', [SETTING, T(2, 10), COLUMNS, FormatDescriptors(), T(3)]),
    Layout('Bin', [ABIN, T(3)]),
    Layout('Bin', [abin(True), T(3)], name='Bin (more items than fit the small form)', which=('write',)),
    Layout('BinFirst', [ABIN, T(2, 1), Int('s32', 'unknown_s32'), T(3)]),
    Layout('Attributes', [T(2, 1), Attrs(), T(3)], kind='map'),
    Layout('ParameterList', [T(2, 1), Refs('s32', 'ParameterList'), T(3)], kind='list'),
    Layout('TimeCrumbList', [T(2, 1), Refs('s16', 'TimeCrumbList'), T(3)], kind='list'),
]
