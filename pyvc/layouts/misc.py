"""Record layouts of src/avb/misc.py"""
import z3
from ..layout import *
from .components import lo, hi


def s32s(*names):
    return [Int('s32', n) for n in names]


class MobHalves(Item):
    """low and high half of the material number of mob_id (the full id follows in its own block)"""
    def __init__(self, name='mob_id'):
        self.name = name

    def make(self, env, fields):
        f = {}
        Val('mobid', self.name).make(env, f)
        return [iseg(env, 'u32', lo(env, f, self.name)), iseg(env, 'u32', hi(env, f, self.name))]


def locator(cls):
    return Layout(cls, [T(2, 2), Str('path'), Opt(1, [T(76), Str('path_posix')]), Opt(2, [T(76), Str('path_utf8', 'utf-8')]),
                        Opt(3, [T(76), Str('path2_utf8', 'utf-8')]), T(3)])


class Discards(Item):
    """count; if not zero: twice the count, and the entries"""
    def make(self, env, fields):
        n = env.count('fields', 16383)
        sub = env.sub('fields')
        rep = Rep(None, 'fields', 'list', [Int('u8', 'picture_type'), Int('u32', 'length')])
        segs = sub.rep(n, rep.element)
        fields['fields'] = (always(env), rep.value(env, sub, n))
        return [iseg(env, 's16', n)] + env.cond(n > 0, [iseg(env, 's16', n * 2)] + segs)


class Plus4Bytes(Item):
    """length + 4, length, bytes"""
    def make(self, env, fields):
        t = env.val('data', 'bytes', 0x7fffffff - 4)
        fields['data'] = (always(env), VLeaf('bytearray', t))
        n = env.blen(t)
        return [iseg(env, 's32', n + 4), iseg(env, 's32', n), BlobSeg(t, const_int(env, 0), n)]


REFS = dict(elem='ref', listcls='AVBRefList')
APOS = [T(2, 1), MobHalves(), T(1, 1), Val('mobid', 'mob_id')]
ABOB = [APOS, T(2, 1), s32s('sample_num', 'length'), Int('s16', 'track_type'), Int('s16', 'track_index')]
DIDP = [ABOB, T(2, 1), Int('s32', 'strip'), Int('u64', 'offset'), Int('u64', 'byte_length'), Bool('spos_invalid')]
MCMR = [T(2, 1), MobHalves(), Int('s32', 'position'), T(1, 1), Val('mobid', 'mob_id')]

EFFECT_PARAM = [s32s('percent_time', 'level', 'pos_x', 'floor_x', 'ceil_x', 'pos_y', 'floor_y', 'ceil_y', 'scale_x', 'scale_y',
                     'crop_left', 'crop_right', 'crop_top', 'crop_bottom'), IntList('s32', 'box', 4),
                Bool('box_xscale'), Bool('box_yscale'), Bool('box_xpos'), Bool('box_ypos'), s32s('border_width', 'border_soft'),
                Int('s16', 'splill_gain2'), Int('s16', 'splill_gain'), Int('s16', 'splill_soft2'), Int('s16', 'splill_soft'),
                Int('s8', 'enable_key_flags'), Rep('s32', 'colors', 'value', [Int('s32', 'c')]),
                LenBytes('s32', 'user_param'), Bool('selected')]

LAYOUTS = [
    locator('MacFileLocator'), locator('WinFileLocator'),
    Layout('URLLocator', [T(3)]),
    Layout('GraphicEffect', [T(2, 1), LenBytes('s32', 'pict_data'), T(3)]),
    Layout('ShapeList', [T(2, 1), LenBytes('s32', 'shape_data'), T(3)]),
    Layout('ColorCorrectionEffect', [T(2, 1), LenBytes('s16', 'color_correction'), T(3)]),
    Layout('EffectParamList', [T(2, 0x12), s32s('orig_length', 'window_offset'),
                               CountFirst('s32', Int('s32', 'keyframe_size'), 'parameters', 'EffectParam', EFFECT_PARAM), T(3)]),
    Layout('CFUserParam', [T(2, 1), Int('s16', 'byte_order', 0x4949, 0x4949), Val('rawuuid', 'uuid'), Plus4Bytes(), T(3)]),
    Layout('ParameterItem', [T(2, 2), Val('rawuuid', 'uuid'), Choice('s16', 'value_type', [1, 2, 4]),
                             Switch('value_type', [(1, Int('s32', 'value')), (2, Val('double', 'value')), (4, ObjRef('value'))]),
                             NameStr('name', ''), Bool('enable'), ObjRef('control_track'),
                             Opt(1, [T(66), Bool('contribs_to_sig')]), T(3)]),
    Layout('MSMLocator', [T(2, 2), MobHalves(), Str('last_known_volume'), Opt(1, [T(71), Int('s32', 'domain_type')]),
                          T(1, 2), Val('mobid', 'mob_id'), Opt(3, [T(76), Str('last_known_volume_utf8', 'utf-8')]), T(3)]),
    Layout('Position', [APOS, T(3)]),
    Layout('BOBPosition', [ABOB, T(3)]),
    Layout('DIDPosition', [DIDP, T(3)]),
    Layout('MPGPosition', [DIDP, T(2, 1), Int('s16', 'trailing_discards'), Bool('need_seq_hdr'), Discards(), T(3)]),
    Layout('BinRef', [T(2, 1), s32s('uid_high', 'uid_low'), Str('name'), Opt(1, [T(76), Str('name_utf8', 'utf-8')]), T(3)]),
    Layout('MobRef', [MCMR, T(3)]),
    Layout('Marker', [MCMR, T(2, 3), Int('s32', 'comp_offset'), ObjRef('attributes'), Color('color'),
                      Opt(1, [T(66), Bool('handled_codes')]), T(3)]),
    Layout('TrackerManager', [T(2, 1), ObjRef('data_slots'), ObjRef('param_slots'), T(3)]),
    Layout('TrackerDataSlot', [T(2, 1), Rep('s32', 'tracker_data', **REFS), Opt(1, [T(66), Bool('track_fg')]), T(3)]),
    Layout('TrackerParameterSlot', [T(2, 1), LenBytes('s16', 'settings'), Rep('s32', 'params', **REFS), T(3)]),
    Layout('TrackerData', [T(2, 1), LenBytes('s16', 'settings'), Int('u32', 'clip_version'), Rep('s16', 'clips', **REFS),
                           Opt(1, [T(72), Int('u32', 'offset_tracking')]), Opt(2, [T(72), Int('u32', 'smoothing')]),
                           Opt(3, [T(72), Int('u32', 'jitter_removal')]), Opt(4, [T(75), Val('double', 'filter_amount')]),
                           Opt(5, [T(72), ObjRef('clip5')]), Opt(6, [T(72), ObjRef('clip6')]), T(3)]),
    Layout('TrackerParameter', [T(2, 1), LenBytes('s16', 'settings'), T(3)]),
]

H = [Int('u32', 'x_lo'), Int('u32', 'x_hi')]
P = [T(2, 1), H]
B = [P, T(2, 1), s32s('sample_num', 'length'), Int('s16', 'track_type'), Int('s16', 'track_index')]
D = [B, T(2, 1), Int('s32', 'strip'), Int('u64', 'offset'), Int('u64', 'byte_length'), Bool('spos_invalid')]
R = [T(2, 1), H, Int('s32', 'position')]
NO_MOB_ID = [Layout(c, items, name=c + ' without mob id block') for c, items in [
    ('MSMLocator', [T(2, 2), H, Str('last_known_volume'), T(3)]),
    ('Position', [P, T(3)]), ('BOBPosition', [B, T(3)]), ('DIDPosition', [D, T(3)]),
    ('MPGPosition', [D, T(2, 1), Int('s16', 'trailing_discards'), Bool('need_seq_hdr'), Discards(), T(3)]),
    ('MobRef', [R, T(3)]),
    ('Marker', [R, T(2, 3), Int('s32', 'comp_offset'), ObjRef('attributes'), Color('color'), T(3)])]]
