"""Record layouts of src/avb/components.py"""
import z3
from ..layout import *

COMPONENT = [T(2, 3), ObjRef('left_bob'), ObjRef('right_bob'), Int('s16', 'media_kind_id'), Val('exp10', 'edit_rate'),
             NameStr('name'), NameStr('effect_id'), ObjRef('attributes'), ObjRef('session_attrs'), ObjRef('precomputed'),
             Opt(1, [T(72), ObjRef('param_list')], 'param_list')]
CLIP = [COMPONENT, T(2, 1), Int('u32', 'length')]


def lo(env, fields, name='mob_id'):
    return env.uuid_part(fields[name][1].t, 'time_low')


def hi(env, fields, name='mob_id'):
    m = fields[name][1].t
    return env.uuid_part(m, 'time_mid') + env.uuid_part(m, 'time_hi_version') * 65536


class SourceClipMob(Item):
    """mob id: low and high halves of its material, then track, start and the full id in block 1"""
    def make(self, env, fields):
        f = {}
        mob = Val('mobid', 'mob_id').make(env, f)
        segs = [iseg(env, 'u32', lo(env, f)), iseg(env, 'u32', hi(env, f))]
        segs += make_items([Int('s16', 'track_id'), Int('s32', 'start_time'), T(1, 1)], env, fields) + mob
        fields.update(f)
        return segs


CP_VALUE = OuterSwitch(('value_type', 2, True), [(1, Int('s32', 'value')), (2, Val('double', 'value')), (4, ObjRef('value'))])
PP = [Int('s16', 'code'), Choice('s16', 'type', [1, 2]), Switch('type', [(1, Int('s32', 'value')), (2, Val('double', 'value'))])]

LAYOUTS = [
    Layout('Sequence', [COMPONENT, T(2, 3), Rep('u32', 'components', 'ref', listcls='AVBRefList'), T(3)]),
    Layout('SourceClip', [CLIP, T(2, 3), SourceClipMob(), T(3)]),
    Layout('Timecode', [CLIP, T(2, 1), Int('u32', 'flags'), Int('u16', 'fps'), [Zero('u8')] * 6, Int('u32', 'start'), T(3)]),
    Layout('Edgecode', [CLIP, T(2, 1), FixedBytes('header', 8), Int('u8', 'film_kind'), Int('u8', 'code_format'),
                        Int('u16', 'base_perf'), Zero('u32'), Int('s32', 'start_ec'), T(3)]),
    Layout('TrackRef', [CLIP, T(2, 1), Int('s16', 'relative_scope'), Int('s16', 'relative_track'), T(3)]),
    Layout('ParamClip', [CLIP, T(2, 1), Int('s32', 'interp_kind'), Choice('s16', 'value_type', [1, 2, 4]),
                         Rep('s32', 'control_points', 'ParamControlPoint',
                             [IntList('s32', 'offset', 2), Int('s32', 'timescale'), CP_VALUE,
                              Rep('s16', 'pp', 'ParamControlPointProperty', PP)]),
                         Opt(1, [T(71), Int('s32', 'extrap_kind')], 'extrap_kind'),
                         Opt(2, [T(71), Int('s32', 'fields')], 'fields'), T(3)]),
    Layout('ControlClip', [CLIP, T(2, 3), Int('s32', 'interp_kind'),
                           Rep('s32', 'control_points', 'ControlPoint',
                               [IntList('s32', 'offset', 2), Int('s32', 'time_scale'), T(1), IntList('s32', 'value', 2),
                                Rep('s16', 'pp', 'ControlPointProperty', [Int('s16', 'code'), IntList('s32', 'value', 2)])]),
                           T(3)]),
    Layout('Filler', [CLIP, T(2, 1, 3)]),
]

# the full mob id is an optional block; records read without it cannot be written again
NO_MOB_ID = [
    Layout('SourceClip', [CLIP, T(2, 3), Int('u32', 'x_lo'), Int('u32', 'x_hi'), Int('s16', 'track_id'), Int('s32', 'start_time'),
                          T(3)], name='SourceClip without mob id block'),
]
