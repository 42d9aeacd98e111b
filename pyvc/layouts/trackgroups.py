"""Record layouts of src/avb/trackgroups.py"""
import z3
from ..layout import *
from .components import COMPONENT, lo, hi
from .misc import MobHalves, s32s

# field, flag bit, item; in the order they are stored
TRACK = [(0x001, Int('s16', 'index')), (0x002, ObjRef('attributes')), (0x200, ObjRef('session_attr')),
         (0x004, ObjRef('component')), (0x008, ObjRef('filler_proxy')), (0x010, ObjRef('bob_data')),
         (0x020, Int('s16', 'control_code')), (0x040, Int('s16', 'control_sub_code')), (0x080, Int('s32', 'start_pos')),
         (0x100, Bool('read_only'))]


class TrackFields(Item):
    """flag word telling which fields of a track are stored, and those fields"""
    def make(self, env, fields):
        flags = const_int(env, 0)
        segs = []
        for bit, item in TRACK:
            f = {}
            ss = item.make(env, f)
            p = env.present(item.name)
            fields[item.name] = (p, f[item.name][1])
            flags = flags + env.ite(p, const_int(env, bit), const_int(env, 0))
            segs += env.cond(p, ss)
        return [iseg(env, 'u16', flags)] + segs


class Tracks(Item):
    """track count, the tracks, and (if there are any) their lock numbers in a block of their own"""
    def __init__(self, least=0, lock=True):
        self.least, self.lock = least, lock

    def make(self, env, fields):
        n = env.count('tracks', 0x7fffffff, self.least)
        sub = env.sub('tracks')
        lock, locked = Int('s16', 'lock_number'), self.lock

        class Both(Item):
            def make(self, e, f):
                segs = TrackFields().make(e, f)
                if locked:
                    lock.make(e, f)
                return segs
        rep = Rep(None, 'tracks', 'Track', [Both()])
        segs = sub.rep(n, rep.element)
        locks = sub.rep(n, lambda e: (None, make_items([T(69), lock if locked else Raw('s16', 0)], e, {})))
        fields['tracks'] = (always(env), rep.value(env, sub, n))
        return [iseg(env, 's32', n)] + segs + env.cond(n > 0, make_items(T(1, 1), env, {}) + locks)


def trkg(least=0, lock=True):
    return [COMPONENT, T(2, 8), Int('u8', 'mc_mode'), s32s('length', 'num_scalars'), Tracks(least, lock)]


TRKG = trkg()
INFO = [s32s('left_length', 'right_length'), Int('s16', 'info_version'), s32s('info_current', 'info_smooth'),
        Int('s16', 'info_color_item'), Int('s16', 'info_quality'), Int('s8', 'info_is_reversed'), Bool('info_aspect_on'),
        ObjRef('keyframes'), Bool('info_force_software'), Bool('info_never_hardware')]
TKFX = [TRKG, T(2, 6), INFO, Opt(2, [T(72), ObjRef('trackman')])]
WARP = [TRKG, T(2, 2), Int('s32', 'phase_offset')]


class Chunk(Item):
    """length of the data, the other fields, the data"""
    def make(self, env, fields):
        segs = make_items([Int('s32', 'version'), Int('u32', 'manufacturer_id'), Int('u32', 'product_id'), Int('u32', 'plugin_id'),
                           Int('u32', 'chunk_id'), Str('name')], env, fields)
        d = LenBytes('s32', 'data').make(env, fields)
        return d[:1] + segs + d[1:]


class Plugin(Item):
    """list of exactly one plug-in"""
    def make(self, env, fields):
        f = {}
        segs = make_items([Str('name'), Int('u32', 'manufacturer_id'), Int('u32', 'product_id'), Int('u32', 'plugin_id'),
                           Rep('s32', 'chunks', 'ASPIPluginChunk', [Chunk()])], env.sub('plugin'), f)
        fields['plugins'] = (always(env), VList([VObj('ASPIPlugin', f)]))
        return [iseg(env, 's32', const_int(env, 1))] + segs


class PluginMob(Item):
    """mob id: halves of its material in block 1, the full id in block 8"""
    def make(self, env, fields):
        f = {}
        mob = Val('mobid', 'mob_id').make(env, f)
        halves = [x for t in (lo(env, f), hi(env, f)) for x in make_items(T(71), env, {}) + [iseg(env, 'u32', t)]]
        p = env.present('mob_id')
        fields['mob_id'] = (p, f['mob_id'][1])
        t = lambda *v: make_items(T(*v), env, {})
        return env.cond(p, t(1, 1) + halves + t(1, 8) + mob)


class PresetPath(Item):
    """optional path, its length stored twice unless it is empty"""
    def make(self, env, fields):
        t = env.val('preset_path', 'bytes', 0xffffffff)
        n = env.blen(t)
        p = env.present('preset_path')
        fields['preset_path'] = (p, VLeaf('bytearray', t))
        c = lambda *v: make_items(T(*v), env, {})
        blob = c(65) + [iseg(env, 'u32', n), BlobSeg(t, const_int(env, 0), n)]
        return env.cond(p, c(1, 9, 72) + [iseg(env, 'u32', n)] + env.cond(n > 0, blob))


class Selected(Item):
    """index of one of the tracks"""
    def make(self, env, fields):
        n = fields['tracks'][1].n if env.symbolic else len(fields['tracks'][1].items)
        if env.symbolic:
            t = env.int('selected', 2, False)
            env.fact(t < n)
        else:
            t = env.int('selected', 2, False, 0, min(max(n - 1, 0), 65535))
        fields['selected'] = (always(env), VLeaf('int', t))
        return [iseg(env, 'u16', t)]


LAYOUTS = [
    Layout('TrackGroup', [TRKG, T(3)]),
    Layout('TrackGroup', [trkg(0, False), T(3)], name='TrackGroup (tracks without lock number)', which=('write',)),
    Layout('TrackEffect', [TKFX, T(3)]),
    Layout('PanVolumeEffect', [TKFX, T(2, 5), s32s('level', 'pan'), Bool('suppress_validation'), Bool('level_set'),
                               Bool('pan_set'), Opt(1, [T(71), Int('s32', 'supports_seperate_gain')]),
                               Opt(2, [T(71), Int('s32', 'is_trim_gain_effect')]), T(3)]),
    Layout('AudioSuitePluginEffect', [TKFX, T(2, 1), Plugin(), PluginMob(), Opt(2, [T(77), Int('s64', 'mark_in')]),
                                      Opt(3, [T(77), Int('s64', 'mark_out')]), Opt(4, [T(72), Int('s32', 'tracks_to_affect')]),
                                      Opt(5, [T(71), Int('s32', 'rendering_mode')]), Opt(6, [T(71), Int('s32', 'padding_secs')]),
                                      PresetPath(), T(3)]),
    Layout('EqualizerMultiBand', [TKFX, T(2, 5), Rep('s32', 'bands', 'EqualizerBand',
                                                     [s32s('type', 'freq', 'gain', 'q'), Bool('enable')]),
                                  Bool('effect_enable'), Str('filter_name'), T(3)]),
    Layout('CaptureMask', [WARP, T(2, 1), Bool('is_double'), Int('u32', 'mask_bits'), T(3)]),
    Layout('StrobeEffect', [WARP, T(2, 1), Int('s32', 'strobe_value'), T(3)]),
    Layout('MotionEffect', [WARP, T(2, 3), IntList('s32', 'speed_ratio', 2), Opt(1, [T(75), Val('double', 'offset_adjust')]),
                            Opt(2, [T(72), ObjRef('source_param_list')]), Opt(3, [T(66), Bool('new_source_calculation')]), T(3)]),
    Layout('Repeat', [WARP, T(2, 1), T(3)]),
    Layout('EssenceGroup', [TRKG, T(2, 1), Opt(1, [T(71), Int('s32', 'rep_set_type')]), T(3)]),
    Layout('TransitionEffect', [TRKG, T(2, 1), Int('s32', 'cutpoint'), T(2, 5), INFO, Opt(1, [T(72), ObjRef('trackman')]), T(3)]),
    Layout('Selector', [trkg(1), T(2, 1), Bool('is_ganged'), Selected(), T(3)]),
    Layout('Composition', [TRKG, T(2, 2), MobHalves(), Val('datetime', 'last_modified'), Int('u8', 'mob_type_id'),
                           Int('s32', 'usage_code'), ObjRef('descriptor'), Opt(1, [T(71), Val('datetime', 'creation_time')]),
                           T(1, 2), Val('mobid', 'mob_id'), T(3)]),
]

HALVES = [Int('u32', 'x_lo'), Int('u32', 'x_hi')]
NO_MOB_ID = [
    Layout('Composition', [TRKG, T(2, 2), HALVES, Val('datetime', 'last_modified'), Int('u8', 'mob_type_id'),
                           Int('s32', 'usage_code'), ObjRef('descriptor'), T(3)], name='Composition without mob id block'),
]
