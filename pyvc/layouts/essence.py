"""Record layouts of src/avb/essence.py"""
import z3
from ..layout import *


def s32s(*names):
    return [Int('s32', n) for n in names]


MDES = [T(2, 3), Int('u8', 'mob_kind'), ObjRef('locator'), Bool('intermediate'), ObjRef('physical_media'),
        Opt(1, [T(65), Raw('s32', 16), Val('rawuuid', 'uuid')], 'uuid'),
        Opt(2, [T(65), LenBytes('s32', 'wchar')], 'wchar'),
        Opt(3, [T(72), ObjRef('attributes')], 'attributes')]
MDFL = [MDES, T(2, 3), Val('exp10', 'edit_rate'), Int('s32', 'length'), Int('s16', 'is_omfi'), Int('s32', 'data_offset')]


class Magic(Item):
    """four constant characters"""
    def __init__(self, b):
        self.b = b

    def make(self, env, fields):
        return [iseg(env, 'u8', env.mark(c, 1, False)) for c in bytearray(self.b)]


AUDIO = [Int('u16', 'channels'), Int('u16', 'quantization_bits'), Val('exp10', 'sample_rate'), Bool('locked'),
         Int('s16', 'audio_ref_level'), Int('s32', 'electro_spatial_formulation'), Int('u16', 'dial_norm'),
         Int('u32', 'coding_format')]

DIDD = [MDFL, T(2, 2),
        s32s('stored_height', 'stored_width', 'sampled_height', 'sampled_width', 'sampled_x_offset', 'sampled_y_offset',
             'display_height', 'display_width', 'display_x_offset', 'display_y_offset'),
        Int('s16', 'frame_layout'), IntList('s32', 'aspect_ratio', 2),
        Rep('s32', 'line_map', 'value', [Int('s32', 'v')], scale=4),
        Int('s32', 'alpha_transparency'), Bool('uniformness'), Int('s32', 'did_image_size'), ObjRef('next_did_desc'),
        FourCC('compress_method'), s32s('resolution_id', 'image_alignment_factor'),
        Opt(1, [T(69), Int('s16', 'frame_index_byte_order')]),
        Opt(2, [T(71), Int('s32', 'frame_sample_size')]),
        Opt(3, [T(71), Int('s32', 'first_frame_offset')]),
        Opt(4, [T(71), Int('s32', 'client_fill_start'), T(71), Int('s32', 'client_fill_end')]),
        Opt(5, [T(71), Int('s32', 'offset_to_rle_frame_index')]),
        Opt(6, [T(71), Int('s32', 'frame_start_offset')]),
        Opt(8, [Box('valid_box'), Box('essence_box'), Box('source_box')]),
        Opt(9, [Box('framing_box'), T(71), Int('s32', 'reformatting_option')]),
        Opt(10, [T(80), Val('rawuuid', 'transfer_characteristic')]),
        Opt(11, [T(80), Val('rawuuid', 'color_primaries'), T(80), Val('rawuuid', 'coding_equations')]),
        Opt(12, [T(80), Val('rawuuid', 'essence_compression')]),
        Opt(14, [T(68), Int('u8', 'essence_element_size_kind')]),
        Opt(15, [T(66), Bool('frame_checked_with_mapper')])]
CDCI = [DIDD, T(2, 2), Int('u32', 'horizontal_subsampling'), Int('u32', 'vertical_subsampling'), Int('s32', 'component_width'),
        Int('s16', 'color_sitting'), Int('u32', 'black_ref_level'), Int('u32', 'white_ref_level'), Int('u32', 'color_range'),
        Int('s64', 'frame_index_offset'), Opt(1, [T(72), Int('u32', 'alpha_sampled_width')]), Opt(2, [T(72), Int('u32', 'ignore_bw')])]


class PixelLayout(Item):
    """component codes, then component sizes, each as a counted byte string; one {Code, Size} entry per component"""
    def make(self, env, fields):
        if env.symbolic:
            codes, sizes = env.val('codes', 'bytes', 0x7fffffff), env.val('sizes', 'bytes', 0x7fffffff)
            n = blen(codes)
            env.fact(blen(sizes) == n)

            def elem(k):
                facts = [f for t in (codes, sizes) for f in (bat(t, k) >= 0, bat(t, k) <= 255)]
                t = z3.BoolVal(True)
                return VDict({'Code': (t, VLeaf('int', bat(codes, k))), 'Size': (t, VLeaf('int', bat(sizes, k)))}), facts
            v = VMany(n, elem)
        else:
            codes = env.val('codes', 'bytes', 12)
            sizes = env.fixed_bytes('sizes', len(codes)) if codes else b''
            n = len(codes)
            v = VList([VDict({'Code': (True, VLeaf('int', c)), 'Size': (True, VLeaf('int', z))})
                       for c, z in zip(bytearray(codes), bytearray(sizes))])
        fields['pixel_layout'] = (always(env), v)
        z = const_int(env, 0)
        return [iseg(env, 'u32', n), BlobSeg(codes, z, n), iseg(env, 'u32', n), BlobSeg(sizes, z, n)]


LAYOUTS = [
    Layout('MediaDescriptor', [MDES, T(3)]),
    Layout('TapeDescriptor', [MDES, T(2, 2), Int('s16', 'cframe'), T(3)]),
    Layout('FilmDescriptor', [MDES, T(2, 1, 3)]),
    Layout('NagraDescriptor', [MDES, T(2, 1, 3)]),
    Layout('MediaFileDescriptor', [MDFL, T(3)]),
    Layout('MultiDescriptor', [MDFL, T(2, 1), Rep('s32', 'descriptors', 'ref', listcls='AVBRefList'), T(3)]),
    Layout('WaveDescriptor', [MDFL, T(2, 1), Magic(b'RIFF'), Endian('little', [LenBytes('u32', 'summary')]), T(3)]),
    Layout('AIFCDescriptor', [MDFL, T(2, 1), Magic(b'FORM'), Endian('big', [LenBytes('u32', 'summary')]),
                              Opt(1, [T(71), Int('s32', 'data_pos')]), T(3)]),
    Layout('PCMADescriptor', [MDFL, T(2, 1), AUDIO, Int('u32', 'block_align'), Int('u16', 'sequence_offset'),
                              Int('u32', 'average_bps'), Bool('has_peak_envelope_data'),
                              s32s('peak_envelope_version', 'peak_envelope_format', 'points_per_peak_value',
                                   'peak_envelope_block_size', 'peak_channel_count', 'peak_frame_count'),
                              Int('u64', 'peak_of_peaks_offset'), Int('s32', 'peak_envelope_timestamp'),
                              Opt(1, [T(77), Int('s64', 'ebu_timestamp')]), Opt(3, [T(76), Str('timecode_framerate')]), T(3)]),
    Layout('MPGADescriptor', [MDFL, T(2, 1), AUDIO, Int('u32', 'bit_rate'), Opt(1, [T(77), Int('u64', 'sub_frame_alignment')]),
                              Opt(2, [T(77), Int('u64', 'origin')]), T(3)]),
    Layout('DIDDescriptor', [DIDD, T(3)]),
    Layout('CDCIDescriptor', [CDCI, T(3)]),
    Layout('MPGIDescriptor', [CDCI, T(2, 1), Int('u8', 'mpeg_version'), Int('u8', 'profile'), Int('u8', 'gop_structure'),
                              Int('u8', 'stream_type'), Bool('random_access'), Bool('leading_discard'),
                              Bool('trailing_discard'), Int('u16', 'min_gop_length'), Int('u16', 'max_gop_length'),
                              LenBytes('s32', 'sequence_hdr'), T(3)]),
    Layout('JPEGDescriptor', [CDCI, T(2, 1), Int('s32', 'jpeg_table_id'), Int('u64', 'jpeg_frame_index_offset'),
                              LenBytes('s32', 'quantization_tables'), Opt(1, [T(71), Int('s32', 'image_start_align')]), T(3)]),
    Layout('RGBADescriptor', [DIDD, T(2, 1), PixelLayout(), Raw('u32', 0), Raw('u32', 0), Raw('u32', 0),
                              Opt(1, [T(77), Int('u64', 'frame_index_offset')]),
                              Opt(2, [T(66), Bool('has_comp_min_ref'), T(72), Int('u32', 'comp_min_ref'),
                                      T(66), Bool('has_comp_max_ref'), T(72), Int('u32', 'comp_max_ref')], 'comp_refs'),
                              Opt(3, [T(72), Int('u32', 'alpha_min_ref'), T(72), Int('u32', 'alpha_max_ref')]), T(3)]),
    Layout('DataDescriptor', [MDFL, T(2, 1), Bool('is_offset_to_frame_indexes_valid'), Int('u64', 'offset_to_frame_indexes'),
                              s32s('first_frame_offset', 'min_sample_size', 'max_sample_size')]),
    Layout('ANCDataDescriptor', [MDFL, T(2, 1), Bool('is_offset_to_frame_indexes_valid'),
                                 Int('u64', 'offset_to_frame_indexes'),
                                 s32s('first_frame_offset', 'min_sample_size', 'max_sample_size'),
                                 T(2, 1), Int('s32', 'manifest_element_count'), T(3)]),
]
