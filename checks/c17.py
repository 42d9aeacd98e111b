import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import driver, fixed, malform
from pyvc.layouts import components, trackgroups, essence, misc, bins
from checks import c06, c07

LAYOUTS = [l for m in (components, trackgroups, essence, misc, bins) for l in m.LAYOUTS if 'read' in l.which]
SHORT = [l for m in (components, trackgroups, misc) for l in m.NO_MOB_ID]
for _l in SHORT:
    _l.tags = set().union(*(malform.lay_tags(x, 'little') for x in LAYOUTS if x.cls == _l.cls))
LAYOUTS += SHORT


def codec(name):
    return 'malformed' in name or 'cut short' in name or name in ('read_assert_tag', 'iter_ext', 'read_bool') or name.startswith('read_')


def load(name):
    return name.startswith('read_object') or name == 'damaged chunks'


if __name__ == '__main__':
    rep = driver.Report('C17')
    thorough = driver.tier() == 'thorough'
    malform.add_results(rep, LAYOUTS, 60 if thorough else 2, 800 if thorough else 350)
    fixed.add_fixed_results(rep, c06.make_env, 1000 if thorough else 60, 300, only=codec, functions=[
        'avb.ioctx.AVBIOContext.' + n for n in ('read_assert_tag', 'iter_ext', 'read_uuid', 'read_raw_uuid', 'read_mob_id', 'read_rect',
                                                'read_rgb_color', 'read_datetime', 'read_exp10_encoded_float')])
    fixed.add_fixed_results(rep, c07.make_env, 4000 if thorough else 200, 300, only=load, functions=['avb.file.AVBFile.read_object'])
    rep.assumptions = [
        'a wrong marker is not one that gives another well-formed record: 01, 02 and 03 are not exchanged for each other, a block tag not '
        'for that of another block of the class',
        'length words and reserved bytes are not markers; the words naming the kind of a value are (part choices)',
        driver.CODEC_ASSUMPTION,
        'io.BytesIO.read returns what is left when less is left than was asked for',
    ] + driver.COMMON_ASSUMPTIONS[1:]
    rep.trusted.append('record layouts in pyvc/layouts (the specification)')
    sys.exit(rep.finish('python3-vt checks/c17.py'))
