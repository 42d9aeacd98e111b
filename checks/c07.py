import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from types import SimpleNamespace as NS
from pyvc import driver, fixed, fileprops

MODS = ('utils', 'core', 'attributes', 'ioctx', 'file')

FUNCTIONS = ['avb.file.AVBFile.' + n for n in ('__init__', 'write_header', 'read_chunk', 'read_object', 'chunks', 'iter_class_ids', 'write_object', 'write',
                                               'close')] + [
    'avb.file.AVBChunk.__init__', 'avb.file.AVBChunk.read', 'avb.core.AVBObject.__new__', 'avb.utils.reverse_str']
ASSUMPTIONS = [
    'the stream given to open/write behaves as documented: read(n) gives the n bytes at the position or all that are left, seek sets the position',
    'array, bytearray, weakref.WeakValueDictionary and dict as documented (pyvc/ghost.py, GArr in pyvc/fileprops.py)',
    'a reader of a class reads the payload given to it and nothing else, or raises (decided per class by C01, C02, C04)',
    'a writer of a class writes one chunk at the end of the file, or raises (decided per class by C01, C02, C04)',
    'walk_references yields every object reachable from the root, each after what it refers to (decided by C08)',
    'write_header is proved for creator versions that encode to 0..33, 64 or 255 bytes; other lengths are sampled',
    'fewer than 2**32 - 1 objects in a file',
    'integers are unbounded as in Python',
]


def make_env(symbolic):
    if symbolic is None:
        return fileprops.PROPS, None, None
    mods = driver.load_avb()
    sym = None
    if symbolic:
        pk = fileprops.package(MODS)
        sym = NS(**{m: pk.load(m) for m in MODS})
    import avb
    return fileprops.PROPS, sym, NS(avb=avb, **mods)


if __name__ == '__main__':
    rep = driver.Report('C07')
    thorough = driver.tier() == 'thorough'
    fixed.add_fixed_results(rep, make_env, 4000 if thorough else 300, 300, functions=FUNCTIONS)
    rep.assumptions = ASSUMPTIONS
    sys.exit(rep.finish('python3-vt checks/c07.py'))
