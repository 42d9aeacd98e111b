import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from types import SimpleNamespace as NS
from pyvc import driver, fixed, fileprops

MODS = ('utils', 'core', 'attributes', 'ioctx', 'file')

FUNCTIONS = ['avb.core.walk_references', 'avb.ioctx.AVBIOContext.read_object_ref', 'avb.ioctx.AVBIOContext.write_object_ref',
             'avb.utils.AVBObjectRef.value', 'avb.utils.AVBObjectRef.valid', 'avb.file.AVBFile.write', 'avb.file.AVBFile.write_object',
             'avb.file.AVBFile.read_object', 'avb.core.AVBObject.__new__']
ASSUMPTIONS = [
    'the graph of objects is finite and has no cycle of references that are stored (walk_references recurses by contract; termination is not proved)',
    'a helper object (track, control point ...) sits in a list of a property, never elsewhere; a plain list holds no bare references',
    'a reader or writer of a class reads or writes the references listed in its layout (decided per class by C01, C02, C04)',
    'dict, list, WeakValueDictionary, array and streams as documented (pyvc/ghost.py, pyvc/fileprops.py)',
    'fewer than 2**32 - 1 objects in a file',
    'integers are unbounded as in Python',
]


def make_env(symbolic):
    if symbolic is None:
        return fileprops.REF_PROPS, None, None
    mods = driver.load_avb()
    sym = None
    if symbolic:
        pk = fileprops.package(MODS)
        sym = NS(**{m: pk.load(m) for m in MODS})
    import avb
    return fileprops.REF_PROPS, sym, NS(avb=avb, **mods)


if __name__ == '__main__':
    rep = driver.Report('C08')
    thorough = driver.tier() == 'thorough'
    fixed.add_fixed_results(rep, make_env, 4000 if thorough else 300, 300, functions=FUNCTIONS)
    rep.assumptions = ASSUMPTIONS
    sys.exit(rep.finish('python3-vt checks/c08.py'))
