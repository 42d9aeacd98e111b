import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from types import SimpleNamespace as NS
from pyvc import driver, fixed, createprops
from checks import c07

FUNCTIONS = ['avb.file.AVBFactory.__getattr__', 'avb.file.AVBFactory.from_name', 'avb.file.AVBFile.setup_empty', 'avb.file.AVBFile.add_modified',
             'avb.core.AVBObject.__new__', 'avb.core.AVBObject.__init__', 'avb.core.AVBObject.__setattr__', 'avb.core.AVBObject.mark_modified',
             'avb.core.AVBRefList.__new__', 'avb.attributes.Attributes.__new__', 'avb.components.Component.__init__',
             'avb.components.Component.media_kind', 'avb.components.Sequence.__init__', 'avb.components.SourceClip.__init__',
             'avb.trackgroups.TrackGroup.__init__', 'avb.trackgroups.ASPIPlugin.__init__', 'avb.trackgroups.Composition.__init__',
             'avb.trackgroups.Composition.mob_type', 'avb.bin.BinViewSetting.__init__', 'avb.bin.Bin.__init__', 'avb.mobid.MobID.__init__',
             'avb.mobid.MobID.new', 'avb.utils.generate_uid']
ASSUMPTIONS = [
    'the invariant that no identifier in use exceeds the counter: established by opening (obligations open) and by a new file, kept by '
    'every creation, and loading gives an object the index of its record (C09)',
    'the documented defaults are those of pyvc/defaults.json (the specification, from the reviewed tree)',
    'objects that share no mutable value cannot see each other being changed (memory model of Python)',
    'two calls of uuid4 give different values',
    'arguments of a class that documents none are not part of the property',
    'dict, list, OrderedDict, WeakValueDictionary, copy.deepcopy and datetime as documented',
]


def make_env(symbolic):
    if symbolic is None:
        return createprops.PROPS, None, None
    mods = driver.load_avb()
    sym = None
    if symbolic:
        pk = createprops.package()
        sym = NS(**{m: pk.load(m) for m in createprops.MODS})
    import importlib
    import avb
    return createprops.PROPS, sym, NS(avb=avb, **{m: importlib.import_module('avb.' + m) for m in createprops.MODS})


if __name__ == '__main__':
    rep = driver.Report('C18')
    thorough = driver.tier() == 'thorough'
    fixed.add_fixed_results(rep, make_env, 4000 if thorough else 250, 300, functions=FUNCTIONS)
    fixed.add_fixed_results(rep, c07.make_env, 100, 300, only=lambda n: n.startswith('open '), functions=['avb.file.AVBFile.__init__'])
    rep.assumptions = ASSUMPTIONS
    sys.exit(rep.finish('python3-vt checks/c18.py'))
