import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from types import SimpleNamespace as NS
from pyvc import driver, fixed, copyprops

FUNCTIONS = ['avb.core.AVBObject.copy', 'avb.core.AVBRefList.copy', 'avb.core.copy_value', 'avb.attributes.Attributes.copy']
ASSUMPTIONS = [
    'the factory gives a new object of the named class owned by its file (proved: C18)',
    'iterating the properties, a reference list or attributes gives the values with references resolved (proved: C09)',
    'copy.deepcopy of plain values as documented; contained objects are acyclic',
    'objects that share no mutable value cannot see each other being changed (memory model of Python)',
]


def make_env(symbolic):
    if symbolic is None:
        return copyprops.PROPS, None, None
    mods = driver.load_avb()
    sym = None
    if symbolic:
        pk = copyprops.package()
        sym = NS(**{m: pk.load(m) for m in copyprops.MODS})
    import importlib
    import avb
    return copyprops.PROPS, sym, NS(avb=avb, real=mods, **{m: importlib.import_module('avb.' + m) for m in copyprops.MODS})


if __name__ == '__main__':
    rep = driver.Report('C10')
    thorough = driver.tier() == 'thorough'
    fixed.add_fixed_results(rep, make_env, 4000 if thorough else 250, 300, functions=FUNCTIONS)
    rep.assumptions = ASSUMPTIONS
    sys.exit(rep.finish('python3-vt checks/c10.py'))
