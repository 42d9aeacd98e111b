import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from types import SimpleNamespace as NS
from pyvc import driver, fixed, ghost, identprops


FUNCTIONS = [
    'core.AVBPropertyData: __getitem__, items, values, get, deref',
    'core.AVBRefList: every overridden list method, __init__, mark_modified', 'attributes.Attributes: every overridden OrderedDict method',
    'core.AVBObject.__getattr__/__setattr__, mark_modified', 'utils.AVBObjectRef.value, __eq__', 'file.AVBFile.add_modified',
]


def make_env(symbolic):
    if symbolic is None:
        return identprops.PROPS, None, None
    mods = driver.load_avb()
    sym = None
    if symbolic:
        pk = ghost.package(['utils', 'core', 'attributes', 'file'])
        sym = NS(**{m: pk.load(m) for m in ('utils', 'core', 'attributes', 'file')})
    import avb
    return identprops.PROPS, sym, NS(avb=avb, **mods)


if __name__ == '__main__':
    rep = driver.Report('C09')
    thorough = driver.tier() == 'thorough'
    fixed.add_fixed_results(rep, make_env, 4000 if thorough else 300, 300, functions=FUNCTIONS)
    rep.assumptions = [
        'contracts of list, collections.OrderedDict, sorted and dict as documented (pyvc/ghost.py); WeakValueDictionary keeps an entry while the object is alive',
        'read_object is used by its contract: one live object per index while it is alive (decided by C07)',
        'items of a reference list are None, references, numbers standing for references or objects; arguments of index/count/remove/in are objects or None, not raw references',
        'sort keys are pure functions of the item; property names differ from instance_id',
        'integers are unbounded as in Python',
    ]
    sys.exit(rep.finish('python3-vt checks/c09.py'))
