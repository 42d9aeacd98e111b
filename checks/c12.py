import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from types import SimpleNamespace as NS
from pyvc import driver, fixed, seqprops


def make_env(symbolic):
    if symbolic is None:
        return seqprops.PROPS, None, None
    mods = driver.load_avb()
    sym = None
    if symbolic:
        pk = fixed.SymPackage(driver.SRC + '/avb', ['utils', 'core', 'components'])
        sym = NS(components=pk.load('components'), core=pk.load('core'))
    import avb
    return seqprops.PROPS, sym, NS(components=mods['components'], core=mods['core'], avb=avb)


if __name__ == '__main__':
    rep = driver.Report('C12')
    thorough = driver.tier() == 'thorough'
    fixed.add_fixed_results(rep, make_env, 20000 if thorough else 600, 300, functions=[
        'avb.components.Sequence.' + n for n in 'length positions nearest_index_at_time nearest_component_at_time'.split()])
    rep.assumptions = [
        'a component is observed only through class_id and length, which do not change during the call',
        'components are the items of the list in order (list and reference-list access: C09)',
        'Python integers are mathematical integers']
    sys.exit(rep.finish('python3-vt checks/c12.py'))
