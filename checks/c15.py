import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from types import SimpleNamespace as NS
from pyvc import driver, fixed, depprops


def make_env(symbolic):
    if symbolic is None:
        return depprops.PROPS, None, None
    mods = driver.load_avb()
    sym = None
    if symbolic:
        pk = fixed.SymPackage(driver.SRC + '/avb', ['utils', 'core', 'components', 'trackgroups', 'mobid'])
        sym = NS(components=pk.load('components'), trackgroups=pk.load('trackgroups'))
    import avb
    return depprops.PROPS, sym, NS(avb=avb, **mods)


if __name__ == '__main__':
    rep = driver.Report('C15')
    thorough = driver.tier() == 'thorough'
    fixed.add_fixed_results(rep, make_env, 20000 if thorough else 400, 600, functions=[
        'avb.trackgroups.TrackGroup.dependant_mobs', 'avb.components.SourceClip.mob'])
    rep.assumptions = [
        'walk_references yields every source clip of a mob (C08) and nothing changes during the listing',
        'the mobs of a bin have different ids, equal ids mean the same mob (C14, C09), and there are finitely many mobs',
        'a dependency that itself depends on the mob (a cycle) cannot come before and after it; the order is required of all others',
        'set and list behave as documented; reachability is the least set containing the start and closed under the clips']
    sys.exit(rep.finish('python3-vt checks/c15.py'))
