import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from types import SimpleNamespace as NS
from pyvc import driver, fixed, binprops


def make_env(symbolic):
    if symbolic is None:
        return binprops.PROPS, None, None
    mods = driver.load_avb()
    sym = None
    if symbolic:
        pk = fixed.SymPackage(driver.SRC + '/avb', ['utils', 'core', 'bin', 'components', 'trackgroups', 'mobid'])
        sym = NS(bin=pk.load('bin'), trackgroups=pk.load('trackgroups'))
    import avb
    return binprops.PROPS, sym, NS(bin=mods['bin'], trackgroups=mods['trackgroups'], mobid=mods['mobid'], avb=avb)


if __name__ == '__main__':
    rep = driver.Report('C14')
    thorough = driver.tier() == 'thorough'
    fixed.add_fixed_results(rep, make_env, 5000 if thorough else 200, 300, functions=[
        'avb.bin.Bin.' + n for n in 'mobs toplevel compositionmobs mastermobs find_by_mob_id add_mob'.split()] + [
        'avb.trackgroups.Composition.mob_type', 'avb.core.AVBObject.__init__', 'avb.core.AVBObject.__setattr__'])
    rep.assumptions = [
        'every item of the bin has a mob with a known mob type and a mob id, and the mobs of a bin have different ids',
        'items are added through add_mob once the first look-up was made (direct edits of the list: known finding)',
        'mob ids are opaque keys whose equality and hash agree (C11); dict and list behave as documented']
    sys.exit(rep.finish('python3-vt checks/c14.py'))
