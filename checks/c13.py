import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from types import SimpleNamespace as NS
from pyvc import driver, fixed, curveprops


def make_env(symbolic):
    if symbolic is None:
        return curveprops.PROPS, None, None
    mods = driver.load_avb()
    sym = None
    if symbolic:
        pk = fixed.SymPackage(driver.SRC + '/avb', ['utils', 'core', 'components', 'interpolation'])
        sym = NS(components=pk.load('components'), interpolation=pk.load('interpolation'))
    return curveprops.PROPS, sym, NS(components=mods['components'], interpolation=mods['interpolation'])


if __name__ == '__main__':
    rep = driver.Report('C13')
    thorough = driver.tier() == 'thorough'
    fixed.add_fixed_results(rep, make_env, 20000 if thorough else 600, 300, functions=[
        'avb.components.ParamClip.nearest_index', 'avb.components.ParamClip.value_at', 'avb.components.ParamClip.interp',
        'avb.components.ParamControlPoint.time', 'avb.interpolation.lerp'])
    rep.assumptions = [
        'floating-point arithmetic of keyframe times and values is treated as exact real arithmetic in the proofs (rounding is '
        'only sampled: within 1e-9 relative for linear interpolation, exact elsewhere)',
        'a keyframe is observed only through its time and value, which do not change during the call']
    sys.exit(rep.finish('python3-vt checks/c13.py'))
