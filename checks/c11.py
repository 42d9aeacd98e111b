import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from types import SimpleNamespace as NS
from pyvc import driver, fixed, mobprops


def make_env(symbolic):
    props = mobprops.PROPS + [('ambiguous text', mobprops.ambiguous_text, 'concrete')]
    if symbolic is None:
        return props, None, None
    mods = driver.load_avb()
    sym = None
    if symbolic:
        pk = fixed.SymPackage(driver.SRC + '/avb', ['utils', 'mobid'])
        m = pk.load('mobid')
        sym = NS(MobID=m.MobID, mod=m, utils=pk.load('utils'))
    return props, sym, NS(MobID=mods['mobid'].MobID, mod=mods['mobid'], utils=mods['utils'])


if __name__ == '__main__':
    rep = driver.Report('C11')
    thorough = driver.tier() == 'thorough'
    fixed.add_fixed_results(rep, make_env, 20000 if thorough else 300, 300, functions=[
        'avb.mobid.MobID.' + n for n in '__init__ new material SMPTELabel length instanceHigh instanceMid instanceLow Data1 Data2 '
        'Data3 Data4 from_dict to_dict int __int__ __eq__ __ne__ __lt__ __le__ __gt__ __ge__ __hash__ urn __repr__'.split()] + [
        'avb.mobid.UniqueMobID', 'avb.utils.int_from_bytes', 'avb.utils.bytes_from_int', 'avb.utils.unpack_u16le_from',
        'avb.utils.unpack_u32le_from'])
    rep.assumptions = [
        'struct, bytearray, int, str formatting and uuid.UUID behave as documented (modelled in pyvc/fixed.py)',
        'uuid.uuid4 returns some UUID (that successive ones differ is only sampled)',
        'the text form of an id that is not half-swapped but whose text reads as if it were is excluded (known finding)']
    sys.exit(rep.finish('python3-vt checks/c11.py'))
