import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
# a zone with summer time, so that the sampled times include repeated hours
os.environ['TZ'] = 'CET-1CEST,M3.5.0,M10.5.0/3'
time.tzset()
from types import SimpleNamespace as NS
from pyvc import driver, fixed, codecprops


def make_env(symbolic):
    if symbolic is None:
        return codecprops.PROPS, None, None
    mods = driver.load_avb()

    def env(io, mob):
        C = io.AVBIOContext
        return NS(Ctx=C, ctx={'little': C('little'), 'big': C('big')}, MobID=mob.MobID)
    sym = None
    if symbolic:
        pk = fixed.SymPackage(driver.SRC + '/avb', ['utils', 'mobid', 'ioctx'])
        sym = env(pk.load('ioctx'), pk.load('mobid'))
    return codecprops.PROPS, sym, env(mods['ioctx'], mods['mobid'])


if __name__ == '__main__':
    rep = driver.Report('C06')
    thorough = driver.tier() == 'thorough'
    C = driver.load_avb()['ioctx'].AVBIOContext
    fixed.add_fixed_results(rep, make_env, 20000 if thorough else 300, 300, functions=[
        'avb.ioctx.AVBIOContext.' + n for n in C.__dict__ if n.startswith(('read_', 'write_', '__init__', 'iter_', 'reverse', 'datetime_'))
        and 'object_ref' not in n])
    rep.assumptions = [
        'struct, bytearray and uuid.UUID behave as documented (modelled in pyvc/fixed.py)',
        'strings have no leading or trailing NUL characters; encode and decode of one encoding are inverses (library)',
        'datetime.fromtimestamp and datetime.timestamp are inverses for whole seconds (library, local time without tzinfo)',
        'doubles in edit rates: IEEE round-to-nearest arithmetic, used only through its error bound and exactness on integers up to 2**53',
        'edit rates: decimals with at most six digits after the point and a mantissa of 32 bits']
    sys.exit(rep.finish('python3-vt checks/c06.py'))
