import os
import shutil
import sys
import tempfile
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from types import SimpleNamespace as NS
from pyvc import classproof, cprims, driver, extdiff, extproof, extprops, fixed, ghost, fileprops, malform
from pyvc.concrete import Harness, ModelChooser, encode
from pyvc.layout import ConcEnv


def parts(lay):
    return ('read',) + malform.which(lay)

KNOWN = 'CMPO TKFX MDES DIDD CDCI SLCT SEQU FILL SCLP PRCL PRIT TRKR FXPS ATTR'.split()


def code_of(mods, lay):
    return Harness(mods, 'little').cls(lay.cls).class_id or b''


def model_record(mods, lay, conds):
    """bytes of a record that fails the obligation, if the solver can name one with few items"""
    for m in driver.small_models(conds):
        try:
            v, segs = lay.make(ConcEnv('little', ModelChooser(mods, m, None)))
            return encode(segs).hex()
        except Exception:
            pass
    return None


def proof_task(lay, part, compiled, deadline_s):
    """one obligation about the reader of a class, compiled or plain, against its record layout"""
    mods = driver.load_avb()
    scratch = tempfile.mkdtemp(prefix='c16-')
    try:
        t0 = time.time()
        obs = classproof.Obligations()
        if compiled:
            m, c, y = extproof.generate(scratch)
            I = extproof.make_interp(mods, m, scratch)
            V = extproof.ExtVerifier(I, mods, obs, time.time() + deadline_s)
        else:
            I = driver.make_interp(mods)
            V = classproof.ClassVerifier(I, mods, obs, time.time() + deadline_s)
        classproof.check_class(V, lay, obs, orders=('little',), which=(part,))
        o = obs.items[0]
        r = dict(name=o['name'], status=o['status'], detail=o['detail'], goals=o['ctx'] if o['status'] == 'discharged' else 0, record=None)
        if o['status'] == 'refuted' and o['conds'] is not None and part == 'read':
            r['record'] = model_record(mods, lay, o['conds'])
        r.update(queries=I.solver.queries, solver_s=I.solver.time, used=sorted(I.used), wall=time.time() - t0)
        return r
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def body_task():
    mods = driver.load_avb()
    scratch = tempfile.mkdtemp(prefix='c16-')
    try:
        m, c, y = extproof.generate(scratch)
        return dict(res=extproof.check_bodies(mods, m, scratch), readers=sorted(k.decode() for k in m.READERS),
                    failed=[str(x)[:300] for x in list(c.failed) + list(y.failed)])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def prim_task(name):
    scratch = tempfile.mkdtemp(prefix='c16-')
    try:
        return dict(res=cprims.verify(extproof.find(driver.REPO, '_ext_core.cpp'), scratch, only=name))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def diff_task(samples, extra):
    scratch = tempfile.mkdtemp(prefix='c16-')
    try:
        return dict(res=extdiff.run(KNOWN, samples, driver.seed(), scratch, 4, extra))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def make_env(which):
    def env(symbolic):
        props = extprops.DICT if which == 'dict' else extprops.FILE
        if symbolic is None:
            return props, None, None
        mods = driver.load_avb()
        sym = None
        if symbolic:
            names = ('utils', 'core', 'attributes', 'file') if which == 'dict' else ('utils', 'core', 'attributes', 'ioctx', 'file')
            pk = extprops.package(list(names)) if which == 'dict' else fileprops.package(names)
            sym = NS(**{m: pk.load(m) for m in names})
        import avb
        return props, sym, NS(avb=avb, **mods)
    return env


dict_env, file_env = make_env('dict'), make_env('file')


def main():
    rep = driver.Report('C16')
    thorough = driver.tier() == 'thorough'
    samples = 250 if thorough else 40
    limit = 800 if thorough else 330
    mods = driver.load_avb()
    lays = [l for l in extdiff.layouts() if code_of(mods, l).decode('latin-1') in KNOWN]
    tasks = [(('diff',), diff_task, (samples, []))]
    tasks += [(('body',), body_task, ())]
    heavy = ('DIDD', 'CDCI')
    for lay in sorted(lays, key=lambda l: code_of(mods, l).decode() not in heavy):
        for part in parts(lay):
            tasks.append(((lay.name, part, True), proof_task, (lay, part, True, limit * .8)))
        tasks.append(((lay.name, 'read', False), proof_task, (lay, 'read', False, limit * .8)))
    tasks += [(('prim', n), prim_task, (n,)) for n in cprims.BODIES]
    # the build of the compiled reader and its comparison run beside the proofs
    res = driver.run_tasks(tasks, limit)
    by = {l.name: l for l in lays}

    def get(k):
        r = res.get(k, {'timeout': 'not run'})
        if 'crash' in r or 'timeout' in r:
            why = str(r)[-500:]
            rep.errors.append('%s: %s' % (k, why))
            return None, why
        return r, None

    def add(k, r):
        rep.queries += r['queries']
        rep.solver_s += r['solver_s']
        rep.functions.update(('compiled: ' if k[2] else '') + u for u in r['used'])

    # a reader that differs from the layout: the other reader decides what that means
    wrong = [k for k in res if len(k) == 3 and res[k].get('status') == 'refuted']
    again = [((k[0], k[1], not k[2]), proof_task, (by[k[0]], k[1], not k[2], 150)) for k in wrong if (k[0], k[1], not k[2]) not in res]
    if again:
        res.update(driver.run_tasks(again, 160))
    d, why = get(('diff',))
    fails = [] if d is None else d['res']['fails']
    extra = [dict(cls=by[k[0]].name, code=code_of(mods, by[k[0]]).decode(), good=res[k]['record'], bads=[]) for k in wrong if res[k].get('record')]
    if extra and not any(f['cls'] in {k[0] for k in wrong} for f in fails):
        r = driver.run_tasks([('x', diff_task, (0, extra))], 200)['x']
        if 'res' in r:
            fails = fails + r['res']['fails']
    bound = 'not compared: %s' % why if d is None else '%d loads of %d sampled records, whole, damaged and cut short, by both readers' % (
        d['res']['loads'], d['res']['records'])
    if d is not None:
        rep.samples += d['res']['loads']
        rep.extra['classes_of_the_compiled_reader'] = d['res'].get('classes')
    rep.bounded.append(dict(what='text with zero bytes at its ends, rates of any exponent, Cython conversions, memory handling', bound=bound))
    reported = set()
    for f in fails:
        rep.violation('%s:%s' % (f['cls'], 'compiled'), 'compiled reader, %s: %s' % (f['cls'], f['what']), dict(input=f), True)
        reported.add(f['cls'])
    for lay in lays:
        for part, compiled in [(p, True) for p in parts(lay)] + [('read', False)]:
            k = (lay.name, part, compiled)
            name = '%s reader: %s.%s' % ('compiled' if compiled else 'plain', lay.name, part)
            r, why = get(k)
            if r is None:
                rep.obligation(name, 'undecided', why)
                rep.bounded.append(dict(what=name, bound=bound, why=why[-200:]))
                continue
            add(k, r)
            if r['status'] != 'refuted':
                rep.obligation(name, r['status'], r['detail'], r['goals'])
                if r['status'] == 'undecided':
                    rep.bounded.append(dict(what=name, bound=bound, why=r['detail'][-200:]))
                continue
            o = res.get((lay.name, part, not compiled), {})
            if o.get('status') == 'discharged':
                rep.obligation(name, 'refuted', r['detail'])
                if lay.name not in reported:
                    rep.violation(name, '%s: %s' % (name, r['detail'][-600:]), dict(obligation=name, verifier=r['detail'], record=r['record']), False)
            else:
                # both differ from the layout (a matter of C01 - C05, C17), or the other one is not decided
                rep.obligation(name, 'undecided', 'neither reader follows the layout: ' + r['detail'])
                rep.bounded.append(dict(what=name, bound=bound, why=r['detail'][-200:]))
    for k, label in [(('body',), 'bodies')] + [(('prim', n), n) for n in cprims.BODIES]:
        r, why = get(k)
        if r is None:
            rep.obligation('compiled reader: ' + label, 'undecided', why)
            continue
        if k == ('body',):
            missing = [c for c in r['readers'] if c not in KNOWN]
            if missing or r['failed']:
                rep.bounded.append(dict(what='not covered: classes %s, functions %s' % (missing, r['failed']), bound=bound))
            rep.extra['compiled_readers'] = r['readers']
        for name, status, detail, goals in r['res']:
            n = 'compiled reader: body of ' + name
            rep.functions.add('compiled: ' + name)
            if status == 'refuted' and name == 'read_exp10_encoded_float' and not reported:
                # other operations can give the same number
                status = 'undecided'
            rep.obligation(n, status, detail, goals)
            if status == 'refuted' and not reported:
                rep.violation(n, '%s: %s' % (n, detail[-600:]), dict(obligation=n, verifier=detail), False)
            elif status == 'undecided':
                rep.bounded.append(dict(what=n, bound=bound, why=detail[-200:]))
    fixed.add_fixed_results(rep, file_env, 10, 200)
    try:
        extprops.pyx_class('AVBPropertyData')
        fixed.add_fixed_results(rep, dict_env, 10, 200, functions=['compiled: AVBPropertyData.' + n for n in (
            '__getitem__', 'get', 'items', 'values', 'deref')])
    except Exception as ex:
        rep.obligation('AVBPropertyData of the compiled reader', 'undecided', str(ex)[-300:])
        rep.bounded.append(dict(what='AVBPropertyData of the compiled reader', bound=bound, why=str(ex)[-200:]))
    rep.assumptions = [
        'text of _ext_core.cpp is taken from the clang AST and _ext.pyx from the Cython parse tree by pyvc/cxx.py and pyvc/cyx.py, which state '
        'what they drop: prints, reserve, the lifetime of references and pointers (memory safety is not claimed)',
        'C++ integers wrap as written in the types; structs are copied on assignment; std::vector as documented; IEEE doubles',
        'Cython converts between C and Python values as its documentation says; C++ exceptions become Python exceptions',
        'text has no zero bytes at its ends in the proof (both kinds are compared on samples)',
        'uint16 << 16 in the fixed-width readers gives the 32 bits of the value, as C++14 defines it',
        'rates: both readers apply the same IEEE operation to 10**k, exact for k <= 22; larger exponents are compared on samples',
        'datetime.fromtimestamp, uuid.UUID(bytes_le=) and MobID(bytes_le=) applied to the stored bytes give the stored value (C06, C11)',
        'records whose length fits in memory (size fields below 2**62)',
    ] + driver.COMMON_ASSUMPTIONS[:1]
    rep.trusted += ['clang 18 AST', 'Cython parser', 'cbmc (fixed-width readers)', 'record layouts in pyvc/layouts (the specification)']
    return rep.finish('python3-vt checks/c16.py')


if __name__ == '__main__':
    sys.exit(main())
