"""Common run-time of the checks: loads /repo, runs proofs in worker processes, decides, writes the evidence."""
import importlib
import json
import multiprocessing
import os
import random
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYVC_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

MODS = 'core utils file components trackgroups essence misc bin attributes ioctx mobid interpolation'.split()


def load_avb():
    sys.path.insert(0, SRC)
    import avb
    if not os.path.realpath(avb.__file__).startswith(os.path.realpath(SRC)):
        raise SystemExit('avb imported from %s' % avb.__file__)
    return {n: importlib.import_module('avb.' + n) for n in MODS}


def make_interp(mods, timeout_ms=8000, contracts=True):
    from .interp import Interp, Sources, Solver
    from . import contracts as c
    I = Interp(Sources([os.path.join(SRC, 'avb')]), Solver(timeout_ms))
    if contracts:
        c.install(I, mods['ioctx'], mods['mobid'].MobID)
    I.ref_class = mods['utils'].AVBObjectRef
    return I


def tier():
    return os.environ.get('VERIF_TIER', 'quick')


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)) if e.get('property') == pid and e.get('status') == 'open']


# ------------------------------------------------------------------ workers

def _worker(fn, args, q):
    try:
        r = fn(*args)
    except BaseException:
        r = {'crash': traceback.format_exc()[-3000:]}
    q.put(r)


START = time.time()


def run_tasks(tasks, timeout, procs=8):
    """tasks: [(name, fn, args)] -> {name: result or {'crash'|'timeout': ...}}, each in its own process"""
    ctx = multiprocessing.get_context('fork')
    pending = list(tasks)
    running = {}
    results = {}
    budget = None if tier() == 'thorough' else START + 780      # a quick check ends in time whatever the code does
    while pending or running:
        if budget is not None and time.time() > budget:
            for name, fn, args in pending:
                results[name] = {'timeout': 'time budget of the check'}
            pending = []
            timeout = 0
        while pending and len(running) < procs:
            name, fn, args = pending.pop(0)
            r, w = ctx.Pipe(False)

            def body(fn=fn, args=args, w=w):
                try:
                    res = fn(*args)
                except BaseException:
                    res = {'crash': traceback.format_exc()[-3000:]}
                w.send(res)
                w.close()
                os._exit(0)
            sys.stdout.flush()
            p = ctx.Process(target=body)
            p.start()
            w.close()
            running[name] = (p, r, time.time())
        done = []
        multiprocessing.connection.wait([r for p, r, t in running.values()], timeout=1)
        for name, (p, r, t) in running.items():
            if r.poll():
                try:
                    results[name] = r.recv()
                except EOFError:
                    results[name] = {'crash': 'worker ended without a result'}
                p.join(5)
                done.append(name)
            elif not p.is_alive():
                results[name] = {'crash': 'worker died (exit code %s)' % p.exitcode}
                done.append(name)
            elif time.time() - t > timeout:
                p.kill()
                p.join()
                results[name] = {'timeout': timeout}
                done.append(name)
        for n in done:
            running.pop(n)
    return results


import multiprocessing.connection  # noqa: E402


# ------------------------------------------------------------------ record classes

def layout_task(lay, samples, seed_, deadline_s):
    """prove and cross-check one class; runs in a worker"""
    mods = load_avb()
    from . import classproof, concrete
    from .concrete import ModelChooser, RandChooser, TooBig, run_case, describe
    from .layout import SymEnv
    import z3
    t0 = time.time()
    obs = classproof.Obligations()
    I = make_interp(mods)
    V = classproof.ClassVerifier(I, mods, obs, time.time() + deadline_s)
    classproof.check_class(V, lay, obs, which=lay.which)
    out = []
    for o in obs.items:
        r = dict(name=o['name'], status=o['status'], detail=o['detail'], goals=o['ctx'] if o['status'] == 'discharged' else 0)
        if o['status'] == 'refuted':
            lay_, order, which = o['ctx']
            r['replay'] = None
            if o['conds'] is not None:
                r['replay'] = replay_model(mods, lay, order, which, o['conds'])
        out.append(r)
    # concrete cross-check of the whole class on the real code (bounded)
    rng = random.Random('%s/%s' % (seed_, lay.name))
    fails = []
    n = 0
    if len(lay.which) == 1:
        samples = min(samples, 2)
    for i in range(samples):
        for order in ('little', 'big'):
            ch = RandChooser(mods, random.Random(rng.random()), big=(i % 12 == 5))
            try:
                r = run_case(mods, lay, order, ch, lay.which)
            except Exception:
                # e.g. the class no longer exists: an error of the harness, not of the code under test
                return dict(crash=traceback.format_exc()[-2500:])
            n += 1
            if r:
                r.update(cls=lay.name, order=order, values=describe(ch))
                fails.append(r)
                if len(fails) >= 3:
                    break
        if len(fails) >= 3:
            break
    return dict(obligations=out, samples=n, fails=fails, wall=time.time() - t0, queries=I.solver.queries,
                solver_s=I.solver.time, used=sorted(I.used))


def small_models(conds):
    """models of the conditions, those with few repeated items first"""
    import z3
    counts = {}

    def scan(t, seen):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().split('.')[-1].startswith('n_') \
                and z3.is_int(t):
            counts[t.decl().name()] = t
        for c in t.children():
            scan(c, seen)
    seen = set()
    for c in conds:
        scan(c, seen)
    for lim in (3, 400, 40000, None):
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*conds)
        if lim is not None:
            s.add(*[c <= lim for c in counts.values()])
        if s.check() == z3.sat:
            yield s.model()


def replay_model(mods, lay, order, which, conds):
    from .concrete import ModelChooser, TooBig, run_case, describe
    for m in small_models(conds):
        try:
            ch = ModelChooser(mods, m, None)
            r = run_case(mods, lay, order, ch, (which,))
        except TooBig:
            return None
        except Exception:
            continue
        if r:
            r.update(cls=lay.name, order=order, values=describe(ch))
            return r
    return None


class Report:
    """collects the outcome of a check and turns it into evidence and an exit code"""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.obl = []            # dict(name,status,detail)
        self.violations = []     # dict(what, replay-data, confirmed)
        self.known = []
        self.bounded = []        # labelled bounded stand-ins
        self.functions = set()
        self.queries = 0
        self.solver_s = 0.0
        self.samples = 0
        self.errors = []
        self.assumptions = []
        self.trusted = ['z3 %s' % _z3v(), 'CPython ast module', 'the pyvc translation of Python statements to obligations']
        self.extra = {}
        self.findings = known_findings(pid)

    def violation(self, key, what, data, confirmed):
        for k in self.findings:
            if k.get('key') and k['key'] == key:
                self.known.append(k)
                return
        self.violations.append(dict(key=key, what=what, data=data, confirmed=confirmed))

    def obligation(self, name, status, detail='', goals=1):
        self.obl.append(dict(name=name, status=status, detail=detail, goals=goals))

    def finish(self, checker_cmd):
        rep_dir = os.path.join(VERIF, 'evidence')
        os.makedirs(rep_dir, exist_ok=True)
        nd = sum(1 for o in self.obl if o['status'] == 'discharged')
        cov = dict(obligations=len(self.obl), discharged=nd,
                   goals_discharged=sum(o['goals'] or 0 for o in self.obl if o['status'] == 'discharged'),
                   checker_cmd=checker_cmd, trusted_base=self.trusted, back_end='z3 %s (SMT, via its Python API)' % _z3v(),
                   solver_queries=self.queries, solver_s=round(self.solver_s, 2),
                   functions_under_contract=sorted(self.functions),
                   undecided=[o for o in self.obl if o['status'] == 'undecided'],
                   refuted=[o for o in self.obl if o['status'] == 'refuted'],
                   bounded_standins=self.bounded, concrete_cross_checks=self.samples,
                   obligation_names=[o['name'] for o in self.obl if o['status'] == 'discharged'][:400])
        cov.update(self.extra)
        if self.errors:
            cov['harness_errors'] = self.errors
        ev = dict(property=self.pid, tier=tier(), seed=seed(), level='proof', coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(rep_dir, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.findings:
            if k in self.known:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k.get('what')))
        print('%s: %d obligations, %d discharged, %d undecided, %d refuted; %d concrete cross-checks; %.1fs'
              % (self.pid, len(self.obl), nd, len(cov['undecided']), len(cov['refuted']), self.samples, time.time() - self.t0))
        for o in cov['undecided']:
            print('  undecided (bounded stand-in used): %s: %s' % (o['name'], o['detail'][-300:]))
        if not self.violations and (not self.obl or nd == 0):
            print('  no obligation was discharged')
            for e in self.errors:
                print(e)
        if self.violations:
            v = sorted(self.violations, key=lambda x: not x['confirmed'])
            path = os.path.join(rep_dir, 'replay_%s.json' % self.pid)
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, violations=v[:20]), f, indent=1, default=str)
            for x in v[:5]:
                print('  %s: %s' % ('confirmed on the real code' if x['confirmed'] else 'failed obligation', x['what']))
            print('VIOLATION property=%s replay=%s%s' % (self.pid, path, '' if v[0]['confirmed'] else ' no-failing-input-found'))
            return 1
        return 0


def _z3v():
    import z3
    return z3.get_version_string()


def add_layout_results(rep, layouts, samples, timeout):
    tasks = [(lay.name, layout_task, (lay, samples, seed(), timeout * 0.8)) for lay in layouts]
    res = run_tasks(tasks, timeout)
    for lay in layouts:
        r = res[lay.name]
        if 'crash' in r or 'timeout' in r:
            rep.errors.append('%s: %s' % (lay.name, r))
            rep.obligation(lay.name, 'undecided', str(r)[-600:])
            continue
        rep.queries += r['queries']
        rep.solver_s += r['solver_s']
        rep.samples += r['samples']
        rep.functions.update(r['used'])
        for o in r['obligations']:
            rep.obligation(o['name'], o['status'], o['detail'], o['goals'])
            if o['status'] == 'refuted':
                rp = o.get('replay')
                rep.violation('%s:%s' % (lay.name, o['name']), '%s: %s' % (o['name'], rp['what'] if rp else o['detail']),
                              dict(obligation=o['name'], verifier=o['detail'], input=rp), bool(rp))
            elif o['status'] == 'undecided':
                rep.bounded.append(dict(what=o['name'], bound='%d sampled records of the class' % r['samples'],
                                        why=o['detail'][-200:]))
        for f in r['fails']:
            rep.violation('%s:%s' % (lay.name, f['which']), '%s %s (%s): %s' % (f['cls'], f['which'], f['order'], f['what']),
                          dict(input=f), True)


CODEC_ASSUMPTION = ('the primitive codecs of avb.ioctx.AVBIOContext satisfy their contracts (pyvc/contracts.py); '
                    'property C06 verifies them')
COMMON_ASSUMPTIONS = [
    'field values have the type and range their record field stores (the quantifier of the property)',
    'Python integers are mathematical integers (exact in Python); doubles, strings, UUIDs and mob ids are opaque values',
    'plain Python list/dict/OrderedDict/BytesIO behave as documented',
]


def rewrite_task(lay):
    """a record without its optional mob id block: reading and writing it again must reproduce it"""
    mods = load_avb()
    from . import concrete
    from .layout import ConcEnv
    import io
    out = []
    for order in ('little', 'big'):
        ch = concrete.RandChooser(mods, random.Random(3))
        v, segs = lay.make(ConcEnv(order, ch))
        data = concrete.encode(segs)
        h = concrete.Harness(mods, order)
        cls = h.cls(lay.cls)
        obj = cls.__new__(cls, root=h.root)
        h.root.reading = True
        what = None
        try:
            obj.read(io.BytesIO(data))
            h.root.reading = False
            f = io.BytesIO()
            obj.write(f)
            if f.getvalue() != data:
                what = 'written record differs from the one read'
        except Exception as e:
            what = '%s: %s' % (type(e).__name__, str(e)[:200])
        if what:
            out.append(dict(cls=lay.cls, order=order, what=what, record=data[:2000].hex()))
    return dict(fails=out)


def layout_check(pid, layouts, rewrite=()):
    rep = Report(pid)
    thorough = tier() == 'thorough'
    add_layout_results(rep, layouts, 600 if thorough else 50, 800 if thorough else 400)
    res = run_tasks([(lay.name, rewrite_task, (lay,)) for lay in rewrite], 60)
    for lay in rewrite:
        r = res[lay.name]
        rep.bounded.append(dict(what='%s read and written again' % lay.name, bound='one record per byte order'))
        if 'fails' not in r:
            rep.errors.append('%s: %s' % (lay.name, r))
            continue
        for f in r['fails']:
            rep.violation('%s:rewrite' % lay.name, '%s: %s' % (lay.name, f['what']), f, True)
    rep.assumptions = [CODEC_ASSUMPTION] + COMMON_ASSUMPTIONS
    rep.trusted.append('record layouts in pyvc/layouts (the specification)')
    return rep.finish('python3-vt checks/%s.py' % pid.lower())
