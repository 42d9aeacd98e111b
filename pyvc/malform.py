"""C17: damaged records are refused.  Proofs per record class (classproof.verify_markers, verify_blocks, verify_cut) and sampled damage of
concrete records, loaded through the real AVBFile.read_object."""
import io
import random
import time
import traceback
from . import driver
from .layout import ConcEnv, Marks, SymEnv, make_items
from .concrete import Big, Harness, RandChooser, encode, describe, make_root


class Positions(Big):
    """object table holding every index; the records under test at 1 and 2"""
    def __init__(self, pos):
        self.pos = pos

    def __getitem__(self, i):
        return self.pos[i]


WHICH = ('markers', 'blocks', 'cut')


def which(lay):
    """obligations of a class: one more where the record names the kind of a value"""
    m = Marks(tags=lay.tags, choices=True)
    lay.make(SymEnv('little', marks=m))
    return WHICH + (('choices',) if m.names else ())


def chunk(order, code, body):
    return (code[::-1] if order == 'little' else code) + len(body).to_bytes(4, order) + body


def file_of(mods, order, code, bodies):
    """a file whose objects 1, 2 ... are the records given (chunks of the class with this code)"""
    r = make_root(mods, order)
    r.__class__ = mods['file'].AVBFile
    data, pos = b'', [0]
    for b in bodies:
        pos.append(len(data))
        data += chunk(order, code, b)
    r.f = io.BytesIO(data)
    r.object_positions = Positions(pos)
    return r


def attempt(r, i):
    try:
        r.read_object(i)
    except Exception as e:
        return '%s: %s' % (type(e).__name__, str(e)[:100])
    return None


def refused(mods, lay, order, good, bad, what):
    """None, or what is wrong with the way the damaged record is handled"""
    code = Harness(mods, order).cls(lay.cls).class_id
    r = file_of(mods, order, code, [bad, good])
    e = attempt(r, 1)
    if e is None:
        return '%s is accepted' % what
    if dict(r.object_cache) or dict(r.modified_objects):
        return 'after %s is refused (%s), an object is left behind' % (what, e)
    if r.reading is not False:
        return 'after %s is refused (%s), the file still counts as loading' % (what, e)
    if attempt(r, 1) is None:
        return '%s is refused once (%s) and then accepted' % (what, e)
    try:
        o = r.read_object(2)
    except Exception as x:
        return 'after %s is refused (%s), another record is refused too (%s)' % (what, e, x)
    if o.class_id != code or o.instance_id != 2:
        return 'after %s is refused (%s), another record loads as %r' % (what, e, o)
    return None


def conc_make(mods, lay, order, ch, marks, alt=None):
    ch.marks = marks
    v, segs = lay.make(ConcEnv(order, ch))
    return encode(segs, alt)


def damage(mods, lay, order, seed, few, full=False):
    """all single damages of one record (full: with every optional part): None or dict(what, record)"""
    rng = random.Random(seed)
    ch = RandChooser(mods, rng)
    if full:
        ch.mode = 'allset'
        ch.count = lambda key, hi, lo: ch.get(key, lambda: max(lo, min(hi, rng.choice([1, 1, 2, 3]))))
    known = Marks(())
    good = conc_make(mods, lay, order, ch, known)
    n = 0

    def bad(b, what):
        nonlocal n
        n += 1
        w = refused(mods, lay, order, good, b, what)
        return w and dict(what=w, cls=lay.name, order=order, record=b[:4000].hex(), well_formed=good[:4000].hex(), values=describe(ch))
    code = Harness(mods, order).cls(lay.cls).class_id
    e = attempt(file_of(mods, order, code, [good]), 1)
    if e:
        # the class cannot be read at all: not a matter of this property (C01 - C05)
        return 0, None
    # block tags of the class are known only once every optional block was made
    tags = lay_tags(lay, order)
    for i in range(known.n):
        m = Marks(tags, fault=i, rng=rng)
        b = conc_make(mods, lay, order, ch, m)
        if m.done and b != good:           # else the marker belongs to a part that is absent
            w = bad(b, 'a record with marker %d instead of %d' % (m.done[1], m.done[0]))
            if w:
                return n, w
    for i in range(known.kinds):
        m = Marks(tags, rng=rng)
        m.kind_fault = i
        b = conc_make(mods, lay, order, ch, m)
        if b != good:
            w = bad(b, 'a record with %d instead of %d as the kind of a value' % (m.done[1], m.done[0]))
            if w:
                return n, w
    for i in range(known.parts):
        m = Marks(tags, rng=rng, block=i)
        b = conc_make(mods, lay, order, ch, m)
        if b != good:
            w = bad(b, 'a record with an unknown block %s' % m.done)
            if w:
                return n, w
    cuts = list(range(len(good)))
    if len(cuts) > few:
        cuts = sorted(set(rng.sample(cuts, few) + cuts[-6:] + cuts[:6]))
    for k in cuts:
        w = bad(good[:k], 'a record cut short (%d of %d bytes)' % (k, len(good)))
        if w:
            return n, w
    extras = [b'\x03', b'\x00', b'\x02\x01\x03', bytes(rng.randrange(256) for _ in range(rng.randrange(1, 9)))]
    for x in extras:
        w = bad(good + x, 'a record followed by %s' % x.hex())
        if w:
            return n, w
    return n, None


_tags = {}


def lay_tags(lay, order):
    from .layout import SymEnv
    if lay.name not in _tags:
        m = Marks(tags=lay.tags)
        lay.make(SymEnv(order, marks=m))
        _tags[lay.name] = m.tags
    return _tags[lay.name]


def sample_task(lay, samples, seed, first=0):
    mods = driver.load_avb()
    import contextlib
    n, fails = 0, []
    for i in range(first, first + samples):
        for order in ('little', 'big'):
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    k, f = damage(mods, lay, order, '%s/%s/%d' % (seed, lay.name, i), 40 if i else 400, i % 3 == 0)
            except Exception:
                return dict(crash=traceback.format_exc()[-2500:])
            n += k
            if f:
                fails.append(f)
                if len(fails) > 2:
                    return dict(samples=n, fails=fails)
    return dict(samples=n, fails=fails)


def prove_task(lay, order, which, timeout):
    from . import classproof
    mods = driver.load_avb()
    obs = classproof.Obligations()
    I = driver.make_interp(mods)
    V = classproof.ClassVerifier(I, mods, obs, time.time() + timeout)
    classproof.check_class(V, lay, obs, orders=(order,), which=(which,))
    return dict(obligations=[dict(name=o['name'], status=o['status'], detail=o['detail'],
                                  goals=o['ctx'] if o['status'] == 'discharged' else 0) for o in obs.items],
                used=sorted(I.used), queries=I.solver.queries, solver_s=I.solver.time)


def add_results(rep, layouts, samples, timeout):
    tasks = [('sample ' + l.name, sample_task, (l, samples, driver.seed())) for l in layouts]
    tasks += [((l.name, o, w), prove_task, (l, o, w, timeout * .8)) for l in layouts for o in ('little', 'big') for w in which(l)]
    # the largest classes first
    tasks.sort(key=lambda t: 0 if 'RGBA' in str(t[0]) or 'AudioSuite' in str(t[0]) else 1)
    res = driver.run_tasks(tasks, timeout)
    # classes whose proof was not found, and that did not fail: more damage
    more = [l for l in layouts if 'fails' in res['sample ' + l.name] and not res['sample ' + l.name]['fails'] and not all(
        b['status'] == 'discharged' for o in ('little', 'big') for w in which(l)
        for b in res[(l.name, o, w)].get('obligations', [dict(status='')]))]
    extra = driver.run_tasks([(l.name, sample_task, (l, samples * 20, driver.seed(), samples)) for l in more[:24]], 120)
    for n, r in extra.items():
        if 'fails' in r:
            r['samples'] += res['sample ' + n]['samples']
            res['sample ' + n] = r
    for l in layouts:
        r = res['sample ' + l.name]
        failing = False
        if 'fails' not in r:
            rep.errors.append('%s: %s' % (l.name, r))
        else:
            rep.samples += r['samples']
            failing = bool(r['fails'])
            for f in r['fails']:
                rep.violation('%s:damage' % l.name, '%s (%s): %s' % (l.name, f['order'], f['what']), dict(input=f), True)
        for o in ('little', 'big'):
            for w in which(l):
                p = res[(l.name, o, w)]
                if 'obligations' not in p:
                    rep.errors.append('%s: %s' % (l.name, p))
                    p = dict(obligations=[dict(name='%s.%s[%s]' % (l.name, w, o), status='undecided', detail=str(p)[-400:], goals=0)],
                             used=[], queries=0, solver_s=0)
                rep.queries += p['queries']
                rep.solver_s += p['solver_s']
                rep.functions.update(p['used'])
                for b in p['obligations']:
                    st = b['status']
                    if st == 'refuted' and not failing:
                        # a damaged record may be another well-formed record: only a failing input tells
                        st = 'undecided'
                    rep.obligation(b['name'], st, b['detail'], b['goals'])
                    if st != 'discharged':
                        rep.bounded.append(dict(what=b['name'], bound='%s sampled damages of the class' % r.get('samples'), why=b['detail'][-300:]))
