"""C16, concrete part: the compiled reader is rebuilt from the current tree in a scratch folder and compared with the plain one."""
import io
import json
import os
import random
import shutil
import struct
import subprocess
import tempfile

from . import driver, malform
from .concrete import Harness, RandChooser
from .layout import Marks
from .values import ValSeg

PYPY = '/opt/venv-ext/bin/python'


def layouts():
    from .layouts import bins, components, essence, misc, trackgroups
    return [l for m in (components, trackgroups, essence, misc, bins) for l in m.LAYOUTS if 'read' in l.which]


def build(scratch):
    """-> folder with the package and its compiled reader, or raises"""
    work = os.path.join(scratch, 'pkg')
    shutil.copytree(os.path.dirname(driver.SRC), work, ignore=shutil.ignore_patterns('.git', 'tests', 'build', '*.so', '_ext.cpp', '__pycache__'))
    env = dict(os.environ, PYAVB_BUILD_EXT='1', PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8')
    for k in ('PYTHONPATH', 'CFLAGS', 'CXXFLAGS', 'LDFLAGS'):
        env.pop(k, None)
    r = subprocess.run([PYPY, 'setup.py', 'build_ext', '--inplace'], cwd=work, env=env, capture_output=True, text=True)
    if r.returncode or not [n for n in os.listdir(work + '/src/avb') if n.startswith('_ext.pypy')]:
        raise RuntimeError('the compiled reader does not build: ' + (r.stdout + r.stderr)[-800:])
    return work + '/src'


def other_forms(rng):
    """encodings that the plain reader also takes: text with surrounding zero bytes, 65535 as the length of no text, any rate"""
    def alt(s):
        if not isinstance(s, ValSeg) or rng.random() < .5:
            return None
        if s.kind == 'string:macroman':
            b = s.t.encode('macroman')
            if not b and rng.random() < .5:
                return b'\xff\xff'
            b = bytes(rng.choice((0, 1, 3))) + b + bytes(rng.choice((0, 1, 2)))
            return struct.pack('<H', len(b)) + b if len(b) < 65535 else None
        if s.kind == 'exp10':
            return struct.pack('<ih', rng.choice((0, 1, -1, 25, 30000, -2 ** 31, 2 ** 31 - 1, rng.randrange(-2 ** 31, 2 ** 31))), rng.randrange(-12, 13))
        return None
    return alt


def records(codes, samples, seed, cls=None):
    mods = driver.load_avb()
    out = []
    for lay in layouts():
        code = Harness(mods, 'little').cls(lay.cls).class_id
        if not code or code.decode() not in codes:
            continue
        tags = malform.lay_tags(lay, 'little')
        for i in range(samples):
            rng = random.Random('%s/ext/%s/%d' % (seed, lay.name, i))
            ch = RandChooser(mods, rng, big=i % 12 == 5)
            if i % 3 == 0:
                ch.mode = 'allset'
            known = Marks(())
            good = malform.conc_make(mods, lay, 'little', ch, known)
            bads = [(None, malform.conc_make(mods, lay, 'little', ch, Marks(()), other_forms(rng))) for j in range(4)]
            if i < 20 and not ch.big:
                for j in range(known.n):
                    m = Marks(tags, fault=j, rng=rng)
                    b = malform.conc_make(mods, lay, 'little', ch, m)
                    if m.done and b != good:
                        bads.append(('a record with marker %d instead of %d' % (m.done[1], m.done[0]), b))
                for j in range(known.kinds):
                    m = Marks(tags, rng=rng)
                    m.kind_fault = j
                    b = malform.conc_make(mods, lay, 'little', ch, m)
                    if b != good:
                        bads.append(('a record with %d instead of %d as the kind of a value' % (m.done[1], m.done[0]), b))
                for j in range(known.parts):
                    m = Marks(tags, rng=rng, block=j)
                    b = malform.conc_make(mods, lay, 'little', ch, m)
                    if b != good:
                        bads.append(('a record with an unknown block %s' % m.done, b))
                cuts = list(range(len(good)))
                if len(cuts) > 60:
                    cuts = sorted(set(rng.sample(cuts, 60) + cuts[-6:] + cuts[:6]))
                bads += [('a record cut short (%d of %d bytes)' % (k, len(good)), good[:k]) for k in cuts]
            out.append(dict(cls=lay.name, code=code.decode(), good=good.hex(), bads=[(w, b.hex()) for w, b in bads]))
    return out


def run(codes, samples, seed, scratch, jobs=4, extra=()):
    """-> dict(loads, fails) ; raises if the comparison could not be made"""
    src = build(scratch)
    recs = (records(codes, samples, seed) if samples else []) + list(extra)
    procs = []
    for j in range(jobs):
        inp, outp = (os.path.join(scratch, '%s%d.json' % (n, j)) for n in ('in', 'out'))
        with open(inp, 'w') as f:
            json.dump(recs[j::jobs], f)
        p = subprocess.Popen(['bash', '-c', 'ulimit -v 6000000; exec timeout 300 "$@"', 'run', PYPY, os.path.join(os.path.dirname(__file__), 'ext_runner.py'),
                              src, inp, outp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        procs.append((p, outp))
    total = dict(loads=0, fails=[], records=len(recs))
    for p, outp in procs:
        o, e = p.communicate()
        if p.returncode:
            raise RuntimeError('comparing ended with %s: %s' % (p.returncode, (o + e)[-1200:]))
        r = json.load(open(outp))
        total['loads'] += r['loads']
        total['fails'] += r['fails']
        total['classes'] = r['classes']
    return total
