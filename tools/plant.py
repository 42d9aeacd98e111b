"""Validates a planted bug in /repo (applied and undone) and keeps it in /verif/seeded/<id>.

usage: plant.py SPEC.py...   each SPEC.py defines id, prop, edits=[(file, old, new)], needs, breaks, demo (python source)"""
import json, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
export PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1
exec %s "$(dirname "$0")/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clean():
    sh('git', '-C', '/repo', 'checkout', '--', '.')


def plant(path):
    s = {}
    exec(open(path).read(), s)
    d = os.path.join(ROOT, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.sh', 'w').write(SH % s.get('python', '/opt/venv/bin/python'))
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(s['demo'])
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    clean()
    for f, old, new in s['edits']:
        p = '/repo/src/avb/' + f
        t = open(p, newline='').read()
        crlf = '\r\n' in t
        if crlf:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if t.count(old) != 1:
            clean()
            return 'edit matches %d times: %r' % (t.count(old), old)
        open(p, 'w', newline='').write(t.replace(old, new))
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True).stdout
    open(d + '/patch.diff', 'wb').write(diff)
    try:
        b = sh('bash', '/opt/vp/build.sh')
        if b.returncode:
            return 'does not build ' + b.stderr[-300:]
        r = sh('bash', d + '/demo.sh', cwd='/repo')
        if r.returncode == 0:
            return 'demo passes with the bug'
        sh('bash', '/opt/vp/test.sh', '/tmp/plant.json')
        o = json.load(open('/tmp/plant.json'))
        failed = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(o['passed'])
        if failed:
            return 'tests fail: %s' % sorted(failed)[:4]
        res = 'kept'
        if '--nocheck' not in sys.argv:
            c = sh('python3-vt', 'checks/%s.py' % s['prop'].lower(), cwd=ROOT)
            res += '; check exits %d: %s' % (c.returncode, [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')])
    finally:
        clean()
    r0 = sh('bash', d + '/demo.sh', cwd='/repo')
    if r0.returncode:
        return 'demo fails on the clean tree: ' + r0.stderr[-500:]
    return res + '; demo said %s' % (r.stderr.strip().splitlines() or [''])[-1]


for p in sys.argv[1:]:
    if not p.startswith('--'):
        print(p, plant(p), flush=True)
sh('bash', '/opt/vp/build.sh')
