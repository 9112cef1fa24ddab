#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harness modules."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
FP = {'C03'}
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if not os.path.exists(os.path.join(HERE, 'harness', p.lower() + '.py')):
        na.append({'property': p, 'reason': 'no check'})
        continue
    tech = 'symbolic execution of the real source, each path\'s assertions decided by Z3/cvc5 over all inputs, counterexamples replayed on the real code'
    note = ('All inputs within the bounds listed in the evidence file (harnesses[].bounds) are covered by solver verdicts; '
            'numbers are exact reals, numpy/scipy/pandas/PyYAML/matplotlib obey the contracts named in the evidence. '
            'Every explored path is also validated by a concrete run of the unmodified code.')
    if p in FP:
        tech = 'symbolic execution of the real source in IEEE-754 double arithmetic (SMT floating point)'
        note = ('Bit-precise: all doubles of the stated ranges (harnesses[].bounds). numpy obeys the contracts named in the evidence. '
                'Every explored path is also validated by a concrete run of the unmodified code.')
    checks.append({'property': p, 'quick_cmd': './check.py %s' % p, 'thorough_cmd': './check.py %s --tier thorough' % p,
                   'technique': 'solver-based: ' + tech, 'level': 'model_checking', 'level_note': note})
m = {'version': 1, 'setup_cmd': './check.py --help > /dev/null', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks rewrite the source in memory on every run. See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
