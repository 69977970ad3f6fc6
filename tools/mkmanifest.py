"""Writes MANIFEST.json from the checks that exist (run by hand after adding one)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from levels import LEVELS, NA
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    if p in LEVELS:
        level, technique, note, theorems = LEVELS[p]
        c = {'property': p, 'quick_cmd': 'python3-vt check.py %s --tier quick' % p, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p,
             'technique': technique, 'level': level, 'level_note': note}
        if theorems: c['theorems'] = theorems
        checks.append(c)
    else: na.append({'property': p, 'reason': NA.get(p, 'no check has been built yet')})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, sympy" && /opt/venv/bin/python -c "import numpy, scipy, sympy"',
     'checks': checks, 'not_applicable': na,
     'notes': 'check.py loads /repo\'s current source, generates and discharges the obligations (contracts/), replays counterexamples and cross-checks on the real code (standin/). See DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
