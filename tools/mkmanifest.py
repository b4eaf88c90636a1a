"""Write MANIFEST.json from the contracts present in contracts/ and the levels they state."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
NA = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))
for p in props:
    if p in NA:
        na.append(dict(property=p, reason=NA[p]))
        continue
    m = importlib.import_module('contracts.' + p.lower())
    level = getattr(m, 'LEVEL', 'proof')
    c = dict(property=p, quick_cmd='python3-vt check.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s' % p, evidence_file='evidence/%s.json' % p,
             technique='contract-based deductive verification: contracts on the functions in /repo, verification conditions generated from their source on every run and discharged by z3 and induction rules'
             + (' (bounded runtime check of the contract for the parts named in the level note)' if getattr(m, 'BOUNDED', '') else ''),
             level=level, level_note=m.NOTE)
    if level == 'proof' and getattr(m, 'THEOREMS', None):
        c['theorems'] = m.THEOREMS
    checks.append(c)
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='No hooks in /repo. All commands run from /verif with python3-vt (verifier) and /opt/venv/bin/python (replay on the real code).'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
