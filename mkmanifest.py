#!/usr/bin/env python3
"""Write MANIFEST.json from the properties and the list of claimed ones."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
claims = json.load(open(os.path.join(HERE, 'claims.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in claims['claimed']:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': 'contract-based deductive verification of the real functions (symbolic execution of '
                                    '/repo against function contracts, obligations discharged by z3)',
                       'level': 'proof', 'level_note': claims['claimed'][i]})
    else:
        na.append({'property': i, 'reason': claims['not_applicable'].get(i, 'not yet covered')})
json.dump({'version': 1,
           'setup_cmd': 'python3 setup_check.py',
           'checks': checks, 'not_applicable': na,
           'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read and run /repo as it is', 'source_commits': []},
           'notes': claims['notes']}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
