#!/usr/bin/env python3
"""Writes MANIFEST.json from the claimed checks (tools/claims.py) and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from claims import CLAIMED, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = 'contract-based deductive verification: VCs generated from the extracted C++ functions, discharged by z3/cvc5'
checks = []; na = []
for i in ids:
    if i in CLAIMED:
        checks.append({'property': i, 'quick_cmd': f'python3-vt check.py {i} quick', 'thorough_cmd': f'python3-vt check.py {i} thorough', 'evidence_file': f'evidence/{i}.json',
                       'technique': TECH, 'level': 'proof', 'level_note': CLAIMED[i]})
    else: na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'machinery under construction')})
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: contracts live in specs/, the functions are extracted mechanically from the current sources on every run.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
