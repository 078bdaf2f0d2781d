#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and the table below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(H, 'rules'), os.path.join(H, 'engine'), os.path.join(H, 'tools')]
from registry import CHECKS
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
from not_applicable import NA
from technique import TECH
checks = []
for i in ids:
    if i in CHECKS:
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i} --thorough',
                       'technique': TECH[i][0], 'level': CHECKS[i]['level'], 'level_note': TECH[i][1]})
    elif i not in NA:
        raise SystemExit(f'{i}: neither claimed nor not applicable')
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': NA[i]} for i in ids if i in NA and i not in CHECKS],
     'notes': 'All checks decide from facts (MIR, resolved types) of /repo\'s current tree; see DESIGN.md.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(m['not_applicable']), 'not applicable')
extra = set(CHECKS) - set(ids)
if extra:
    raise SystemExit(f'checks without property: {extra}')
