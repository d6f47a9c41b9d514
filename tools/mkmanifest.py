#!/usr/bin/env python3
"""writes MANIFEST.json from props.py and properties.jsonl"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = getattr(props, 'NOT_APPLICABLE', {})
checks = []
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        c = {'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
             'technique': P.technique, 'level': P.level, 'level_note': P.note}
        checks.append(c)
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': NA.get(i, 'no check yet')} for i in ids if i not in props.PROPS],
     'notes': 'Static analysis only: the MIR of the crate is extracted by a rustc driver on every run and interpreted abstractly; see DESIGN.md. No hooks in /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
