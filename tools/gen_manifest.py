#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and the table of properties this technique does not reach."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl') if l.strip()]
checks, na = [], []
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f'bin/check {i}', thorough_cmd=f'bin/check {i} --thorough', evidence_file=f'evidence/{i}.json',
                           technique=P.get('technique', 'deterministic simulation with fault injection (seeded search)'), level='exploration',
                           level_note=P.get('note', 'seeded search over simulated histories; a clean run is evidence over what was explored, not a proof')))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na)
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
