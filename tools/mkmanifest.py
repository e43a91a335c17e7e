#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and the list of properties static analysis cannot decide."""
import json, os, sys
sys.dont_write_bytecode = True
B = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, B)
from sa.props import registry
props = [json.loads(l) for l in open(os.path.join(B, 'properties.jsonl'))]
NA = {
}
PENDING = 'no check yet'
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'python3 check.py {i}', evidence_file=f'evidence/{i}.json', technique=registry.TECH[i], level='other', level_note=registry.NOTE.get(i, registry.GENERAL)))
    else: na.append(dict(property=i, reason=NA.get(i, PENDING)))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(B, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
