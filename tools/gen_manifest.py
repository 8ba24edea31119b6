#!/usr/bin/env python3
"""Writes MANIFEST.json from vlib/props.py and properties.jsonl."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.props import CHECKS, NOT_APPLICABLE, NOTES, LEVEL_NOTE  # noqa: E402
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        checks.append({'property': i, 'quick_cmd': './check.py %s quick' % i, 'thorough_cmd': './check.py %s thorough' % i,
                       'technique': CHECKS[i].get('technique', 'deterministic simulation: seeded schedules and fault injection over the real code'),
                       'level': 'exploration', 'level_note': CHECKS[i].get('level_note', LEVEL_NOTE)})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'The check is not built yet.')})
m = {'version': 1, 'setup_cmd': './check.py setup',
     'hooks': {'guard': 'none', 'enable': 'No hooks: all seams are at link time (thread, futex, clock, allocation, I/O and race-detector calls of the unmodified sources go to the simulator).', 'source_commits': []},
     'checks': checks, 'not_applicable': na, 'notes': NOTES}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
