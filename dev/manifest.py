#!/usr/bin/env python3
"""Regenerates MANIFEST.json from vf/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in props.JOBS:
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py ' + i,
                           technique=props.TECHNIQUE.get(i, props.TECH), level=props.LEVEL.get(i, 'model_checking'),
                           level_note=props.NOTE.get(i, props.NOTE0)))
    else:
        na.append(dict(property=i, reason=props.NOT_YET.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='TLA+ specifications in spec/, checked with TLC; every behaviour TLC generates is replayed on the real library (vf/). No hooks in /repo. '
               'check.py rebuilds the C extension from /repo into a scratch directory and imports the Python modules from /repo.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
