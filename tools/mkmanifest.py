#!/usr/bin/env python3
"""Writes MANIFEST.json from engine/plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import plan
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in plan.PROPS:
        P = plan.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                           technique=P.get('technique', plan.TECHNIQUE), level='other', level_note=P.get('note', plan.NOTE)))
    else:
        na.append(dict(property=i, reason=plan.NOT_APPLICABLE.get(i, 'no check yet')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
