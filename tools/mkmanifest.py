#!/usr/bin/env python3
# Writes MANIFEST.json from checks.py and properties.jsonl; run it after adding a check.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS, TECH, NOTE, NA
out = dict(version=1, setup_cmd='python3 setup.py', checks=[], not_applicable=[])
for l in open(os.path.join(V, 'properties.jsonl')):
    i = json.loads(l)['id']
    if i in CHECKS: out['checks'].append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i, thorough_cmd='python3 run.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i, technique=TECH[i], level='exploration', level_note=NOTE[i]))
    else: out['not_applicable'].append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); print(len(out['checks']), 'checks')
