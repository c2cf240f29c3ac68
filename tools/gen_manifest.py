#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks and the reasons for what is not claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIM = {}
NA = {}
exec(open(os.path.join(V, 'tools', 'manifest_data.py')).read())
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i in CLAIM:
        tech, note, level = (CLAIM[i] + ('proof',))[:3]
        checks.append({'property': i, 'quick_cmd': 'python3-vt jfverify/run.py %s --tier quick' % i,
                       'thorough_cmd': 'python3-vt jfverify/run.py %s --tier thorough' % i,
                       'technique': tech, 'level': level, 'level_note': note})
na = [{'property': i, 'reason': NA.get(i, 'contracts for this property are not written yet')} for i in ids if i not in CLAIM]
json.dump({'version': 1, 'setup_cmd': 'python3-vt jfverify/build.py', 'checks': checks, 'not_applicable': na,
           'notes': 'Checks share one build cache in /verif/build keyed by source content; each check rebuilds what changed.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
