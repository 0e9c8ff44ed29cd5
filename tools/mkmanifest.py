#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, lib/levels.json and the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import props
lv = json.load(open(os.path.join(V, 'lib/levels.json')))
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    i = json.loads(l)['id']
    if i in props.CHECKS:
        t = lv[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                           technique=t['technique'], level=t.get('level', 'exploration'), level_note=t['note']))
    else:
        na.append(dict(property=i, reason=lv.get(i, {}).get('na', 'check under construction')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='No hooks in /repo: everything is observed at the public interface, by interposed system calls, sanitizers or the processor. Checks build /repo\'s sources into /verif/build.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
