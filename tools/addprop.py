#!/usr/bin/env python3
"""addprop.py FILE.json: append or replace properties (a list of objects) in properties.jsonl."""
import json, sys
P = '/verif/properties.jsonl'
old = [json.loads(l) for l in open(P) if l.strip()]
for n in json.load(open(sys.argv[1])):
    old = [o for o in old if o['id'] != n['id']] + [n]
open(P, 'w').write(''.join(json.dumps(o) + '\n' for o in old))
