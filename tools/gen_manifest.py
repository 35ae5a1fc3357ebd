#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, os.path.join(V, 'tools'))
from manifest_data import TECH, NOTES, NA
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    if i in TECH:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           technique=TECH[i], level='exploration', level_note=NOTES[i]))
na = [dict(property=p['id'], reason=NA.get(p['id'], 'check under construction')) for p in props if p['id'] not in TECH]
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
               notes='Every check builds spb-protoc, the generated code and its harness from the working tree of /repo in a scratch directory. No hooks are needed.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
