#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.tmpl.md, the evidence of the last runs, known_findings.txt and seeded/*/meta.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from manifest_data import TECH
from design_data import GENS, CATCH
t = open(os.path.join(V, 'tools/design.tmpl.md')).read()
rows = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    e = json.load(open(os.path.join(V, 'evidence', i + '.json')))
    g, o = GENS[i]
    rows.append('| %s %s | %s | %s | %d | %d s |' % (i, p['title'], g, o, round(e['coverage']['evaluations'], -2) or e['coverage']['evaluations'], e['wall_s']))
s = ['| change | needs | caught by |', '|--------|-------|-----------|']
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    s.append('| %s | %s | %s |' % (d, m['needs'].replace('\n', ' ').replace('|', '/'), CATCH.get(d, m['property'])))
nfix = sum(1 for l in open(os.path.join(V, 'known_findings.txt')) if l.startswith('fixed:'))
t = t.replace('@TABLE@', '\n'.join(rows)).replace('@SEEDED@', '\n'.join(s)).replace('@NFIX@', str(nfix))
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
