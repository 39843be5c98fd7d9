#!/usr/bin/env python3
"""Assembles DESIGN.md from design/*.md, props_list.py, known_findings.json and design/seeds.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, bounds, outside='', **k): P.append(dict(id=id, title=title, quant=quant, why=why, files=files, bounds=bounds, outside=outside))
exec(open(V + '/props_list.py').read())
P.sort(key=lambda p: p['id'])
HOW = json.load(open(V + '/design/how.json'))
o = [open(V + '/design/head.md').read(), '## Properties\n\nStatements are in properties.jsonl. Every one is decided by running the functions named through the engine (level: exhaustive within bounds).\n']
for p in P:
    o.append('### %s %s\n\n* Method and oracle: %s\n* Over: %s.\n* Bounds: %s\n* Outside: %s\n* Beyond the tests: %s\n' % (p['id'], p['title'], HOW[p['id']], p['quant'], p['bounds'], p['outside'] or 'nothing further.', p['why']))
k = json.load(open(V + '/known_findings.json'))
o.append('## Known findings (not repaired)\n\n' + '\n'.join('* %s (`%s`): %s' % (f['property'], f['harness'], f['what']) for f in k['findings']) + '\n')
o.append('## Genuine defects found and repaired in /repo\n\n' + '\n'.join('* ' + f for f in k['fixed']) + '\n')
sd = V + '/design/seeds.json'
if os.path.exists(sd):
    S = json.load(open(sd))
    o.append('## Planted bugs\n\nEach lies in seeded/<id>/ with a demonstration; "caught by" is the quick check of its property.\n\n| id | property | needs | caught by |\n|---|---|---|---|')
    for i in sorted(S): o.append('| %s | %s | %s | %s |' % (i, S[i]['property'], S[i]['needs'].replace('|', '/'), S[i]['caught']))
    o.append('')
if os.path.exists(V + '/design/mut.md'): o.append(open(V + '/design/mut.md').read())
o.append(open(V + '/design/tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(o))
