#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl, specs.json and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, quant, why, files, mech, bounds, outside='', shards=None, tlimit=None, reach=None, panic_only=False, observe=None, assumptions=None, also=None, only=None):
    P.append(locals().copy())
exec(open(os.path.join(V, 'props_list.py')).read())
NA = json.load(open(os.path.join(V, 'not_applicable.json')))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p['observe'] or ['hook callbacks and public transaction fields of the Rust API'], 'hook_needed': None}}) + '\n')
    for n in NA:
        if 'record' in n: f.write(json.dumps(n['record']) + '\n')
json.dump({p['id']: {'bounds': p['bounds'], 'outside': p['outside'], 'shards': p['shards'] or {}, 'tlimit': p['tlimit'] or {},
    'reach': p['reach'] or [], 'panic_only': p['panic_only'], 'also': p['also'], 'only': p['only'], 'assumptions': p['assumptions'] or []} for p in P},
    open(os.path.join(V, 'specs.json'), 'w'), indent=1)
json.dump({'version': 1, 'setup_cmd': 'bash build_harness.sh',
    'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'symbolic execution of the compiled code (LLVM bitcode) with z3, bounded symbolic inputs',
        'level': 'model_checking', 'level_note': 'Exhaustive within bounds: ' + p['bounds'] + (' Outside: ' + p['outside'] if p['outside'] else '')} for p in P],
    'not_applicable': [{'property': n['property'], 'reason': n['reason']} for n in NA],
    'notes': 'No hooks in /repo. See DESIGN.md.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
