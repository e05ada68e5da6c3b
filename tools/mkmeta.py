#!/usr/bin/env python3-vt
"""writes properties.jsonl and MANIFEST.json from the one list below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf import props
from tools.plist import PLIST, NA
TECH = 'contract-based deductive verification of the compiled library code (own VC generator over LLVM IR, z3)'
with open(V + '/properties.jsonl', 'w') as o:
    for p in PLIST:
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p.get('over', ['inputs']), 'text': p['q']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        if p.get('state'):
            d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        if p.get('observe'):
            d['anchors']['observe_at'] = p['observe']
        o.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo. Every check compiles /repo/src to LLVM bitcode and proves the contract harnesses in specs/ over it; see DESIGN.md.'}
for p in PLIST:
    if p['id'] in props.PROPS:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'VERIF_TIER=quick python3-vt check.py ' + p['id'],
                            'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + p['id'],
                            'technique': TECH, 'level': props.PROPS[p['id']].get('level', 'proof'), 'level_note': p['note']})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': NA[p['id']]})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(V + '/properties.jsonl'):
        jsonschema.validate(json.loads(l), s)
except OSError:
    pass
