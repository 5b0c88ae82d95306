#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta.py (single source of the property texts)."""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from meta import PROPS, NA

TECH = 'symbolic execution of the current source + SMT (z3) verdict over all inputs within bounds; replay on real code'
props, checks, na = [], [], []
for p in PROPS:
    if not p.get('na') and not os.path.exists(os.path.join(ROOT, 'props', p['id'] + '.py')):
        continue
    props.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                  'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                  'anchors': {'files': p['files'], 'mechanism': [{'name': m, 'where': w} for m, w in p['mech']]}})
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({'property': p['id'], 'quick_cmd': './check %s' % p['id'],
                   'thorough_cmd': './check %s --tier thorough' % p['id'],
                   'technique': p.get('technique', TECH), 'level': 'model_checking', 'level_note': p['note']})
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
json.dump({'version': 1, 'setup_cmd': './check --selftest', 'checks': checks, 'not_applicable': na,
           'notes': NA}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(props), 'properties', len(checks), 'checks')
