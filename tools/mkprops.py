#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from one table (tools/props.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NA, NOTES

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'],
                         'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        if p.get('state'):
            d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w}
                                     for n, m, w in p['state']]
        if p.get('observe'):
            d['anchors']['observe_at'] = p['observe']
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')

checks = []
for p in PROPS:
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                   'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': p['technique'], 'level': p.get('level', 'other'),
                   'level_note': p['note']})
man = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
       'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
       'notes': NOTES}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
