#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NA
checks = []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for p in PROPS + NA:
        mech = [{'name': n, 'where': w} for n, w in p['mech']]
        fh.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                             'quantifier': {'over': p['over'], 'text': p['qtext']},
                             'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': mech}}) + '\n')
        assert len(p['title']) <= 80, p['title']
for p in PROPS:
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                   'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'make -s -C nsa/extract', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': 'One static analyser (nsa/): a clang LibTooling extractor dumps the resolved program, an abstract interpreter builds the value flow and effects of each function, and one rule module per property judges them. See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
