#!/usr/bin/env python3
"""developer aid: write properties.jsonl and MANIFEST.json from the table below (checks exist where checks/<id>.py does)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
out = []
checks, na = [], []
for q in PROPS:
    pid = q['id']
    out.append({'id': pid, 'title': q['title'], 'statement': q['statement'],
                'quantifier': {'over': q['over'], 'text': q['q']}, 'why_tests_cant': q['why'],
                'anchors': {'files': q['files'], 'mechanism': q['mech']}})
    if os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
        checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s' % pid, 'thorough_cmd': 'python3 check.py %s --tier=thorough' % pid,
                       'evidence_file': 'evidence/%s.json' % pid, 'technique': q['technique'], 'level': 'other', 'level_note': q['note']})
    else:
        na.append({'property': pid, 'reason': q.get('na', 'check not built yet')})
for q in NA:
    out.append({'id': q['id'], 'title': q['title'], 'statement': q['statement'], 'quantifier': {'over': q['over'], 'text': q['q']},
                'why_tests_cant': q['why'], 'anchors': {'files': q['files'], 'mechanism': q['mech']}})
    na.append({'property': q['id'], 'reason': q['reason']})
for o in out:
    assert len(o['title']) <= 80, o['title']
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for o in out:
        f.write(json.dumps(o) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 -c "import sys; assert sys.version_info >= (3, 8)"', 'checks': checks, 'not_applicable': na}, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
