"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from props import P

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['id']
        json.dump({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                   'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                   'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}, f)
        f.write('\n')
checks, na = [], []
for p in sorted(P, key=lambda p: p['id']):
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    assert os.path.exists(os.path.join(ROOT, 'mks', 'rules', p['id'].lower() + '.py')), p['id']
    checks.append({'property': p['id'], 'quick_cmd': './run.py check {} --tier quick'.format(p['id']),
                   'thorough_cmd': './run.py check {} --tier thorough'.format(p['id']),
                   'technique': p['technique'], 'level': 'other', 'level_note': p['level_note']})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q mks run.py', 'checks': checks, 'not_applicable': na,
               'notes': 'Static analysis only: the source under /repo is parsed on every run and nothing of it is executed. See DESIGN.md.'}, f, indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
