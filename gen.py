#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [H + '/checks']
import props, registry
with open(H + '/properties.jsonl', 'w') as f:
    for p in props.P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks = []; na = []
for p in props.P:
    if p['technique'] is None: na.append({'property': p['id'], 'reason': p['note']}); continue
    assert p['id'] in registry.CHECKS, p['id']
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na, 'notes': 'Static analysis only: see DESIGN.md. Defects repaired and findings recorded: known-findings.txt.'}, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
