#!/usr/bin/env python3
"""writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from meta/*.py"""
import json, os
from checks import PROPS, CHECKS
H = os.path.dirname(os.path.abspath(__file__))
ids = sorted(PROPS)
with open(H + '/properties.jsonl', 'w') as f:
    for i in ids:
        p = PROPS[i]
        assert len(p['title']) <= 80, (i, len(p['title']))
        f.write(json.dumps({'id': i, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p.get('observe', ['public interface of the classes in the anchor files']), 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [], 'notes': 'No hooks in /repo are needed; every check compiles the sources of /repo\'s working tree itself. See DESIGN.md.'}
for i in ids:
    p = PROPS[i]
    if i in CHECKS:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 run.py %s quick' % i, 'thorough_cmd': 'python3 run.py %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
            'technique': p['tech'], 'level': p.get('level', 'model_checking'), 'level_note': 'Exhaustive within bounds: ' + p['bounds'] + '. Trusts: ' + '; '.join(p['assume'])})
    else:
        m['not_applicable'].append({'property': i, 'reason': p['na']})
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
head = open(H + '/meta/DESIGN.head.md').read()
d = head + '\n## Properties, one by one\n\n'
for i in ids:
    p = PROPS[i]
    d += '### %s %s\n\n' % (i, p['title'])
    if i not in CHECKS: d += 'Not applicable: %s\n\n' % p['na']; continue
    d += '%s\n\n*Decided by* %s. *Bounds:* %s. *Reaches beyond tests:* %s\n\n' % (p['design'], p['tech'], p['bounds'], p['why'])
d += open(H + '/meta/DESIGN.tail.md').read()
open(H + '/DESIGN.md', 'w').write(d)
