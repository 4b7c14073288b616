#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(HERE)
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
m = {'version': 1,
     'setup_cmd': 'python3 lib/build.py plain asan alt',
     'checks': [{'property': p['id'],
                 'quick_cmd': 'python3 checks/%s.py' % p['id'].lower(),
                 'thorough_cmd': 'VERIF_TIER=thorough python3 checks/%s.py' % p['id'].lower(),
                 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']}
                for p in PROPS if p.get('technique')],
     'not_applicable': NOT_APPLICABLE,
     'notes': 'No hooks in /repo: every monitor works from outside (sanitizer builds, process boundary, LD_PRELOAD shims).'}
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
for p in PROPS:
    assert len(p['title']) <= 80, p['id']
