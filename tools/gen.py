#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import P
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        an = {'files': p['files'],
              'mechanism': [{'name': n or w.split(':')[-1], 'where': w} for n, w in p['mech']],
              'observe_at': p['observe'], 'hook_needed': None}
        if p['state']:
            an['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'], 'anchors': an}) + '\n')
m = {'version': 1, 'setup_cmd': './run.sh selftest',
     'checks': [{'property': p['id'], 'quick_cmd': './run.sh %s quick' % p['id'],
                 'thorough_cmd': './run.sh %s thorough' % p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'],
                 'level': 'model_checking', 'level_note': p['note']} for p in P],
     'not_applicable': [],
     'notes': 'No hooks are needed: every property is observed through the public API. '
              'VERIF_SEED is unused: nothing is random.'}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
