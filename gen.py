#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and in props.py."""
import json
import os

from props import PROPS
from proptext import TEXT, NOT_APPLICABLE

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for t in TEXT:
        assert len(t['title']) <= 80, t['title']
        d = {'id': t['id'], 'title': t['title'], 'statement': t['statement'],
             'quantifier': {'over': t['over'], 'text': t['text']}, 'why_tests_cant': t['why'],
             'anchors': {'files': t['files'], 'mechanism': [{'name': m[0], 'where': m[1]} for m in t['mechanism']],
                         'observe_at': t.get('observe', ['return values of the public API']), 'hook_needed': None}}
        f.write(json.dumps(d) + '\n')
ids = [t['id'] for t in TEXT]
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': p.get('technique', 'TLA+ specification checked with TLC, bound by trace validation and replay'),
                       'level': p['level'], 'level_note': p.get('note', p['rule'])})
na = [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'not claimed: its specification is not built yet')}
      for i in ids if i not in PROPS]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the public API exposes the state that the specifications talk about. '
              'known_findings.json lists genuine defects that were repaired ("fixed") or recorded ("findings").'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
