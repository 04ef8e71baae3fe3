#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from properties_src.py and props.py (run by hand, output is committed)."""
import json, os
from properties_src import Q
from props import PROPS
V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for pid in sorted(Q):
        p = {k: v for k, v in Q[pid].items() if k not in ('level_note', 'technique')}
        assert len(p['title']) <= 80, (pid, len(p['title']))
        f.write(json.dumps(p) + '\n')
m = dict(version=1, setup_cmd='python3 setup.py', checks=[], not_applicable=[],
         notes='Every check builds its harness and the library sources from the working tree with sanitizers; nothing is cached outside /verif/.build. No hooks in /repo.')
for pid in sorted(Q):
    if pid in PROPS:
        m['checks'].append(dict(property=pid, quick_cmd='python3 check.py %s --tier quick' % pid, thorough_cmd='python3 check.py %s --tier thorough' % pid,
                                evidence_file='evidence/%s.json' % pid, technique=Q[pid]['technique'], level='exploration', level_note=Q[pid]['level_note']))
    else:
        m['not_applicable'].append(dict(property=pid, reason='check not built yet (work in progress)'))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not claimed')
