#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = 'py_gnome/gnome/'
P = []          # (property, check or reason)


def prop(id, title, statement, over, text, why, files, mech, observe, note=None, na=None,
         level='fault_enumeration'):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': [G + f for f in files],
                     'mechanism': [{'name': n, 'where': G + w} for n, w in mech],
                     'observe_at': observe, 'hook_needed': None}}
    P.append((d, note, na, level))


exec(open(os.path.join(ROOT, 'tools', 'properties_src.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d, _, _, _ in P:
        assert len(d['title']) <= 80, d['id']
        f.write(json.dumps(d) + '\n')

PY = '/opt/venv/bin/python check.py '
man = {'version': 1,
       'setup_cmd': '/opt/venv/bin/python tools/setup.py',
       'hooks': {'guard': 'PYGNOME_SIM (reserved; no hook was needed)',
                 'enable': 'nothing to enable: every seam is a public Python interface replaced '
                           'from outside, in the simulated process only',
                 'source_commits': []},
       'checks': [{'property': d['id'], 'quick_cmd': PY + d['id'],
                   'thorough_cmd': PY + d['id'] + ' --tier thorough',
                   'technique': 'deterministic simulation with fault injection: ' + note[0],
                   'level': lvl, 'level_note': note[1]}
                  for d, note, na, lvl in P if not na],
       'not_applicable': [{'property': d['id'], 'reason': na} for d, note, na, lvl in P if na]}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
