#!/usr/bin/env python3
"""Writes known_findings.json from the fix commits in /repo and the table below (run by hand)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {}
for line in open(os.path.join(ROOT, 'tools', 'fixes.txt')):
    if line.strip():
        subj, props, what = [x.strip() for x in line.split('|')]
        PROPS[subj] = (props.split(), what)
fixed = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'],
                     stdout=subprocess.PIPE, text=True).stdout
for ln in log.splitlines():
    h, s = ln.split(' ', 1)
    if s.startswith('fix:'):
        ps, what = PROPS[s[4:].strip()]
        for p in ps:
            fixed.append('fixed: property=%s %s %s' % (p, h, what))
kn = json.load(open(os.path.join(ROOT, 'tools', 'known.json')))
with open(os.path.join(ROOT, 'known_findings.json'), 'w') as f:
    json.dump({'known': kn, 'fixed': fixed}, f, indent=1)
    f.write('\n')
