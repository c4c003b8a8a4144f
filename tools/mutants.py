#!/usr/bin/env python3
"""mutants.py FILE.py [NAME...] : runs the checks against small wrong changes (development helper).

FILE.py defines M = [(name, 'C01 C05', [(file, old, new), ...]), ...]; the changes are made in a scratch
copy of /repo, one after the other, and the named checks run against the copy (Python changes only).
"""
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
w = '/tmp/mutant_wt_%d' % os.getpid()
subprocess.run(['rm', '-rf', w])
subprocess.run(['cp', '-a', '/repo', w], check=True)
try:
    for name, props, edits in ns['M']:
        if only and name not in only:
            continue
        subprocess.run(['git', '-C', w, 'checkout', '-q', '--', '.'], check=True)
        bad = None
        for f, old, new in edits:
            p = os.path.join(w, 'py_gnome/gnome', f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = '%s: %d matches of %r' % (f, s.count(old), old[:60])
                break
            open(p, 'w').write(s.replace(old, new))
        if bad:
            print('%-24s BAD %s' % (name, bad), flush=True)
            continue
        for pr in props.split():
            t = time.time()
            r = subprocess.run(['/opt/venv/bin/python', 'check.py', pr], cwd=ROOT,
                               env=dict(os.environ, VERIF_REPO=w), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors='replace')
            line = [l for l in r.stdout.splitlines() if l.startswith('seed ')][:1]
            print('%-24s %s %s %3.0f s  %s' % (name, pr, {0: 'MISSED', 1: 'caught'}.get(
                r.returncode, 'rc=%d' % r.returncode), time.time() - t,
                (line[0] if line else r.stdout[-200:].replace('\n', ' '))[:150]), flush=True)
finally:
    subprocess.run(['rm', '-rf', w])
