#!/usr/bin/env python3
"""plant.py ID PROPERTY EDITS.py : builds seeded/ID from a description (development helper).

EDITS.py defines: edits = [(file, old, new), ...], needs, what, demo (python source).
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, pid, src = sys.argv[1:4]
ns = {}
exec(open(src).read(), ns)
w = '/tmp/plant_wt'
subprocess.run(['rm', '-rf', w])
subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
for f, old, new in ns['edits']:
    p = os.path.join(w, 'py_gnome/gnome', f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
d = os.path.join(ROOT, 'seeded', sid)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
diff = subprocess.run(['git', '-C', w, 'diff'], check=True, stdout=subprocess.PIPE).stdout
open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
shutil.rmtree(w)
shutil.copytree(os.path.join(ROOT, 'stubs', 'gridded'), os.path.join(d, 'lib', 'gridded'),
                ignore=shutil.ignore_patterns('__pycache__'))
open(os.path.join(d, 'demo.py'), 'w').write(ns['demo'])
with open(os.path.join(d, 'demo.sh'), 'w') as f:
    f.write('''#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
cd "$scratch" || exit 3
export HOME=$scratch TMPDIR=$scratch
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$here/lib:$repo/py_gnome timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
''')
os.chmod(os.path.join(d, 'demo.sh'), 0o755)
json.dump({'property': pid, 'needs': ns['needs'], 'what_it_breaks': ns['what']},
          open(os.path.join(d, 'meta.json'), 'w'), indent=1)
print(diff.decode())
