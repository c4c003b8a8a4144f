#!/bin/bash
# Runs ALL of the upstream unit tests (not only the stable ones) on two commits of /repo, with the
# stand-in for gridded and with data downloads disabled, and prints the tests whose result differs.
# usage: tools/upstream_regress.sh [BASE] [HEAD]      (works in /tmp/reg, which it removes)
A=${1:-$(git -C /repo rev-list --max-parents=0 HEAD | tail -n 1)}; B=${2:-$(git -C /repo rev-parse HEAD)}
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p /tmp/reg
for v in $A $B; do
  cp -a /repo /tmp/reg/$v; git -C /tmp/reg/$v checkout -q -f $v
  python3 - $v <<'P'
import sys
p = '/tmp/reg/%s/py_gnome/gnome/utilities/remote_data.py' % sys.argv[1]
s = open(p).read()
j = s.index(':', s.index('def get_datafile')) + 1
open(p, 'w').write(s[:j] + "\n    return filename\n" + s[j:])
P
  ( cd /tmp/reg/$v/py_gnome/tests; export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
    PYTHONPATH=$HERE/../stubs:/tmp/reg/$v/py_gnome:/tmp/reg/$v/py_gnome/tests \
    timeout 850 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60 \
      --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/reg/$v.xml unit_tests \
      > /tmp/reg/$v.log 2>&1 ) &
done; wait
python3 - $A $B <<'P'
import sys, xml.etree.ElementTree as E
def load(v):
    r = {}
    for t in E.parse('/tmp/reg/%s.xml' % v).iter('testcase'):
        s = 'pass'
        for c in t:
            if c.tag in ('failure', 'error', 'skipped'):
                s = c.tag + ': ' + (c.get('message') or '')[:150]
        r[(t.get('classname') + '::' + t.get('name')).replace(v, '')] = s
    return r
a, b = load(sys.argv[1]), load(sys.argv[2])
print('passed', sum(v == 'pass' for v in a.values()), sum(v == 'pass' for v in b.values()))
for k in sorted(set(a) | set(b)):
    if (a.get(k) == 'pass') != (b.get(k) == 'pass'):
        print(k, '|', a.get(k), '|', b.get(k))
P
rm -rf /tmp/reg
