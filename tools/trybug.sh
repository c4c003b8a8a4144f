#!/bin/bash
# trybug.sh ID PROP... : runs demo and the checks against a scratch copy with the planted change
# (development helper; pure-Python changes only, unless the copy is rebuilt)
cd "$(dirname "$0")/.." || exit 3
here=$PWD; id=$1; shift
d=/tmp/try_$id
rm -rf "$d"; cp -a /repo "$d"
(cd "$d" && bash $here/seeded/$id/demo.sh >/tmp/try_$id.clean 2>&1); a=$?
git -C "$d" apply $here/seeded/$id/patch.diff || { echo "$id: patch does not apply"; exit 3; }
(cd "$d" && bash $here/seeded/$id/demo.sh >/tmp/try_$id.bug 2>&1); b=$?
echo "$id: demo clean=$a bug=$b"
for p in "$@"; do
  VERIF_REPO=$d timeout 900 /opt/venv/bin/python check.py $p > /tmp/try_$id.$p.log 2>&1; rc=$?
  echo "$id: $p rc=$rc $(grep -m1 -E 'seed [0-9]+ case' /tmp/try_$id.$p.log | cut -c1-150)"
done
rm -rf "$d"
