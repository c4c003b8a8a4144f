#!/bin/bash
# trydemo.sh COPY ID... : runs demos in a scratch copy of /repo without and with the change
c=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
for s in "$@"; do
  (cd "$c" && bash "$here/seeded/$s/demo.sh" >/tmp/d.a 2>&1); a=$?
  git -C "$c" apply "$here/seeded/$s/patch.diff"
  (cd "$c" && bash "$here/seeded/$s/demo.sh" >/tmp/d.b 2>&1); b=$?
  git -C "$c" apply -R "$here/seeded/$s/patch.diff"
  echo "$s clean=$a bug=$b"
  [ $a = 0 ] || tail -4 /tmp/d.a
  [ $b = 1 ] || tail -4 /tmp/d.b
done
