#!/bin/bash
# seedtest.sh [--tests] ID...: apply each planted bug to /repo, run its demo and its check, undo.
t=0; [ "$1" = --tests ] && { t=1; shift; }
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(/usr/bin/python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && bash $d/demo.sh >/tmp/seed-clean.log 2>&1); c=$?
  git -C /repo apply $d/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
  bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1; b=$?
  (cd /repo && bash $d/demo.sh >/tmp/seed-demo.log 2>&1); m=$?
  (cd /verif && timeout 900 ./check $p quick >/tmp/seed-check-$id.log 2>&1); k=$?
  s=-
  if [ $t = 1 ]; then bash /opt/vp/test.sh /tmp/seed-test.json >/tmp/seed-test.log 2>&1; s=$(/usr/bin/python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);r=set(json.load(open('/tmp/seed-test.json'))['passed']);print(sorted(b-r) or 'pass')"); fi
  git -C /repo checkout -q -- .
  echo "$id ($p): build=$b demo clean=$c patched=$m check=$k tests=$s"
done
bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1 || echo "REBUILD FAILED"
