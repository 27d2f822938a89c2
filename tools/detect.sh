#!/bin/bash
# tools/detect.sh ID...: runs the quick check of each planted bug's property on a scratch copy of /repo with the bug.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  d=$(mktemp -d /tmp/detect.XXXXXX)
  cp -a /repo/. $d
  git -C $d checkout -q -- .
  git -C $d apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; rm -rf $d; continue; }
  s=$(date +%s)
  timeout 900 ./bin/vengine -repo $d -tier quick check $p > /tmp/detect-$id.log 2>&1; rc=$?
  rm -rf $d
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 '^VIOLATION\|^C[0-9][0-9]:' /tmp/detect-$id.log)"
done
