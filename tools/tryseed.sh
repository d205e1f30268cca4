#!/bin/bash
# run the check of each given planted change against /repo with it applied, and undo it
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id NOT APPLIED"; continue; }
  (cd /verif && timeout 900 python3-vt -m vp.check $p > /tmp/tryseed.$id.log 2>&1; echo "$id $p exit=$? $(grep -c '^VIOLATION' /tmp/tryseed.$id.log) $(grep -m1 '^VIOLATION' /tmp/tryseed.$id.log)")
  git -C /repo checkout -q -- .
done
