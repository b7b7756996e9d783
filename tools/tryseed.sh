#!/bin/bash
# tryseed.sh ID... : applies each planted change to /repo, runs the check of its property, undoes it
for id in "$@"; do
  D=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /repo apply $D/patch.diff || { echo "$id does not apply"; continue; }
  timeout 900 /verif/check $p > /tmp/try_$id.txt 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$id $p exit $r $(grep -m1 VIOLATION /tmp/try_$id.txt)"
done
