#!/bin/bash
# catch.sh ID... run the property's quick check on patched /repo
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo dirty; exit 1; }
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git apply /verif/seeded/$i/patch.diff || { echo "$i NOAPPLY"; continue; }
  (cd /verif && timeout 900 python3 run.py $p --tier quick >/tmp/catch.$i.log 2>&1; echo "$i $p rc=$? $(grep -c VIOLATION /tmp/catch.$i.log) $(grep -m1 ' wall ' /tmp/catch.$i.log | tail -c 60)")
  git checkout -q -- .
done
