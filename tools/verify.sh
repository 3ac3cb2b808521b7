#!/bin/bash
# verify.sh ID... : demo passes on /repo, tests pass & demo fails in patched /repo; restores afterwards
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo dirty; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo BUILDFAIL base; exit 1; }
for i in "$@"; do
  bash /verif/seeded/$i/demo.sh >/tmp/d0.log 2>&1; a=$?
  echo "$i clean demo rc=$a"; [ $a = 0 ] || tail -5 /tmp/d0.log
done
for i in "$@"; do
  git apply /verif/seeded/$i/patch.diff || { echo "$i NOAPPLY"; continue; }
  bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
  python3 - "$i" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/t.json'))
print(sys.argv[1],'missing stable:',[x for x in b if x not in r['passed']])
P
  bash /verif/seeded/$i/demo.sh >/tmp/d1.log 2>&1; echo "$i patched demo rc=$? $(tail -1 /tmp/d1.log)"
  git checkout -q -- .
done
bash /opt/vp/build.sh >/dev/null 2>&1
