#!/bin/bash
# tools/seed.sh ID... : confirm planted bugs (build, stable tests, demo, check) one after another in /repo
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo && git diff --quiet || { echo "/repo dirty"; exit 1; }
  bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1
  bash $d/demo.sh >/tmp/seed_demo0.log 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/seed_t.json >/tmp/seed_test.log 2>&1
  miss=$(python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=set(json.load(open('/tmp/seed_t.json'))['passed'])
print(len(b-t), sorted(b-t)[:3])
P
)
  bash $d/demo.sh >/tmp/seed_demo1.log 2>&1; r1=$?
  (cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3 check.py $prop >/tmp/seed_check.log 2>&1); rc=$?
  git checkout -q -- .
  echo "$id ($prop): demo clean=$r0 patched=$r1; stable tests lost: $miss; check exit $rc $(grep -c VIOLATION /tmp/seed_check.log) $(grep VIOLATION /tmp/seed_check.log | head -2 | tr '\n' ' ')"
done
bash /opt/vp/build.sh >/dev/null 2>&1
