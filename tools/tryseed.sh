#!/bin/bash
# tryseed.sh ID...: tests, demo and checks of each seeded bug, in /repo's working tree (restored afterwards)
cd /repo
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
export DEMO_TARGET=/tmp/hv_demo_target
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash "$d/demo.sh" > /tmp/seed_out 2>&1; clean=$?
  [ $clean = 0 ] || tail -5 /tmp/seed_out
  git apply "$d/patch.diff" || exit 1
  bash /opt/vp/build.sh > /tmp/seed_build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seed_tests.json > /dev/null 2>&1
  t=$(python3 - <<P
import json
base=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed_tests.json'))
names=lambda x: set(x.get('stable') or x.get('passed') or [])
print(len(names(base)-names(r)), "missing", sorted(names(base)-names(r))[:3])
P
)
  bash "$d/demo.sh" > /tmp/seed_out2 2>&1; dirty=$?
  tail -3 /tmp/seed_out2 | cut -c1-300
  VERIF_SEED=${VERIF_SEED:-1} bash /verif/run.sh "$prop" quick > /tmp/seed_check 2>&1; c=$?
  git checkout -- .
  echo "$id $prop: demo clean=$clean patched=$dirty build=$b tests: $t check=$c"
  grep -m2 VIOLATION /tmp/seed_check
done
