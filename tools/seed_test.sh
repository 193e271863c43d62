#!/bin/bash
# Development helper: seed_test.sh ID...  applies each planted bug to /repo, builds, runs the
# stable tests and the demo, runs the check of its property, and undoes the patch.
V=$(dirname "$(dirname "$(realpath "$0")")")
cd /repo || exit 2
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "/repo is dirty"; exit 2; }
for id in "$@"; do
  d=$V/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash /opt/vp/build.sh >/dev/null 2>&1
  bash $d/demo.sh >/tmp/seeds/$id.clean 2>&1; c=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seeds/$id.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seeds/$id.json >/dev/null 2>&1
  t=$(python3 -c "
import json
p=set(json.load(open('/tmp/seeds/$id.json'))['passed'])
print(sorted(p))" 2>/dev/null | grep -c "crystal_data_test.*line_search_test")
  bash $d/demo.sh >/tmp/seeds/$id.patched 2>&1; m=$?
  timeout 900 python3-vt $V/check.py $p --tier quick >/tmp/seeds/$id.check 2>&1; k=$?
  v=$(grep -m1 "^VIOLATION" /tmp/seeds/$id.check)
  git checkout -q -- .
  echo "$id $p: demo clean=$c (0) build=$b (0) tests=$t (1) demo patched=$m (!0) check=$k (1) $v"
done
bash /opt/vp/build.sh >/dev/null 2>&1
