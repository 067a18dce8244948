#!/bin/bash
# usage: seedcheck.sh <id>...   (developer tool)
# For each planted change: the demonstration passes without it and fails with it, and what the checks say with it.
# With TESTS=1 the repository's tests are run with all of the named changes applied together.
cd /repo && [ -z "$(git status --short)" ] || { echo "/repo is not clean"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh >/tmp/sc.$id.0 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $d/demo.sh >/tmp/sc.$id.1 2>&1; r1=$?
  bash /verif/check.sh $prop quick >/tmp/sc.$id.2 2>&1; r2=$?
  git checkout -q -- .
  echo "$id $prop demo $r0 $r1 check $r2 $(grep -m1 '^VIOLATION' /tmp/sc.$id.2)"
  [ $r0 = 0 ] || tail -5 /tmp/sc.$id.0
done
if [ "${TESTS:-}" = 1 ]; then
  for id in "$@"; do git apply /verif/seeded/$id/patch.diff || echo "$id: conflicts"; done
  bash /opt/vp/build.sh >/tmp/sc.build 2>&1 || { echo "build fails"; tail -20 /tmp/sc.build; }
  bash /opt/vp/test.sh /tmp/sc.json >/dev/null 2>&1
  git checkout -q -- .
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/sc.json'))
st=b.get('stable') or b.get('passed') or b
miss=[x for x in st if x not in set(o['passed'])]
print('tests broken:',len(miss),miss[:10])
P
fi
