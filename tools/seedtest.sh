#!/bin/bash
# seedtest.sh ID... : confirm planted bugs locally (applies each to /repo and undoes it)
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh >/tmp/demo.$id.out 2>&1; d0=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/b.$id.out 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
  t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','stable','tests','pass'):
            if k in x: return set(x[k])
    return set()
print(len(names(b)-set(t.get('passed',[]))))
P
)
  bash $d/demo.sh >>/tmp/demo.$id.out 2>&1; d1=$?
  (cd /verif && timeout 900 python3 check.py $p >/tmp/c.$id.out 2>&1); c=$?
  git checkout -q -- .
  echo "$id [$p]: demo clean=$d0 patched=$d1 build=$b failing_tests=$t check=$c $(grep -m1 '^  \[' /tmp/c.$id.out | cut -c1-150)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
git status --porcelain
