#!/bin/bash
# try.sh ID... : demo on clean, then with patch: build, tests, demo, check
cd /repo
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git diff --quiet || { echo dirty; exit 1; }
  timeout 200 bash $d/demo.sh > /tmp/seed/clean.$id 2>&1; c0=$?
  git apply $d/patch.diff || { echo "$id no apply"; continue; }
  timeout 200 bash /opt/vp/test.sh /tmp/seed/t.json > /tmp/seed/test.$id 2>&1
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed/t.json'))
s=set(b.get('stable_passed') or b.get('passed') or b.get('stable') or [])
p=set(r.get('passed') or [])
print('ok' if s and s<=p else 'FAIL %d %s'%(len(s-p),sorted(s-p)[:2]))
P
)
  timeout 200 bash $d/demo.sh > /tmp/seed/bug.$id 2>&1; c1=$?
  k=skip
  if [ -z "$NOCHECK" ]; then ( cd /verif && timeout 800 bash check.sh $p quick --out /tmp/ev/x.json --replays /tmp/rp > /tmp/seed/chk.$id 2>&1 ); k="$? $(grep -m1 '^seed' /tmp/seed/chk.$id | cut -c1-150)"; fi
  git checkout -- .
  echo "$id $p clean=$c0 tests=$t bug=$c1 check=$k"
done
