#!/bin/bash
# developer aid: bugtest.sh ID... : in the scratch copy /tmp/bug/repo apply the planted bug, run demo, check, and (unless NOTEST) the test suite
R=/tmp/bug/repo; H=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$H/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C $R checkout -q -- . ; git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
  (cd $R && bash $d/demo.sh >/tmp/bug/demo0.log 2>&1); c=$?
  git -C $R apply $d/patch.diff || { echo "$id APPLY FAILED"; continue; }
  (cd $R && bash $d/demo.sh >/tmp/bug/demo1.log 2>&1); e=$?
  out=$(cd $H && GBS_REPO=$R VERIF_SEED=1 python3-vt check.py $p 2>&1); k=$?
  t=skipped
  if [ -z "$NOTEST" ]; then bash /tmp/bug/test.sh /tmp/bug/out.json >/tmp/bug/test.log 2>&1; t=$(python3 -c "
import json;a=set(json.load(open('/tmp/bug/out.json'))['passed']);b=json.load(open('/opt/vp/BASELINE.json'))['stable'];m=[x for x in b if x not in a];print('ok' if not m else 'FAIL '+str(m[:3]))"); fi
  echo "$id [$p] demo clean=$c bug=$e tests=$t check=$k $(echo "$out" | grep VIOLATION | sed 's/.*json//') $(echo "$out" | grep -c FAILED) failed obligations"
  git -C $R checkout -q -- .
done
