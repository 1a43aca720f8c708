#!/bin/bash
# tryseed.sh ID...: apply each planted bug to /repo, build, demo, check, undo.
cd "$(dirname "$0")/.."
for id in "$@"; do
  d=seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  b=ok; bash /opt/vp/build.sh >/tmp/s/$id.build 2>&1 || b=BUILD-FAILED
  bash /opt/vp/test.sh /tmp/s/$id.json >/tmp/s/$id.test 2>&1
  st=$(python3 - <<PY
import json
r=json.load(open('/tmp/s/$id.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=set(r.get('passed',r.get('pass',[])))
print('tests ok' if set(b)<=p else 'TESTS FAIL %s' % (set(b)-p))
PY
)
  (cd /repo && timeout 300 bash /verif/$d/demo.sh >/tmp/s/$id.demo1 2>&1); r1=$?
  ./check $prop >/tmp/s/$id.check 2>&1; c=$?
  git -C /repo checkout -q -- .
  bash /opt/vp/build.sh >/dev/null 2>&1
  (cd /repo && timeout 300 bash /verif/$d/demo.sh >/tmp/s/$id.demo0 2>&1); r0=$?
  echo "$id $prop build=$b $st demo(patched)=$r1 demo(clean)=$r0 check=$c $(grep -c . /tmp/s/$id.check) $(grep VIOLATION /tmp/s/$id.check | head -1)"
done
