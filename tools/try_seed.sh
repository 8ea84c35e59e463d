#!/bin/bash
# try_seed.sh [-t] ID...   demo without/with the patch, stable tests (-t), the property's check
T=0; [ "$1" = "-t" ] && { T=1; shift; }
cd /verif
for i in "$@"; do
  d=/verif/seeded/$i
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/ts_demo0 2>&1); r0=$?
  git -C /repo apply $d/patch.diff || { echo "$i: patch does not apply"; continue; }
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/ts_demo1 2>&1); r1=$?
  tests=-
  if [ $T = 1 ]; then
    bash /opt/vp/test.sh /tmp/ts_out.json >/dev/null 2>&1
    tests=$(python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/ts_out.json'))
p=set(o.get('passed',[]))
print(len(b-p))
P
)
  fi
  ./check.sh $prop >/tmp/ts_check_$i 2>&1; rc=$?
  git -C /repo checkout -q -- .
  v=$(grep -m1 '^VIOLATION' /tmp/ts_check_$i | cut -c1-60)
  n=""; grep -q no-failing-input /tmp/ts_check_$i && n=" (no input)"
  echo "$i $prop demo $r0/$r1 stable-lost $tests check $rc $v$n | $(tail -1 /tmp/ts_check_$i)"
  [ $r0 = 0 ] || tail -3 /tmp/ts_demo0
  [ $r1 != 0 ] || tail -3 /tmp/ts_demo1
done
