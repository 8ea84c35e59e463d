#!/bin/bash
# demos without/with the patch in a scratch copy of src:  tools/try_demos.sh ID...
for i in "$@"; do
  d=/verif/seeded/$i; s=/tmp/scr_$i; mkdir -p $s; cp -a /repo/src $s/
  (cd $s; PYTHONPATH=$s/src timeout 200 bash $d/demo.sh >/tmp/w/d0 2>&1); r0=$?
  (cd $s && git init -q . 2>/dev/null; git apply $d/patch.diff) || echo "$i does not apply"
  (cd $s; PYTHONPATH=$s/src timeout 200 bash $d/demo.sh >/tmp/w/d1 2>&1); r1=$?
  echo "$i $r0/$r1"; [ $r0 = 0 ] || tail -4 /tmp/w/d0; [ $r1 != 0 ] || echo "   NOT DETECTED"
  [ $r1 != 0 ] && tail -1 /tmp/w/d1 | cut -c1-150
  rm -rf /tmp/scr_$i
done
