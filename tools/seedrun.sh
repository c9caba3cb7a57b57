#!/bin/bash
# seedrun.sh [-q] ID...: for each planted change: demo on the unchanged tree, then with the patch: build, demo, tests, check. -q skips the tests.
Q=; [ "$1" = -q ] && { Q=1; shift; }
undo() { git -C /repo checkout -- .; }
trap undo EXIT
bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1 || { echo "unchanged tree does not build"; exit 2; }
for i in "$@"; do d=/verif/seeded/$i; (cd /repo && bash $d/demo.sh >/tmp/seed-$i.demo0 2>&1; echo $? >/tmp/seed-$i.rc0); done
for i in "$@"; do
  d=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$i: does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/seed-$i.build 2>&1; then
    (cd /repo && bash $d/demo.sh >/tmp/seed-$i.demo1 2>&1); r1=$?
    t=skipped
    if [ -z "$Q" ]; then bash /opt/vp/test.sh /tmp/seed-$i.json >/tmp/seed-$i.test 2>&1
      t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/seed-$i.json'))
m=[x for x in b['stable'] if x not in set(o['passed'])];print(len(m),'broken',m[:4])"); fi
    (cd /verif && VERIF_SEED=1 ./check $p >/tmp/seed-$i.check 2>&1); rc=$?
    echo "$i [$p]: demo $(cat /tmp/seed-$i.rc0)->$r1; tests: $t; check rc=$rc $(grep VIOLATION /tmp/seed-$i.check | tail -1)"
  else echo "$i: does not build"; fi
  undo
done
