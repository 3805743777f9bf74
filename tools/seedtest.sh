#!/bin/bash
# usage: seedtest.sh <seed id> [--notest]   -- validates a planted bug against /repo (applied and undone) and runs its check
D=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
cd /repo
T=$(mktemp -d); cp "$D"/* $T/; rm -f $T/patch.diff $T/meta.json
bash $T/demo.sh >$T/o1 2>&1; A=$?
git apply "$D/patch.diff" || { echo "$1: patch does not apply"; exit 2; }
bash $T/demo.sh >$T/o2 2>&1; B=$?
R=skip
if [ "$2" != --notest ]; then
  bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILS"
  bash /opt/vp/test.sh $T/t.json >/dev/null 2>&1
  R=$(python3 -c "
import json
d=json.load(open('$T/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
s=b
for k in ('stable','passed','tests','stable_tests'):
    if isinstance(b,dict) and k in b: s=b[k];break
print('missing', [x for x in s if x not in d['passed']][:5])")
fi
/verif/run.sh $P > $T/c 2>&1; C=$?
echo "$1 [$P]: demo clean=$A patched=$B tests=$R check=$C $(grep -m1 VIOLATION $T/c | cut -c1-120)"
[ $A = 0 ] || tail -3 $T/o1
rm -r $T
