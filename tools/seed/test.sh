#!/bin/bash
# test.sh ID CHECK... : confirm a seed (build, tests, demo) and run checks
id=$1; shift
[ -z "$(git -C /repo status --porcelain)" ] || { echo repo dirty; exit 2; }
D=$(mktemp -d); cp -r /verif/seeded/$id/. $D/; rm -f $D/*.diff $D/meta.json
cd /repo
bash $D/demo.sh > /tmp/seed/$id.demo0 2>&1; a=$?
git apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; exit 2; }
bash $D/demo.sh > /tmp/seed/$id.demo1 2>&1; b=$?
t=skip
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh > /tmp/seed/$id.build 2>&1; bb=$?
bash /opt/vp/test.sh /tmp/seed/$id.json > /tmp/seed/$id.test 2>&1
t=$(python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/seed/$id.json'))
p=set(x if isinstance(x,str) else x['name'] for x in r['passed'])
m=b-p; print('tests-ok' if not m else 'TESTS-FAIL '+str(sorted(m)[:4]))
P
)
t="build=$bb $t"
fi
echo "$id: demo clean=$a patched=$b $t"
for c in "$@"; do
  ( cd /verif && timeout 900 python3 run.py $c --tier quick --seed 1 > /tmp/seed/$id.$c 2>&1; echo "   $c exit=$? $(grep -m1 '^  \[' /tmp/seed/$id.$c | cut -c1-160)" )
done
git -C /repo checkout -q -- .
/usr/bin/rm -rf "$D"
