#!/bin/bash
# demos only, in the scratch copy
for id in "$@"; do
D=$(mktemp -d); cp -r /verif/seeded/$id/. $D/; rm -f $D/*.diff $D/meta.json
cd /tmp/w/repo
bash $D/demo.sh > /tmp/seed/$id.d0 2>&1; a=$?
git apply /verif/seeded/$id/patch.diff || echo noapply
bash $D/demo.sh > /tmp/seed/$id.d1 2>&1; b=$?
git checkout -q -- .
echo "$id clean=$a patched=$b $(tail -1 /tmp/seed/$id.d0 | cut -c1-80) | $(tail -1 /tmp/seed/$id.d1 | cut -c1-100)"
/usr/bin/rm -rf "$D"
done
