#!/bin/bash
# usage: tryseed.sh ID [CHECK...]: confirms a planted bug (demo, stable tests) and runs checks against it
id=$1; shift
d=/verif/seeded/$id
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "dirty"; exit 1; }
bash $d/demo.sh > /tmp/demo0.log 2>&1; a=$?
git apply $d/patch.diff || exit 1
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || echo "BUILD FAILED"
bash $d/demo.sh > /tmp/demo1.log 2>&1; b=$?
n=$(for i in 1; do bash /opt/vp/test.sh /tmp/t.json > /dev/null 2>&1; python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/t.json'))
st=set(b.get('stable') or b.get('passed') or b['tests'])
print(len(st-set(r['passed'])))
"; done)
echo "$id: demo clean=$a patched=$b missing-tests=$n"
for c in "$@"; do timeout 600 /verif/bin/wwrstatic $c 2>&1 | grep -E "^violation|^VIOLATION|held" | cut -c1-200 | head -4; done
git checkout -q -- .
