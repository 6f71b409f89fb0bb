#!/bin/bash
# tools/seedtest.sh ID... : confirm planted bugs against /repo, and show what the check says
for id in "$@"; do
D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
S=$(mktemp -d /tmp/seedXXXXXX); cp -a $D/. $S/; rm -f $S/*.diff $S/meta.json
cd /repo; git diff --quiet || { echo "/repo dirty"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $S/demo.sh >$S/out0 2>&1; a=$?
git apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
bash /opt/vp/test.sh $S/o.json >$S/outb 2>&1
n=$(python3 -c "import json;o=set(json.load(open('$S/o.json'))['passed']);b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);print(len(b-o))")
timeout 300 bash $S/demo.sh >$S/out1 2>&1; b=$?
(cd /verif; python3 check.py $P > $S/outc 2>&1); c=$?
git checkout -q -- .; 
echo "$id ($P): demo clean=$a patched=$b, stable tests failing=$n, check exit=$c"; [ $a = 0 ] || tail -5 $S/out0; [ $b != 0 ] || tail -5 $S/out1; grep -v VIOLATION $S/outc | tail -2 | cut -c1-250
rm -rf "$S"
done
bash /opt/vp/build.sh >/dev/null 2>&1
