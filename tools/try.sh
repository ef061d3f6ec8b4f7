#!/bin/bash
# try.sh ID...  : verify seeded bug(s) and run the property's check with it
for id in "$@"; do
D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo dirty; exit 1; }
bash $D/demo.sh > /tmp/w/demo0.log 2>&1; c0=$?
git apply $D/patch.diff || { echo "$id APPLY FAIL"; continue; }
bash /opt/vp/test.sh /tmp/w/t.json > /tmp/w/t.log 2>&1; t=$(tail -1 /tmp/w/t.log | head -c 60; grep -o "[0-9]* passed, [0-9]* failed" /tmp/w/t.log)
bash $D/demo.sh > /tmp/w/demo1.log 2>&1; c1=$?
r=-; if [ -z "$NOCHECK" ]; then (cd /verif && VERIF_SEED=${SEED:-1} python3 run.py $P > /tmp/w/try-$id.log 2>&1); r=$?; fi
git checkout -q -- . 
echo "$id prop=$P demo_clean=$c0 demo_bug=$c1 tests=[$t] check_rc=$r $(grep -c VIOLATION /tmp/w/try-$id.log 2>/dev/null) viol"
done
