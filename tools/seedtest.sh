#!/bin/bash
# seedtest.sh <id>... : build, test, demo and the property's check with the planted change applied to /repo, then undone
for id in "$@"; do
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ -n "$(git -C /repo status --short)" ]; then echo "/repo is not clean"; exit 1; fi
if [ -z "$NODEMO" ]; then (cd /repo; bash $d/demo.sh >/tmp/seed.demo0 2>&1); d0=$?; fi
git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/seed.build 2>&1; b=$?
bash /opt/vp/test.sh /tmp/o.json >/tmp/seed.test 2>&1; t=$(python3 /verif/tools/cmp.py)
(cd /repo; bash $d/demo.sh >/tmp/seed.demo1 2>&1); d1=$?
fi
for p in $prop $EXTRA; do
(cd /verif; ./check.py $p quick > /tmp/seed.check.$id.$p 2>&1); c=$?
echo "$id [$p]: build $b tests '$t' demo clean=$d0 patched=$d1 check=$c $(grep -m1 -A1 VIOLATION /tmp/seed.check.$id.$p | tail -1 | cut -c1-220)"
done
git -C /repo checkout -- .
done
