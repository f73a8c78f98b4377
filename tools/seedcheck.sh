#!/bin/bash
# seedcheck.sh ID...: confirms planted changes (build, stable tests, demo) and runs the property's check against each
for id in "$@"; do
 d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
 bash /opt/vp/build.sh >/tmp/sc.log 2>&1; (cd /repo && timeout 300 bash $d/demo.sh >/tmp/sc.demo0 2>&1); r0=$?
 git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
 timeout 600 bash /opt/vp/test.sh /tmp/sc.json >/tmp/sc.log 2>&1; rb=$?
 t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];r=json.load(open('/tmp/sc.json'));m=[x for x in b if x not in r['passed']];print(len(m),m[:3])")
 (cd /repo && timeout 300 bash $d/demo.sh >/tmp/sc.demo1 2>&1); r1=$?
 python3-vt checks/check.py $prop quick >/tmp/sc.check 2>&1; rc=$?
 git -C /repo checkout -q -- .
 echo "$id [$prop]: demo clean=$r0 patched=$r1; tests missing=$t; check rc=$rc $(grep VIOLATION /tmp/sc.check)"
 grep -h "^failed obl\|^FAIL" /tmp/sc.check | head -3 | cut -c1-220
done
bash /opt/vp/build.sh >/tmp/sc.log 2>&1
