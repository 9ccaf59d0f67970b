#!/bin/bash
# seedtest.sh ID [nocheck]: confirms a planted bug on /repo: applies, tests pass, demo fails, check reports; then undoes it
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 9
git diff --quiet || { echo "repo dirty"; exit 9; }
bash /opt/vp/build.sh >/dev/null 2>&1
bash $d/demo.sh >/tmp/demo.out 2>&1; a=$?
git apply $d/patch.diff || exit 8
bash /opt/vp/test.sh /tmp/o.json >/tmp/test.out 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/o.json'))
print('tests', 'OK' if not set(b)-set(o['passed']) else 'FAIL %s' % (set(b)-set(o['passed'])))
P
bash $d/demo.sh >/tmp/demo.out2 2>&1; b=$?
echo "$id demo clean=$a patched=$b ($(tail -1 /tmp/demo.out2))"
if [ "$2" != nocheck ]; then (cd /verif; python3 tools/vc.py run $prop 2>&1 | grep -E "VIOLATION|KNOWN|failed|^C[0-9]+:|extraction" | cut -c1-200); fi
git checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
