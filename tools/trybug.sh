#!/bin/bash
# tools/trybug.sh <id>...: apply to /repo, build+test, run the property's check, undo
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/trybug.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/trybug.json >>/tmp/trybug.log 2>&1
  t=$(python3 - <<P
import json
r=json.load(open('/tmp/trybug.json'))
B=json.load(open('/opt/vp/BASELINE.json')); print('tests-ok' if not r['failed'] and len(r['passed'])>=729 else 'TESTS-FAIL %s' % [x[:60] for x in r['failed']][:5])
P
)
  out=$(cd /verif && ./check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id build=$b $t check=$rc $(echo "$out" | grep VIOLATION)"; [ $rc = 1 ] || echo "$out" | head -5 | cut -c1-300
done
bash /opt/vp/build.sh >/dev/null 2>&1
