#!/bin/bash
# run /repo's stable tests, print the ones that fail
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'PY'
import json
o=json.load(open('/tmp/o.json'))['passed']; b=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=[x for x in b if x not in o]
print('FAILING' if m else 'all stable tests pass', m)
PY
