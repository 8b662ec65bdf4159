#!/bin/bash
# developer helper: build /repo, run its tests, compare with the stable list
bash /opt/vp/build.sh >/tmp/retest.build 2>&1 || { tail -20 /tmp/retest.build; exit 1; }
bash /opt/vp/test.sh /tmp/retest.json >/tmp/retest.out 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/retest.json'))
print('stable', len(b), 'missing', sorted(b-set(o['passed'])), 'failed', o['failed'])
P
