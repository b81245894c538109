#!/bin/bash
# build + run the repository tests
bash /opt/vp/build.sh >/tmp/vpb.log 2>&1 || { tail -20 /tmp/vpb.log; exit 1; }
grep -n "warning" /tmp/vpb.log | head
bash /opt/vp/test.sh /tmp/vpt.json >/tmp/vpt.log 2>&1
python3 -c "
import json
d=json.load(open('/tmp/vpt.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=[x for x in b['stable'] if x not in d['passed']]
print('TESTS', 'MISSING '+str(m) if m else 'ok', len(d['passed']))"
git -C /repo status --short | head -5
