#!/bin/bash
# rebuild and compare the repository's tests with the recorded baseline
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/t.json'))
miss=[x for x in b['stable'] if x not in t['passed']]
print('stable',len(b['stable']),'passed',len(t['passed']),'MISSING',miss)
P
