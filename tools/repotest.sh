#!/bin/bash
# rebuild + stable tests of /repo
bash /opt/vp/build.sh > /tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json > /tmp/tt.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/t.json'))
miss=b-set(t['passed'])
print("stable missing:", sorted(miss)[:10], len(t['passed']))
P
