#!/bin/bash
# build /repo, run its tests, and list stable tests that do not pass
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'P'
import json
d=json.load(open('/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print(len(d['passed']),'passed; failed:',d['failed'],'; stable missing:',[x for x in b['stable'] if x not in d['passed']])
P
