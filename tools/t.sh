#!/bin/bash
# build /repo and run its stable tests, one line of output
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
bad=[t for t in b['stable'] if t not in o['passed']]
print(len(o['passed']),'passed; stable failing:',bad)
P
