#!/bin/bash
# rebuild + stable tests
bash /opt/vp/build.sh >${RTD:-/tmp}/rt.log 2>&1 || { echo BUILD FAIL; tail -20 ${RTD:-/tmp}/rt.log; exit 1; }
bash /opt/vp/test.sh ${RTD:-/tmp}/o.json >/dev/null 2>&1
python3 - <<'P'
import json
o=json.load(open(__import__('os').environ.get('RTD','/tmp')+'/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=[t for t in b['stable'] if t not in o['passed']]
print('passed',len(o['passed']),'missing stable',miss)
P
