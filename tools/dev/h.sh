#!/bin/bash
mkdir -p /tmp/hz; cd /tmp/hz
for p in "$@"; do s=$(date +%s.%N); timeout 500 /verif/.target/harness/debug/vharness $p ${TIER:-quick} ${SEED:-1} o_$p.json >/dev/null 2>/tmp/hz/err_$p; rc=$?; python3 - $p $s $rc <<'P'
import json,sys,time
try:
  j=json.load(open('/tmp/hz/o_%s.json'%sys.argv[1])); print(sys.argv[1],'rc',sys.argv[3],'%.1fs'%(time.time()-float(sys.argv[2])),j['evaluations'],j['distinct'],'known',j['known_hits'],str(j['failure'])[:900])
except Exception as e: print(sys.argv[1],'rc',sys.argv[3],e)
P
done
