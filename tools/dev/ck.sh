#!/bin/bash
# ck.sh PID...: run registered quick checks
cd /verif; for p in "$@"; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p quick > /tmp/ck_$p.log 2>&1; echo "$p exit $? $(tail -1 /tmp/ck_$p.log | cut -c1-200)"; done
