#!/bin/bash
# run.sh unit [verus args]
u=$1; shift
/verif/.target/extract/debug/vx /repo /verif/proofs/$u.vrs /tmp/v/$u.rs /tmp/v/$u.json && cd /tmp/v && verus --multiple-errors 10 --triggers-mode silent $u.rs "$@" 2>&1
