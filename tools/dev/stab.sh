#!/bin/bash
# stab.sh SEED UNIT : verify with another SMT seed
u=$2; cd /tmp/st
/verif/.target/extract/debug/vx /repo /verif/proofs/$u.vrs /tmp/st/${u}_$1.rs /tmp/st/${u}_$1.json >/dev/null 2>&1
mkdir -p d_$1_$u; cd d_$1_$u; timeout 800 verus --multiple-errors 10 --triggers-mode silent ../${u}_$1.rs --smt-option smt.random_seed=$1 > ../o_${u}_$1.txt 2>&1
echo "$u seed $1: $(grep 'verification results' ../o_${u}_$1.txt)"; grep -A3 "^error" ../o_${u}_$1.txt | grep -e "-->" | cut -c1-150
