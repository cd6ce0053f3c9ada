#!/bin/bash
# vr.sh UNIT [n]: run unit, terse errors
/tmp/run.sh $1 > /tmp/v/o.txt 2>&1; grep -A4 "^error" /tmp/v/o.txt | grep -v "^ *|$" | cut -c1-230 | head -${2:-50}; grep "VX-\|verification results" /tmp/v/o.txt | tail -3
grep -o "LOST:[^\"]*" /tmp/v/$1.json | cut -c1-200 | head
