#!/bin/bash
# all checks once; prints the ones that are not quiet
cd "$(dirname "$0")/.."
for i in $(seq -w 1 22); do s=$(date +%s.%N); o=$(python3 check.py C$i "$@" 2>&1); r=$?; echo "C$i rc=$r $(echo "$o" | grep obligations | tail -1)"; [ $r = 0 ] || echo "$o" | tail -4; done
