#!/bin/bash
# all checks against refactored copies, 2 at a time (each uses up to 4 workers)
cd /verif
job() { k=$1; c=$2; out=/tmp/rfout_$k; mkdir -p $out
VRT_REPO=/tmp/rf_$k VRT_OUT=$out VRT_WORKERS=3 timeout 300 python3-vt -B run.py $c --tier quick > $out/$c.log 2>&1; rc=$?; echo "$k $c rc=$rc $(tail -1 $out/$c.log | cut -c1-150)"; }
export -f job
for k in "$@"; do for c in $(seq -w 1 23); do echo $k C$c; done; done | xargs -P 3 -L 1 bash -c 'job $0 $1'
