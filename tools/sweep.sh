#!/bin/bash
# Development tool: run checks with several seeds.  tools/sweep.sh "C01 C02" "1 2 3" [tier] [seconds]
cd "$(dirname "$0")/.."
for s in $2; do for c in $1; do
  out=$(VERIF_SEED=$s VRT_OUT=${VRT_OUT:-/tmp/sweep.out} timeout 900 python3-vt -B run.py $c --tier ${3:-quick} ${4:+--seconds $4} 2>&1); rc=$?
  echo "$c seed $s rc $rc $(echo "$out" | tail -1 | cut -c1-300)"
  [ $rc = 0 ] || echo "$out" | tail -25
done; done
