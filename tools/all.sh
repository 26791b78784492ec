#!/bin/bash
# runs every check on /repo as it is (development aid)
cd /verif; for f in rules/C[0-9]*.py; do p=$(basename $f .py); (./check.sh $p quick > /tmp/all.$p 2>&1; echo "$? $(head -1 /tmp/all.$p | cut -c1-150)"; grep -m2 "^violated\|ANALYSIS" -A3 /tmp/all.$p | cut -c1-400) & [ $(jobs -r | wc -l) -ge 8 ] && wait -n; done; wait
