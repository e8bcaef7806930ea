#!/bin/bash
# sweep.sh SECS PROPS...
S=$1; shift
for p in "$@"; do
  timeout 600 /verif/sim/target/release/simcheck check --property $p --secs $S --out /tmp/ev/$p.json --replays /tmp/rp ${SEED:+--seed $SEED} > /tmp/sw.$p 2>&1; c=$?
  echo "$p rc=$c $(tail -1 /tmp/sw.$p | cut -c1-200)"; [ $c != 0 ] && grep -v '^C' /tmp/sw.$p | cut -c1-400 | head -8
done
