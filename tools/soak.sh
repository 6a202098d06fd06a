#!/bin/bash
# Runs every check with many seeds; prints only alarms. usage: soak.sh FROM TO [IDS...]
cd "$(dirname "$0")/.."
a=$1; b=$2; shift 2
ids=${*:-$(ls pxv/checks/c[0-9]*.py | sed 's/.*\/c\(.*\)\.py/C\1/')}
for s in $(seq $a $b); do for c in $ids; do
    VERIF_SEED=$s ./check.sh $c ${TIER:-quick} > /tmp/soak.$$ 2>&1; rc=$?
    [ $rc = 0 ] || { echo "== $c seed $s rc $rc"; tail -60 /tmp/soak.$$; }
done; done
rm -f /tmp/soak.$$
echo "soak done"
