#!/bin/bash
# Runs the claimed check against planted bugs in a scratch copy; usage: detect.sh [ids...]
cd "$(dirname "$0")/.."
for id in ${*:-$(ls seeded)}; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    rm -rf /tmp/detect.repo; cp -a /repo /tmp/detect.repo
    git -C /tmp/detect.repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
    for c in ${CHECKS:-$p}; do
        PXV_REPO=/tmp/detect.repo ./check.sh $c > /tmp/detect.out 2>&1; rc=$?
        echo "$id $c rc=$rc $(tail -1 /tmp/detect.out)"
    done
done
rm -rf /tmp/detect.repo
