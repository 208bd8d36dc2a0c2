#!/bin/bash
# catch.sh [ID...]: runs the check of each planted bug's property with the bug
# applied to /repo (development tool; leaves /repo as it was)
cd /verif/seeded || exit 1
[ $# = 0 ] && set -- *
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
pgrep -f /opt/vcheck >/dev/null && { echo "vcheck is running"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for b in "$@"; do
    p=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")
    git -C /repo apply "/verif/seeded/$b/patch.diff" || continue
    s=$(date +%s)
    (cd /verif; VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./check.sh "$p" >/tmp/catch.out 2>&1); rc=$?
    git -C /repo checkout -q -- .
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " /tmp/catch.out; then r=caught; else r="MISSED rc=$rc"; fi
    echo "$b $p $r $(( $(date +%s) - s ))s $(grep -m1 -A3 '^VIOLATION' /tmp/catch.out | tr '\n' ' ' | cut -c1-160)"
done
