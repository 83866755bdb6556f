#!/bin/bash
# runseeds.sh [ID...]: apply each planted change to /repo, run its property's check, undo. Prints caught/missed.
V="$(cd "$(dirname "$0")/.." && pwd)"
cd "$V"
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for i in "${ids[@]}"; do
    p=$(python3 -c "import json,sys; print(json.load(open('seeded/$i/meta.json'))['property'])")
    git -C /repo apply "$V/seeded/$i/patch.diff" || { echo "$i: patch does not apply"; continue; }
    out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash check.sh "$p" 2>/dev/null); rc=$?
    git -C /repo checkout -q -- .
    if [ $rc = 1 ] && grep -q "VIOLATION property=$p " <<<"$out"; then echo "$i: CAUGHT by $p: $(grep -m1 -A1 VIOLATION <<<"$out" | tail -1 | cut -c1-160)"; else echo "$i: MISSED by $p (rc=$rc): $(tail -2 <<<"$out")"; fi
done
