#!/bin/bash
# seedrun.sh [id ...]: apply each planted change to /repo, run its property's quick check, undo.
V="$(cd "$(dirname "$0")/.." && pwd)"
[ $# -gt 0 ] || set -- $(ls "$V/seeded")
for s in "$@"; do
    p=$(python3 -c "import json;print(json.load(open('$V/seeded/$s/meta.json'))['property'])")
    git -C /repo apply "$V/seeded/$s/patch.diff" || { echo "$s does not apply"; continue; }
    t0=$(date +%s)
    o=$("$V/check.sh" "$p" quick 2>&1); rc=$?
    git -C /repo checkout -- .
    echo "$s $p rc=$rc $(( $(date +%s) - t0 ))s $(echo "$o" | grep -c VIOLATION) | $(echo "$o" | head -1 | cut -c1-200)"
done
