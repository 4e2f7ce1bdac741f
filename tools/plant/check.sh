#!/bin/bash
# check.sh ID...: applies each planted bug to /repo, runs the check of its property (and any in $ALSO), and undoes it
cd /verif
for b in "$@"; do
    d=/verif/seeded/$b
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    [ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "repo not clean"; exit 1; }
    git -C /repo apply "$d/patch.diff" || { echo "$b: does not apply"; continue; }
    for c in $p ${ALSO:-}; do
        s=$(date +%s)
        out=$(VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 bash run.sh "$c" 2>&1); rc=$?
        if [ $rc = 1 ] && grep -q "^VIOLATION property=$c " <<<"$out"; then r=CAUGHT; else r="MISSED rc=$rc"; fi
        echo "$b $c $r $(( $(date +%s) - s ))s :: $(grep -v '^VIOLATION' <<<"$out" | tail -3 | tr '\n' ' ' | cut -c1-300)"
    done
    git -C /repo checkout -q -- .
done
