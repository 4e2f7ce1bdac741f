#!/bin/bash
# clone.sh DIR: a relocated copy of /repo (as committed) and of the machinery, for running checks without touching /repo
# clone.sh DIR bugs ID...: runs the checks of the planted bugs there     clone.sh DIR seeds N...: runs all checks there
set -u
d="$1"; shift
if [ ! -d "$d" ]; then
    mkdir -p "$d/v" && git clone -q /repo "$d/repo" || exit 1
    [ -n "${PATCH:-}" ] && { git -C "$d/repo" apply "$PATCH" && git -C "$d/repo" -c user.email=a -c user.name=a commit -qam patch || exit 1; }
    cd /verif && cp -a build.sh run.sh setup.sh known_findings.json tools harness fuzz probe derive "$d/v/" || exit 1
    rm -rf "$d/v/fuzz/target"
    grep -rl '/repo' "$d/v" --exclude-dir=target --exclude-dir=target-unchecked | xargs sed -i "s#/repo\b#$d/repo#g"
fi
# sources of the machinery as they are now
if [ -n "${SYNC:-}" ]; then
    (cd /verif && find harness/src harness/modules harness/Cargo.toml derive/src derive/Cargo.toml probe/src probe/Cargo.toml run.sh build.sh known_findings.json tools -type f) | while read -r f; do
        sed "s#/repo\b#$d/repo#g" "/verif/$f" >"$d/tmp"; cmp -s "$d/tmp" "$d/v/$f" || cp "$d/tmp" "$d/v/$f"
    done
fi
cmd="${1:-}"; [ -n "$cmd" ] && shift
cd "$d"
case "$cmd" in
    bugs)
        for b in "$@"; do
            git -C "$d/repo" checkout -q -- .
            p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
            git -C "$d/repo" apply "/verif/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
            s=$(date +%s)
            out=$(VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 1200 nice -n 19 bash "$d/v/run.sh" "$p" 2>&1); rc=$?
            if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then r=CAUGHT; else r="MISSED rc=$rc"; fi
            echo "$b $p $r $(( $(date +%s) - s ))s :: $(grep -v '^VIOLATION' <<<"$out" | tail -3 | tr '\n' ' ' | cut -c1-300)"
            git -C "$d/repo" checkout -q -- .
        done ;;
    seeds)
        for n in "$@"; do
            for i in ${IDS:-$(awk '{print $1}' "$d/v/harness/modules" | sort -u)}; do
                s=$(date +%s); out=$(VERIF_SEED=$n VERIF_TIER=quick nice -n 19 bash "$d/v/run.sh" $i 2>&1); rc=$?
                echo "$n $i rc=$rc $(( $(date +%s)-s ))s $(grep -v '^$' <<<"$out" | tail -2 | cut -c1-200 | tr '\n' ' ')"
            done
        done ;;
esac
