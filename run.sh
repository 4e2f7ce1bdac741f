#!/bin/bash
# run.sh PROPERTY [arguments of csvcheck]: rebuilds what the check needs from /repo's working tree and
# runs it, first built with debug assertions and overflow checks, and then without them.
# In the thorough tier, a coverage-guided search over the same generators and oracles follows.
# Exit 0: held; 1: violation; anything else: the check itself failed.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export CSV_VERIF="$here"
exes="$(bash "$here/build.sh" check "$1")" || {
    # The types which C13 derives for may be what doesn't compile: then the generated definitions tell
    # whether that is the fault of the derivation.
    [ "$1" = C13 ] && exe="$(bash "$here/build.sh" check C33)" && { "$exe" C13; [ $? = 1 ] && exit 1; }
    exit 3
}
for exe in $exes; do
    "$exe" "$@"; rc=$?
    [ $rc = 0 ] || exit $rc
done
tier="${VERIF_TIER:-quick}" seed="${VERIF_SEED:-1}" part=
args=("$@")
for ((i = 1; i < $#; i++)); do
    case "${args[i]}" in
        --tier) tier="${args[i + 1]:-}" ;;
        --seed) seed="${args[i + 1]:-}" ;;
        --replay | --only) part=1 ;;
    esac
done
if [ "$tier" = thorough ] && [ -z "$part" ] && [ "$1" != C30 ] && [ "$1" != C33 ] && [ "$1" != C34 ]; then
    exe="$(bash "$here/build.sh" fuzz "$1")" || exit 3
    "$exe" "$1" --fuzz --seed "$seed"; exit $?
fi
exit 0
