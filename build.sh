#!/bin/bash
# build.sh check ID | fuzz ID | probe | derive | tool | all: builds what the check needs, or the probe, or everything, against the current working tree of /repo. The
# crates of /repo are rebuilt whenever the content of the sources differs from that of the previous
# build (modification times are not trusted).
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
what="${1:-all}"
state="$here/.build"
mkdir -p "$state"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
sum() {
    # everything a build can read: sources, manifests, and the files they include
    (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 |
        LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}
# refresh NAME TARGET: forgets what was built from other sources. Removing cargo's fingerprints of the
# crates of /repo makes it build them and what depends on them again.
refresh() {
    local name="$1" tdir="$2" f
    sum="$(sum)"
    if [ "$(cat "$state/$name.stamp" 2>/dev/null)" != "$sum" ] || [ -n "${CSV_FORCE:-}" ]; then
        rm -f "$state/$name.stamp"
        for f in "$tdir"/*/.fingerprint/{commit_verify,commit_encoding_derive,single_use_seals,client_side_validation}-*; do
            [ -e "$f" ] && rm -rf "$f"
        done
    fi
}
# build_harness PROFILE MODULE...: one program for each of the modules of checks. Profiles: "dev" has
# debug assertions and overflow checks, "unchecked" doesn't.
build_harness() {
    local profile="$1" dir="$here/harness" m out
    local tdir="$here/harness/target" bin=debug suffix=
    [ "$profile" = unchecked ] && { tdir="$here/harness/target-unchecked"; bin=unchecked; suffix=-unchecked; }
    shift
    exec 9>"$state/harness$suffix.lock"; flock 9
    refresh "harness$suffix" "$tdir"
    for m in "$@"; do
        out="$state/csvcheck-$m$suffix"
        (cd "$dir" && cargo build --quiet --offline --profile "$profile" --target-dir "$tdir" --no-default-features --features "$m") 2>"$state/harness$suffix.log" || {
            cat "$state/harness$suffix.log" >&2; echo "build of the harness ($m, $profile) failed" >&2; return 3; }
        cmp -s "$tdir/$bin/csvcheck" "$out" || { cp -f "$tdir/$bin/csvcheck" "$out.new" && mv -f "$out.new" "$out"; } || return 3
    done
    echo "$sum" >"$state/harness$suffix.stamp"
    flock -u 9
}
# build_fuzz MODULE: the program of the coverage-guided search
build_fuzz() {
    local dir="$here/fuzz" tdir="$here/fuzz/target" m="$1" out="$state/csvcheck-$1-fuzz" lib
    for lib in "$(clang -print-file-name=libclang_rt.fuzzer_no_main-x86_64.a 2>/dev/null)" \
        /usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a; do
        [ -f "$lib" ] && break
    done
    [ -f "$lib" ] || { echo "libFuzzer not found" >&2; return 3; }
    exec 7>"$state/fuzz.lock"; flock 7
    if [ "$(cat "$state/proptest/patched" 2>/dev/null)" != "$(sha256sum <"$here/fuzz/proptest.patch")" ]; then
        rm -rf "$state/proptest"
        (cd "$dir/../harness" && cargo fetch --quiet --offline)
        cp -r "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/proptest-1.12.0 "$state/proptest" &&
            patch -s -d "$state/proptest" -p1 <"$here/fuzz/proptest.patch" || return 3
        sha256sum <"$here/fuzz/proptest.patch" >"$state/proptest/patched"
    fi
    refresh fuzz "$tdir"
    (cd "$dir" && CSV_LIBFUZZER="$lib" RUSTC_WRAPPER="$here/tools/fuzz-rustc.sh" cargo build --quiet --offline \
        --target-dir "$tdir" --features "$m") 2>"$state/fuzz.log" || {
        cat "$state/fuzz.log" >&2; echo "build of the coverage-guided search ($m) failed" >&2; return 3; }
    cmp -s "$tdir/debug/csvcheck" "$out" || { cp -f "$tdir/debug/csvcheck" "$out.new" && mv -f "$out.new" "$out"; } || return 3
    echo "$sum" >"$state/fuzz.stamp"
    flock -u 7
}
# The configurations which are compared by C30 (name:features)
CONFIGS="core: core-serde:serde bare:csv default:csv,derive all:csv,derive,serde,rand,stl serde:csv,serde rand:csv,rand stl:csv,stl"
build_probe() {
    local dir="$here/probe" tdir="$here/probe/target" c p flag out
    exec 8>"$state/probe.lock"; flock 8
    refresh probe "$tdir"
    mkdir -p "$state/probe"
    for c in $CONFIGS; do
        for p in debug release; do
            flag=; [ $p = release ] && flag=--release
            out="$state/probe/${c%%:*}-$p"
            (cd "$dir" && cargo build --quiet --offline $flag --target-dir "$tdir" --features "${c#*:}") 2>"$state/probe.log" || {
                cat "$state/probe.log" >&2; echo "build of the probe ($c, $p) failed" >&2; return 3; }
            cmp -s "$tdir/$p/csvprobe" "$out" || { cp -f "$tdir/$p/csvprobe" "$out.new" && mv -f "$out.new" "$out"; } || return 3
        done
    done
    echo "$sum" >"$state/probe.stamp"
    flock -u 8
}
# build_derive: what the generated programs of C33 are linked with; how to is left in derive.externs
build_derive() {
    local dir="$here/derive" tdir="$here/derive/target" f
    exec 6>"$state/derive.lock"; flock 6
    refresh derive "$tdir"
    for f in "$tdir"/*/.fingerprint/csv-derive-*; do [ -e "$f" ] && rm -rf "$f"; done
    (cd "$dir" && CSV_EXTERNS="$state/derive.externs.new" RUSTC_WORKSPACE_WRAPPER="$here/tools/derive-rustc.sh" \
        cargo build --quiet --offline --target-dir "$tdir") 2>"$state/derive.log" || {
        cat "$state/derive.log" >&2; echo "build of the libraries for derivation failed" >&2; return 3; }
    mv -f "$state/derive.externs.new" "$state/derive.externs" || return 3
    echo "$sum" >"$state/derive.stamp"
    flock -u 6
}
# build_tool: the generator of the published files, as a user builds it
build_tool() {
    local tdir="$here/.build/tool"
    exec 5>"$state/tool.lock"; flock 5
    refresh tool "$tdir"
    (cd "$here" && CARGO_PROFILE_DEV_DEBUG=false CARGO_INCREMENTAL=0 cargo build --quiet --offline --locked --manifest-path /repo/Cargo.toml \
        -p commit_verify --bin commit-stl --features stl --target-dir "$tdir") 2>"$state/tool.log" || {
        cat "$state/tool.log" >&2; echo "build of the generator failed" >&2; return 3; }
    cmp -s "$tdir/debug/commit-stl" "$state/commit-stl" || { cp -f "$tdir/debug/commit-stl" "$state/commit-stl.new" && mv -f "$state/commit-stl.new" "$state/commit-stl"; } || return 3
    echo "$sum" >"$state/tool.stamp"
    flock -u 5
}
modules="$here/harness/modules"
case "$what" in
    check)
        module="$(awk -v id="$2" '$1 == id { print $2 }' "$modules")"
        [ -n "$module" ] || { echo "unknown property $2" >&2; exit 2; }
        if [ "$2" = C30 ]; then
            build_harness dev "$module" || exit 3
            build_probe || exit 3
            echo "$state/csvcheck-$module"
        elif [ "$2" = C33 ]; then
            build_harness dev "$module" & other=$!
            build_derive || exit 3
            wait $other || exit 3
            echo "$state/csvcheck-$module"
        elif [ "$2" = C34 ]; then
            build_harness dev "$module" & other=$!
            build_tool || exit 3
            wait $other || exit 3
            echo "$state/csvcheck-$module"
        else
            build_harness unchecked "$module" & other=$!
            build_harness dev "$module" || exit 3
            wait $other || exit 3
            echo "$state/csvcheck-$module"
            echo "$state/csvcheck-$module-unchecked"
        fi ;;
    fuzz)
        module="$(awk -v id="$2" '$1 == id { print $2 }' "$modules")"
        [ -n "$module" ] || { echo "unknown property $2" >&2; exit 2; }
        build_fuzz "$module" || exit 3
        echo "$state/csvcheck-$module-fuzz" ;;
    probe) build_probe || exit 3 ;;
    derive) build_derive || exit 3 ;;
    tool) build_tool || exit 3 ;;
    all)
        build_harness unchecked $(awk '$1 != "C30" && $1 != "C33" && $1 != "C34" { print $2 }' "$modules" | sort -u) & other=$!
        build_harness dev $(awk '{ print $2 }' "$modules" | sort -u) || exit 3
        wait $other || exit 3
        build_probe || exit 3
        build_derive || exit 3
        build_tool || exit 3 ;;
    *) echo "usage: build.sh check ID | fuzz ID | probe | derive | tool | all" >&2; exit 2 ;;
esac
