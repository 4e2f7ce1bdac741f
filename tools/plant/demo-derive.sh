#!/bin/bash
# main.rs has to compile and to run; each of the wrong*.rs beside it must be refused by the compiler.
# A program whose first line is `// library: NAME` has the library under that name only.
set -u
repo="$PWD"
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
export CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$tmp/target}"
prepare() {
    rm -rf "$tmp/src" && mkdir "$tmp/src" && cp "$1" "$tmp/src/main.rs" && cp "$repo/Cargo.lock" "$tmp/" || exit 2
    lib="$(sed -n '1s,^// library: ,,p' "$1")"
    cat >"$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
${lib:-commit_verify} = { package = "commit_verify", path = "$repo/commit_verify", features = ["derive"] }
amplify = { version = "~4.8.0" }
strict_encoding = "~2.8.1"
[profile.dev]
debug = false
T
}
cd "$tmp" || exit 2
prepare "$here/main.rs"
cargo run --quiet --offline || { echo "the program does not build or does not run"; exit 1; }
for w in "$here"/wrong*.rs; do
    [ -e "$w" ] || continue
    prepare "$w"
    if cargo check --quiet --offline 2>"$tmp/err"; then
        echo "$(basename "$w") is accepted"
        exit 1
    fi
    grep -q '^error' "$tmp/err" || { cat "$tmp/err"; exit 2; }
done
exit 0
