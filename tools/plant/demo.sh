#!/bin/bash
# Runs the program beside this file against the crates of the working directory.
# Exit 0: the property holds; otherwise it is broken.
set -u
repo="$PWD"
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src" && cp "$here/main.rs" "$tmp/src/main.rs" && cp "$repo/Cargo.lock" "$tmp/" || exit 2
cat >"$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
commit_verify = { path = "$repo/commit_verify", features = ["derive", "rand", "serde", "stl"] }
single_use_seals = { path = "$repo/single_use_seals", features = ["strict_encoding", "serde"] }
client_side_validation = { path = "$repo", features = ["derive", "rand", "serde", "stl"] }
amplify = { version = "~4.8.0", features = ["serde"] }
strict_encoding = "~2.8.1"
strict_types = "~2.8.2"
sha2 = "0.10.8"
ripemd = "0.1.3"
serde = { version = "1", features = ["derive"] }
serde_json = "1"
bincode = "1.3"
[profile.dev]
opt-level = 1
debug = false
T
cd "$tmp" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
profile="$(sed -n 's,^// profile: ,,p' "$here/main.rs")"
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
export CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$tmp/target}"
cargo run --quiet --offline $profile
