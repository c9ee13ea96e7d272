#!/bin/bash
# cwd: the repository. Exits 0 when the property holds for the scenario in main.rs.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
work="$(mktemp -d)" || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here"/*.rs "$work/src/"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$work/Cargo.toml"
cp "$here/Cargo.lock" "$work/Cargo.lock"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS
cd "$work" || exit 3
cargo build --offline --locked @FLAGS@ >"$work/log" 2>&1 || { tail -n 30 "$work/log"; exit 3; }
timeout 120 "$CARGO_TARGET_DIR/@PROFILE@/demo"
