#!/bin/bash
# Run in the repository's root. Builds the demonstration against it in a scratch folder: 0 = behaves, else broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here"/*.rs "$d/src/" || exit 2
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
knx-ip-client = { path = "$repo" }
tokio = { version = "1", features = ["full", "test-util"] }
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d" || exit 2
unset RUSTFLAGS
CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet 2>"$d/log" || { grep -E '^error' -A8 "$d/log"; exit 3; }
timeout 120 "$d/target/debug/demo"
