#!/bin/bash
# Builds main.rs (beside this file) against the repository in the current directory and runs it:
# exit 0 when the behaviour is right, nonzero otherwise. All scratch files live in a temporary directory.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
. /opt/vp/env.sh
work="$(mktemp -d)" || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" && cp "$here"/*.rs "$work/src/" || exit 3
cat > "$work/Cargo.toml" <<EOF
[package]
name = "seed-demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
rawler = { path = "$repo/rawler" }
embedftp = { path = "$repo/embedftp" }
tokio = { version = "1", features = ["full"] }
md5 = "0.8"
EOF
cp "$repo/Cargo.lock" "$work/Cargo.lock"
CARGO_TARGET_DIR="$repo/target/demo" cargo build --offline -q --manifest-path "$work/Cargo.toml" || exit 3
cp "$repo/target/demo/debug/seed-demo" "$work/demo" || exit 3
cd "$work" && timeout 120 ./demo
