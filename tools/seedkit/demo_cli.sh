#!/bin/bash
# Builds the dnglab binary of the repository in the current directory and runs demo.py (beside this file) with it:
# exit 0 when the behaviour is right, nonzero otherwise. All scratch files live in a temporary directory.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
. /opt/vp/env.sh
work="$(mktemp -d)" || exit 3
trap 'rm -rf "$work"' EXIT
cargo build --offline -q -p dnglab || exit 3
cp "$repo/target/debug/dnglab" "$work/dnglab" || exit 3
cd "$work" && mkdir scratch && timeout 200 python3 "$here/demo.py" "$work/dnglab" "$work/scratch"
