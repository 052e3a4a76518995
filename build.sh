#!/bin/bash
# Builds the explorer and the real dnglab binary from /repo's working tree into /verif/target.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$PWD/target" CARGO_INCREMENTAL=0
mkdir -p target && gcc -O1 -w -shared -fPIC -o target/shim.so.$$ shim/shim.c -ldl && mv target/shim.so.$$ target/shim.so || exit 2
cd mc && exec cargo build --release --offline --locked
