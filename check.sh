#!/bin/bash
export TZ=UTC
# check.sh <property> [quick|thorough]: rebuild from /repo's working tree, explore, write evidence.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
ID="${1:?property id}"
TIER="${2:-${VERIF_TIER:-quick}}"
./build.sh >"/tmp/verif-build.$$.log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then
  tail -60 "/tmp/verif-build.$$.log" >&2
  rm -f "/tmp/verif-build.$$.log"
  echo "build of the harness against /repo failed" >&2
  exit 2
fi
rm -f "/tmp/verif-build.$$.log"
exec ./target/release/mc run "$ID" "$TIER"
