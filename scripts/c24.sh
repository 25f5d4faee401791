#!/bin/bash
# C24, C27: builds the command line tools of the current tree and the monitors, then runs the check
cd "$(dirname "$0")/.." || exit 2
. ./env.sh
id=$1; shift
t=$CARGO_TARGET_DIR/tools
log=/tmp/vbuild-$id.log
(
  flock 9
  set -e
  CARGO_TARGET_DIR=$t cargo build --quiet --offline --manifest-path /repo/Cargo.toml -p rustsat-tools --bins
  cd harness && cargo build --quiet --offline -p vpure
) 9>/tmp/vbuild.lock >"$log" 2>&1 || { echo "build for $id failed:" >&2; tail -40 "$log" >&2; exit 2; }
export VH_TOOLS=$t/debug VH_NOLIMIT=1
exec "$CARGO_TARGET_DIR/debug/vpure" "$id" "$@"
