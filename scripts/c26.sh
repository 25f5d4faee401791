#!/bin/bash
# C26: builds the Python module of the current tree and the monitors, then runs the check
cd "$(dirname "$0")/.." || exit 2
. ./env.sh
id=$1; shift
t=$CARGO_TARGET_DIR/py
log=/tmp/vbuild-$id.log
(
  flock 9
  set -e
  CARGO_TARGET_DIR=$t cargo build --quiet --offline --manifest-path /repo/Cargo.toml -p rustsat-pyapi
  rm -rf "$t/pkg"
  mkdir -p "$t/pkg"
  cp -r /repo/pyapi/python/rustsat "$t/pkg/rustsat"
  cp "$t/debug/librustsat_pyapi.so" "$t/pkg/rustsat/rustsat.abi3.so"
  cd harness && cargo build --quiet --offline -p vpure
) 9>/tmp/vbuild.lock >"$log" 2>&1 || { echo "build for $id failed:" >&2; tail -40 "$log" >&2; exit 2; }
export VH_PY=$t/pkg VH_PYDRV=$PWD/harness/pure/py/driver.py VH_NOLIMIT=1
exec "$CARGO_TARGET_DIR/debug/vpure" "$id" "$@"
