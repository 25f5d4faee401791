#!/bin/bash
# C20: builds the C interface of the current tree with AddressSanitizer, the C program calling it and
# the monitors, then runs the check
cd "$(dirname "$0")/.." || exit 2
. ./env.sh
id=$1; shift
t=$CARGO_TARGET_DIR/capi
log=/tmp/vbuild-$id.log
(
  flock 9
  set -e
  CARGO_TARGET_DIR=$t RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes" cargo build --quiet --offline --target x86_64-unknown-linux-gnu --manifest-path /repo/Cargo.toml -p rustsat-capi
  clang -g -O1 -Wall -Wextra -Werror -DWITH_ASAN -fsanitize=address -fno-omit-frame-pointer -I /repo/capi harness/capi/driver.c "$t/x86_64-unknown-linux-gnu/debug/librustsat_capi.a" -lpthread -ldl -lm -o "$t/driver"
  cd harness && cargo build --quiet --offline -p vpure
) 9>/tmp/vbuild.lock >"$log" 2>&1 || { echo "build for $id failed:" >&2; tail -40 "$log" >&2; exit 2; }
export VH_CAPI=$t/driver VH_NOLIMIT=1
exec "$CARGO_TARGET_DIR/debug/vpure" "$id" "$@"
