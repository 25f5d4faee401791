#!/bin/bash
# run.sh <property id> [engine flags]: builds the monitors against /repo's working tree and runs one check
cd "$(dirname "$0")" || exit 2
. ./env.sh
id=$1; shift
bin=$(awk -v id="$id" '$1==id{print $2}' scripts/checks.txt)
[ -n "$bin" ] || { echo "unknown property $id" >&2; exit 2; }
mkdir -p evidence replay
case $bin in
  *.sh|*.py) exec "scripts/$bin" "$id" "$@";;
esac
pkgs="-p $bin"
[ "$bin" = vffi ] && pkgs="-p vffi -p vkis"
(
  flock 9
  cd harness && cargo build --quiet --offline $pkgs >"/tmp/vbuild-$id.log" 2>&1 || { echo "build of $bin failed:" >&2; tail -40 "/tmp/vbuild-$id.log" >&2; exit 2; }
) 9>/tmp/vbuild.lock || exit 2
exec "$CARGO_TARGET_DIR/debug/$bin" "$id" "$@"
