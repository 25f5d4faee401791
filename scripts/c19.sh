#!/bin/bash
# C19: builds the monitors of the current tree under AddressSanitizer, ThreadSanitizer, plainly (for
# Valgrind) and for Miri, and runs them side by side
cd "$(dirname "$0")/.." || exit 2
. ./env.sh
id=$1; shift
t=$CARGO_TARGET_DIR
x=x86_64-unknown-linux-gnu
a=$t/asan/$x/debug
newer=nightly-x86_64-unknown-linux-gnu
supp=$a/tsan.supp
log=/tmp/vbuild-$id
# (a wrapper around the compiler, since not all build systems heed flags from the environment)
compiler() {
  mkdir -p "$t/bin"
  for c in clang clang++; do
    printf '#!/bin/bash\nexec %s -fsanitize=%s -fno-omit-frame-pointer "$@"\n' "$c" "$1" >"$t/bin/$1-$c.new" && chmod +x "$t/bin/$1-$c.new" && mv "$t/bin/$1-$c.new" "$t/bin/$1-$c"
  done
  export CC=$t/bin/$1-clang CXX=$t/bin/$1-clang++
}
asan() {
  compiler address
  export CARGO_TARGET_DIR=$t/asan RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes"
  (cd harness && cargo build --quiet --offline --target $x -p vffi -p vkis -p vpure) &&
  CARGO_TARGET_DIR=$t/capi cargo build --quiet --offline --target $x --manifest-path /repo/Cargo.toml -p rustsat-capi &&
  clang -g -O1 -DWITH_ASAN -fsanitize=address -fno-omit-frame-pointer -I /repo/capi harness/capi/driver.c "$t/capi/$x/debug/librustsat_capi.a" -lpthread -ldl -lm -o "$t/capi/driver"
}
tsan() {
  compiler thread
  export RUSTUP_TOOLCHAIN=$newer CARGO_TARGET_DIR=$t/tsan RUSTFLAGS="-Zsanitizer=thread -Cforce-frame-pointers=yes"
  cd harness && cargo build --quiet --offline -Zbuild-std --target $x -p vffi -p vkis
}
plain() {
  cd harness && cargo build --quiet --offline -p vffi -p vkis
}
miri() {
  export RUSTUP_TOOLCHAIN=$newer CARGO_TARGET_DIR=$t/miri MIRIFLAGS="-Zmiri-disable-isolation"
  cd harness && cargo miri run --quiet --offline -p vpure --bin vpure -- --list
}
(
  flock 9
  pids=
  for b in asan tsan plain miri; do
    ( $b ) >"$log-$b.log" 2>&1 & pids="$pids $!"
  done
  ok=0
  for p in $pids; do wait "$p" || ok=1; done
  exit $ok
) 9>/tmp/vbuild.lock || { echo "build for $id failed:" >&2; for b in asan tsan plain miri; do echo "== $b" >&2; grep -A20 "^error" "$log-$b.log" | tail -30 >&2; done; exit 2; }
# races that are listed as known findings
sed -n 's/^known: property=C19 sig=\(race:[^ ]*\) .*/\1/p' KNOWN_FINDINGS.txt >"$supp"
w() { printf '#!/bin/bash\n%s\n' "$2" >"$a/$1"; chmod +x "$a/$1"; }
ts="export TSAN_OPTIONS=halt_on_error=1:abort_on_error=0:exitcode=66:suppressions=$supp; exec"
w vrace "$ts $t/tsan/$x/debug/vffi \"\$@\""
w vracekis "$ts $t/tsan/$x/debug/vkis \"\$@\""
vg="exec valgrind -q --error-exitcode=99 --exit-on-first-error=yes --undef-value-errors=yes --leak-check=no"
w vgrind "$vg $t/debug/vffi \"\$@\""
w vgrindkis "$vg $t/debug/vkis \"\$@\""
w vmiri "export RUSTUP_TOOLCHAIN=$newer CARGO_TARGET_DIR=$t/miri MIRIFLAGS='-Zmiri-disable-isolation'; cd $PWD/harness && exec cargo miri run --quiet --offline -p vpure --bin vpure -- \"\$@\""
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:redzone=64:detect_stack_use_after_return=1
export VH_CAPI=$t/capi/driver VH_NOLIMIT=1
exec "$a/vffi" "$id" "$@"
