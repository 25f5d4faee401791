#!/bin/bash
# builds main.rs (beside this file) against the repository in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2026-07-07-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
w=$(mktemp -d /tmp/seed-demo.XXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null
{
  printf '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
  if [ -f "$here/deps.toml" ]; then sed "s|@REPO@|$repo|g" "$here/deps.toml"; else printf 'rustsat = { path = "%s", features = ["optimization", "multiopt", "proof-logging", "compression", "serde"] }\n' "$repo"; fi
} > "$w/Cargo.toml"
cd "$w" || exit 3
CARGO_TARGET_DIR="$w/target" cargo build --offline --quiet >"$w/build.log" 2>&1 || { tail -30 "$w/build.log"; exit 3; }
timeout 100 "$w/target/debug/demo"
