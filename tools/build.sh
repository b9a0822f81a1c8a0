#!/bin/bash
# Builds what a check needs: the engine, and the module it executes symbolically
# (the crate in /repo's current working tree linked by /verif/harness).
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$V/build"
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-1.98.0} CARGO_NET_OFFLINE=true
( cd "$V/engine" && cargo build --release --offline >"$V/build/engine.log" 2>&1 ) &
E1=$!
(
  # mtimes of the working tree are not to be trusted
  rm -rf "$V"/build/t/wasm32-unknown-unknown/release/.fingerprint/bq2cst-* "$V"/build/t/wasm32-unknown-unknown/release/.fingerprint/harness-*
  rm -f "$V/build/t/wasm32-unknown-unknown/release/harness.wasm"
  cd "$V/harness" && cargo build --release --offline --target wasm32-unknown-unknown --target-dir "$V/build/t" >"$V/build/harness.log" 2>&1
) &
E2=$!
R=0
wait $E1 || { R=1; tail -30 "$V/build/engine.log" >&2; }
wait $E2 || { R=1; tail -30 "$V/build/harness.log" >&2; }
exit $R
