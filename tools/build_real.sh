#!/bin/bash
# The real module, as users get it: /repo's crate compiled to wasm with its own
# dependencies and processed by wasm-bindgen. Used to replay counterexamples.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-1.98.0} CARGO_NET_OFFLINE=true
mkdir -p "$V/build"
T=$V/build/real
rm -rf "$T"/wasm32-unknown-unknown/release/.fingerprint/bq2cst-*
cargo build --release --offline --lib --target wasm32-unknown-unknown --target-dir "$T" --manifest-path /repo/Cargo.toml >"$V/build/real.log" 2>&1
/opt/vp/wbg/bin/wasm-bindgen --target nodejs --out-dir "$V/build/pkg" "$T/wasm32-unknown-unknown/release/bq2cst.wasm" >>"$V/build/real.log" 2>&1
