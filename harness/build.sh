#!/bin/bash
# build.sh PROPERTY(lowercase) OUTDIR : builds the harness of one property against /repo's current
# source, as LLVM IR (OUTDIR/vh.ll) for the symbolic engine and natively (OUTDIR/vh) for replays
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
mkdir -p "$2"
# the crates both builds share are compiled in one target directory per kind
(
  LL="$PWD/target/ir/$1.ll"
  [ -s "$LL" ] || rm -rf target/ir/release/.fingerprint/vh-*
  cargo +stable rustc --release -q --locked --target-dir target/ir --features "$1" -- --emit=llvm-ir="$LL" -Awarnings \
    -C llvm-args=-inline-threshold=30 -C no-vectorize-loops -C no-vectorize-slp \
    -C link-arg=-Wl,--unresolved-symbols=ignore-all
  cp "$LL" "$2/vh.ll"
) >"$2/build-ir.log" 2>&1 &
A=$!
(
  cargo +stable build -q --locked --profile native --target-dir target/native --features "native,$1"
  cp target/native/native/vh "$2/vh"
) >"$2/build-native.log" 2>&1 &
B=$!
R=0
wait $A || { R=1; cat "$2/build-ir.log"; }
wait $B || { R=1; cat "$2/build-native.log"; }
exit $R
