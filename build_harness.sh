#!/bin/bash
# Builds the engine, and the harness crate (with /repo's current tree) to native code + whole-program bitcode.
# usage: build_harness.sh [OUTDIR [FEATURE]]   (FEATURE: only that property's harnesses)
set -e
V=$(cd "$(dirname "$0")" && pwd); OUT=${1:-$V/build}
FEAT=(); [ -z "$2" ] || FEAT=(--no-default-features --features "$2")
mkdir -p "$OUT/tmp"
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0 TMPDIR="$OUT/tmp"
( make -s -j4 -C "$V/engine" OUT="$OUT" ) > "$OUT/engine.log" 2>&1 & EP=$!
gcc -O1 -c "$V/harness/rt/vp_rt.c" -o "$OUT/vp_rt.o" && rm -f "$OUT/libvprt.a" && ar cr "$OUT/libvprt.a" "$OUT/vp_rt.o"
export RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp -C save-temps -L native=$OUT"
export CARGO_TARGET_DIR="$OUT/target"
cd "$V/harness"
D="$OUT/target/release/deps"
# stale bitcode of an earlier build must not be picked up
find "$OUT/target" -name 'vph-*' -type f -delete 2>/dev/null || true
touch src/main.rs
cargo build --offline --release --quiet "${FEAT[@]}" > "$OUT/cargo.log" 2>&1 || { grep -A12 '^error' "$OUT/cargo.log" >&2; exit 1; }
wait $EP || { cat "$OUT/engine.log" >&2; exit 1; }
ST=$(ls "$D"/vph-*.lto.after-restriction.bc 2>/dev/null | head -1)
BC="${ST%.lto.after-restriction.bc}.bc"
[ -n "$ST" ] && [ -f "$BC" ] || { echo "no bitcode" >&2; exit 1; }
cp -f "$BC" "$OUT/vph.bc"; cp -f "$OUT/target/release/vph" "$OUT/vph"
find "$D" -name '*.bc' -delete
rm -rf "$OUT/tmp"
