#!/bin/bash
# Builds the driver (if needed) and dumps the MIR of the witness crate.
# usage: build.sh OUTDIR
set -e
V="$(cd "$(dirname "$0")" && pwd)"
OUT="${1:?}"
B="${AOCV_BUILD:-$V/build}"
mkdir -p "$B" "$OUT"
export PATH="/root/.cargo/bin:$PATH" HOME="${HOME:-/root}"
SR="$(rustc +nightly --print sysroot)"
export LD_LIBRARY_PATH="$SR/lib"
H="$(sha256sum "$V/driver/driver.rs" | cut -c1-16)"
DRV="$B/driver-$H"
if [ ! -x "$DRV" ]; then
  rustc +nightly -O "$V/driver/driver.rs" -o "$DRV.tmp.$$"
  mv "$DRV.tmp.$$" "$DRV"
fi
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTC_WRAPPER="$DRV" RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull -Awarnings" CARGO_TARGET_DIR="$B/target"
export AOCV_OUT="$OUT"
unset RUSTC_WORKSPACE_WRAPPER
# a copy of the witness crate, without the lines in AOCV_DROP (file:first-last ...)
W="$B/witness"
mkdir -p "$W"
cp -r "$V/witness/." "$W/"
[ -n "$AOCV_REPO" ] && sed -i "s|path = \"/repo\"|path = \"$AOCV_REPO\"|" "$W/Cargo.toml"      # (for experiments: another tree than /repo)
for d in $AOCV_DROP; do
  L="${d#*:}"
  sed -i "${L%-*},${L#*-}s/.*//" "$W/src/${d%%:*}"
done
cd "$W"
touch src/lib.rs
rm -f "$OUT/witness.json" "$OUT/items.json"
# force aoc_parse itself through the driver as well
rm -rf "$B/target/debug/.fingerprint"/aoc-parse-* "$B/target/debug/.fingerprint"/witness-* "$B/target/debug/build/aoc-parse" "$B/target/debug/build/witness"
# AOCV_ONLY: the witness modules to build (or none)
F=""
[ -n "$AOCV_ONLY" ] && F="--no-default-features"
[ -n "$AOCV_ONLY" ] && [ "$AOCV_ONLY" != none ] && F="$F --features $AOCV_ONLY"
cargo +nightly check --offline $F 2>&1
