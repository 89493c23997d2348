#!/bin/bash
# extract.sh OUT.json  -- dump the MIR of /repo's current working tree
set -e
OUT=$(realpath -m "$1")
V=$(cd "$(dirname "$0")/.." && pwd)
B=${KVC_BUILD:-$V/build}
REPO=${KVC_REPO:-/repo}
mkdir -p "$B"
NT=nightly
SYS=$(rustc +$NT --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib:$LD_LIBRARY_PATH
if [ ! -x "$B/driver/debug/kvc-driver" ] || [ "$V/driver/src/main.rs" -nt "$B/driver/debug/kvc-driver" ]; then
  (cd "$V/driver" && CARGO_TARGET_DIR="$B/driver" cargo +$NT build --offline -q)
fi
export KVC_OUT=$OUT KVC_CRATE=k
# cargo must call the wrapper again for the crate itself, whatever it remembers
rm -f "$OUT"
rm -rf "$B/mir/debug/build/k" "$B/mir/debug/.fingerprint/"k-*
cd "$REPO"
dump() {
RUSTC_WORKSPACE_WRAPPER="$B/driver/debug/kvc-driver" CARGO_TARGET_DIR="$B/mir" \
  RUSTFLAGS="-Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=on -Awarnings" CARGO_INCREMENTAL=0 \
  cargo +$NT check --lib --offline -q
}
dump
if [ ! -s "$OUT" ]; then rm -rf "$B/mir"; dump; fi
test -s "$OUT"
