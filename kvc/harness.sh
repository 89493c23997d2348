#!/bin/bash
# builds the replay harness against /repo's current working tree
V=$(cd "$(dirname "$0")/.." && pwd)
B=${KVC_BUILD:-$V/build}
cd "$V/replay"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$B/replay"
exec cargo build --offline --release -q
