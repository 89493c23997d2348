#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks" : takes the edit in /tmp/sw (a copy of /repo) and /tmp/demo.rs, checks them, keeps them
set -e
ID=$1; D=/verif/seeded/$ID
mkdir -p "$D"
git -C /tmp/sw diff > "$D/patch.diff"
test -s "$D/patch.diff"
cp /tmp/demo.rs "$D/demo.rs"
cat > "$D/demo.sh" <<'X'
#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
mkdir "$S/src"
cp "$D/demo.rs" "$S/src/main.rs"
cp "$R/Cargo.lock" "$S/Cargo.lock" 2>/dev/null
cat > "$S/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
k = { path = "$R" }
nalgebra = "0.26"
urdf-rs = "0.6"
T
cd "$S"
unset RUSTFLAGS RUSTC_WRAPPER
CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$S/t" timeout 280 cargo run -q --offline
X
chmod +x "$D/demo.sh"
python3 - "$@" <<'P'
import sys,json
i,p,n,b=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open("/verif/seeded/%s/meta.json"%i,"w"),indent=1)
P
# with the change: builds, passes the tests, demo fails
cd /tmp/sw
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/sw/target
cargo test --workspace --offline -q > /tmp/sw.log 2>&1 || { echo "TESTS FAIL"; grep -E "panicked|FAILED|error" /tmp/sw.log | head; exit 1; }
unset CARGO_TARGET_DIR
if bash "$D/demo.sh" > /tmp/sw.demo 2>&1; then echo "DEMO PASSES WITH THE CHANGE"; exit 1; fi
grep -q "^error" /tmp/sw.demo && { echo "demo does not build"; cat /tmp/sw.demo | head -20; exit 1; }
tail -2 /tmp/sw.demo
git -C /tmp/sw checkout -q -- .
if ! bash "$D/demo.sh" > /tmp/sw.demo 2>&1; then echo "DEMO FAILS WITHOUT THE CHANGE"; tail -5 /tmp/sw.demo; exit 1; fi
echo "kept $ID"
