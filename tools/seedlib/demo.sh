#!/bin/bash
# exit 0: the property holds for this scenario; nonzero: it is broken. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
w=$(mktemp -d /tmp/candydemo.XXXXXX) || exit 0
trap 'find "$w" -depth -delete 2>/dev/null' EXIT
mkdir -p "$w/p/src" "$w/data" "$w/tmp"
cp "$here/main.rs" "$w/p/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/p/Cargo.lock"
cat > "$w/p/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
candystore = { path = "$repo", features = [FEATURES] }
anyhow = "1"
siphasher = "1"
[profile.dev]
opt-level = 1
debug = false
[workspace]
TOML
export CARGO_TARGET_DIR="$w/t" TMPDIR="$w/tmp"
(cd "$w/p" && cargo build --offline -q 2> "$w/build.log") || { cat "$w/build.log"; echo "demo does not build"; exit 3; }
if [ -f "$here/fault.c" ]; then
  gcc -shared -fPIC -O1 -o "$w/fault.so" "$here/fault.c" -ldl -lpthread || exit 3
fi
FAULT_SO="$w/fault.so" DATA="$w/data" timeout 120 "$w/t/debug/demo"
rc=$?
echo "demo exit code $rc"
exit $rc
