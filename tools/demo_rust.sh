#!/bin/bash
# exits nonzero if the property is broken in the tree in the current directory
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$repo" || exit 2
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" "$w/scratch"
cp "$here/main.rs" "$w/src/main.rs"
cp Cargo.lock "$w/" 2>/dev/null
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
zarr = { path = "$repo" }
serde_json = "1"
ndarray = "0.13"
libc = "0.2"
half = "1"
T
cd "$w" || exit 2
export CARGO_TARGET_DIR="$w/target"
cargo build --offline -q || { echo "demo does not build"; exit 0; }
timeout 100 ./target/debug/demo "$w/scratch"
