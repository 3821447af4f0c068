#!/bin/bash
# Run in the repository: exits 0 on the unchanged tree, nonzero with the patch.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
math-core = { path = "$repo/crates/math-core" }
[workspace]
T
CARGO_TARGET_DIR="$d/target" cargo run -q --offline --manifest-path "$d/Cargo.toml"
