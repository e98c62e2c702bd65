#!/bin/bash
# builds demo.rs against the crates in the current directory (the repository) and runs it: exit 0 when all is well
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
d="$(mktemp -d /tmp/lxi-demo.XXXXXX)" || exit 3
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src"; cp "$here"/*.rs "$d/src/"; mv "$d/src/demo.rs" "$d/src/main.rs"; cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
lxi-device = { path = "$repo/device" }
CRATES
async-std = "*"
futures = "*"
[workspace]
EOF
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings RUSTC_WRAPPER= CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
( cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 220 cargo build --offline -q ) || { echo "demo does not build"; exit 2; }
cd "$d" && timeout 60 "$d/target/debug/demo"
