#!/bin/bash
# Builds main.rs beside this script against the parser in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src" && cp "$here/main.rs" "$w/src/main.rs" && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
wolfram-parser = { path = "$repo/crates/wolfram-parser" }
T
cd "$w" || exit 2
export PATH=$PATH:/root/.cargo/bin RUSTUP_TOOLCHAIN=1.74.1 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target"
unset RUSTFLAGS
cargo build --offline -q 2>"$w/log" || { tail -20 "$w/log"; exit 2; }
timeout 120 "$w/target/debug/demo"
