#!/bin/bash
# Build the native harness against /repo's working tree. Usage: b.sh TARGET_DIR [nohooks]
cd /verif/native || exit 2
export RUSTUP_TOOLCHAIN=1.74.1 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$1"
if [ "$2" != nohooks ]; then export RUSTFLAGS="--cfg codeparser_verif" CODEPARSER_VERIF_HOOKS=/verif/native/hooks.rs; fi
cargo build --offline 2>&1
