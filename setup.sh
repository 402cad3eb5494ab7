#!/bin/bash
# Builds the extractor and the native harness once, to fail early where they cannot be built. Checks rebuild both.
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true
(cd vx && CARGO_TARGET_DIR=/verif/target/vx cargo build --offline) || exit 1
bash native/b.sh /verif/target/native || exit 1
verus --version
