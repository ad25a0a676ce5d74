#!/bin/bash
# builds the extractor and the bounded harness, offline
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
(cd vx && cargo build --offline -q)
(cd harness && cargo build --offline -q)
verus --version | head -2
