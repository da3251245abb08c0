#!/bin/bash
# Build the harness against /repo's working tree.
cd "$(dirname "$0")" || exit 1
export CARGO_TARGET_DIR="$PWD/target" RUSTFLAGS="--cfg verif" CARGO_NET_OFFLINE=true
cargo build --release --offline --manifest-path harness/Cargo.toml
