#!/bin/bash
# check.sh <property> [quick|thorough] [--only space:index]
# Builds the harness against /repo's working tree and explores one property.
set -u
cd "$(dirname "$0")"
export VERIF_DIR="$PWD"
export CARGO_TARGET_DIR="$PWD/target"
export RUSTFLAGS="--cfg verif"
export CARGO_NET_OFFLINE=true
prop="$1"; shift
log=$(mktemp)
if ! cargo build --release --offline --manifest-path harness/Cargo.toml >"$log" 2>&1; then
    tail -40 "$log"; rm -f "$log"
    echo "build failed"
    exit 2
fi
if [ "$prop" = P25 ]; then
    # this one uses a library item of its own: do without it where that is gone
    rm -f "$PWD/target/release/carron-log"
    cargo build --release --offline --manifest-path harness/Cargo.toml --features log --bin carron-log >"$log" 2>&1 || tail -5 "$log"
fi
rm -f "$log"
export CARRON_MC_SCRATCH
CARRON_MC_SCRATCH=$(mktemp -d)
target/release/carron-mc "$prop" "$@"
rc=$?
rm -rf "$CARRON_MC_SCRATCH"
exit $rc
