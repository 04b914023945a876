#!/usr/bin/env bash
# Builds the monitors once, so that the checks only have to rebuild what changed.
set -eu
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/.target"
mkdir -p "$CARGO_TARGET_DIR"
cargo build -q --offline --manifest-path harness/Cargo.toml
"$CARGO_TARGET_DIR/debug/tsmon" list
