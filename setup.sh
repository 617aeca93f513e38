#!/bin/bash
# Build the monitors once.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
mkdir -p evidence replays
cargo build --release --offline --locked --manifest-path harness/Cargo.toml --target-dir harness/target --bin vmon &&
cargo build --offline --locked --manifest-path "${VMON_REPO:-/repo}/Cargo.toml" --target-dir cli-target --bin ruruby-parse
