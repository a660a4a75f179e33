#!/bin/bash
# Prebuilds the harnesses; every check builds what it needs by itself as well.
V="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$V/target" CARGO_NET_OFFLINE=true
cargo build --release --offline --locked --manifest-path "$V/mc/Cargo.toml" --bins || exit 1
cargo build --release --offline --locked --manifest-path "$V/xp/Cargo.toml" --bins || exit 1
cargo build --profile checked --offline --locked --manifest-path "$V/mc/Cargo.toml" --bin mc || exit 1
cargo build --release --offline --locked --manifest-path "$V/mp/Cargo.toml"
