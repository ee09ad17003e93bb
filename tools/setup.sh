#!/bin/bash
# Builds the harness once (checks rebuild what they need from /repo's working tree).
here="$(cd "$(dirname "$0")/.." && pwd)"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_TARGET_DIR="$here/target"
unset RUSTFLAGS
exec cargo build --offline --locked --manifest-path "$here/harness/Cargo.toml"
