#!/bin/bash
# builds main.rs against the sources in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf -- "$S"' EXIT
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
unset RUSTFLAGS
export CARGO_TARGET_DIR=${DEMO_TARGET_DIR:-$S/target} CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
python3 "$here/ws.py" "$S/ws" || exit 3
cd "$S/ws" || exit 3
cargo build --offline -q -p demo || exit 3
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
