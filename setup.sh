#!/bin/bash
# Builds every check once, from /repo's current tree.
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS RUSTDOCFLAGS
HERE=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR="$HERE/target"
cd "$HERE/harness" && cargo build --offline --bins
