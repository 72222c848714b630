#!/bin/bash
# run.sh <PROPERTY> [replay FILE | law-filter]: builds the harness from /repo's current tree, runs one check.
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUST_BACKTRACE RUSTFLAGS RUSTDOCFLAGS
HERE=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR="$HERE/target" VERIF_DIR="$HERE"
P="$1"; shift
bin=$(echo "$P" | tr 'A-Z' 'a-z')
LOG=$(mktemp)
if ! ( cd "$HERE/harness" && cargo build --offline --bin "$bin" ) >"$LOG" 2>&1; then
  grep -E -A14 '^error' "$LOG" | head -n 150 >&2; rm -f "$LOG"; echo "run.sh: build failed" >&2; exit 2
fi
rm -f "$LOG"
ulimit -c 0; ulimit -v 20000000
exec "$CARGO_TARGET_DIR/debug/$bin" "$@"
