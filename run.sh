#!/bin/bash
# usage: run.sh <property> <quick|thorough>   (MC_CASE=<sweep>:<index> replays one case)
# Rebuilds the explorer against /repo's working tree and decides one property.
ROOT=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset RUSTFLAGS RUST_LOG
export CARGO_TARGET_DIR="$ROOT/target"
LOG=$(mktemp)
if ! cargo build --release --offline --manifest-path "$ROOT/mc/Cargo.toml" >"$LOG" 2>&1; then
  tail -40 "$LOG" >&2; rm -f "$LOG"; echo "build failed" >&2; exit 3
fi
rm -f "$LOG"
[ "$ROOT/target/seed.so" -nt "$ROOT/mc/seed.c" ] || gcc -shared -fPIC -O1 -o "$ROOT/target/seed.so" "$ROOT/mc/seed.c" 2>/dev/null
# second build for P01: the library instrumented with load/store callbacks
case "$1" in build|P01)
  rm -f "$ROOT/target/sc/release/mc"
  RUSTC_WRAPPER="$ROOT/mc/sc-rustc.sh" CARGO_TARGET_DIR="$ROOT/target/sc" cargo build --release --offline --features sc --manifest-path "$ROOT/mc/Cargo.toml" >/dev/null 2>&1;;
esac
# the command-line tools for P31
case "$1" in build|P31)
  LOG=$(mktemp)
  if ! CARGO_TARGET_DIR="$ROOT/target/ex" cargo build --release --offline --examples --manifest-path "${MC_REPO:-/repo}/Cargo.toml" >"$LOG" 2>&1; then
    tail -40 "$LOG" >&2; rm -f "$LOG"; [ "$1" = P31 ] && { echo "build of the tools failed" >&2; exit 3; }
  fi
  rm -f "$LOG";;
esac
[ "$1" = build ] && exit 0
ulimit -v 28000000
case "$1" in P27|P28|P29|P30) exec timeout -k 5 "${MC_TIMEOUT:-860}" python3 "$ROOT/py/main.py" "$1" "${2:-${VERIF_TIER:-quick}}" "$ROOT";; esac
exec timeout -k 5 "${MC_TIMEOUT:-860}" "$ROOT/target/release/mc" "$1" "${2:-${VERIF_TIER:-quick}}" "$ROOT"
