#!/bin/bash
# check.sh <property> [quick|thorough]: rebuilds the harness against /repo's
# current working tree and explores the property.
# check.sh build: only builds.
HERE=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_TARGET_DIR=$HERE/build/target VERIF_ROOT=$HERE
mkdir -p "$HERE/build" "$HERE/evidence"
(
  flock 9
  python3 "$HERE/overlay.py" || exit 2
  cd "$HERE/mc" && cargo build --offline --locked > "$HERE/build/build.log" 2>&1 || { tail -n 60 "$HERE/build/build.log"; exit 2; }
) 9> "$HERE/build/.lock" || { echo "check: the harness does not build"; exit 2; }
[ "$1" = build ] && exit 0
BIN=$HERE/build/target/debug/mc
ulimit -v $((26 * 1024 * 1024))
exec "$BIN" check "$@"
