#!/bin/bash
# check.sh PROPERTY [quick|thorough] [extra orchard-mon options]
# Builds the monitor against /repo's current working tree and runs one property's check.
# Exit: 0 held, 1 violation, 2 harness or build error, 3 inconclusive.
set -u
ID=${1:?usage: check.sh PROPERTY [quick|thorough]}
TIER=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$HERE/harness" || exit 2
mkdir -p "$HERE/evidence"

build() { # target-dir flags
  RUSTFLAGS="$2" cargo build --release --offline --locked --target-dir "$1" >"$1.log" 2>&1
}

case "$ID" in
  C06|C07|C18) HOOKS=1 ;;
  *) HOOKS=0 ;;
esac
BIN=
if [ $HOOKS = 1 ]; then
  if build "$HERE/target-hooks" "--cfg orchard_verif"; then
    BIN=$HERE/target-hooks/release/orchard-mon
  else
    echo "note: building with the observation hooks failed; running without them" >&2
  fi
fi
if [ -z "$BIN" ]; then
  if ! build "$HERE/target" ""; then
    tail -n 40 "$HERE/target.log" >&2
    echo "BUILD-ERROR property=$ID: the harness does not build against /repo" >&2
    exit 2
  fi
  BIN=$HERE/target/release/orchard-mon
fi
cd "$HERE" || exit 2
exec "$BIN" "$ID" --tier "$TIER" --evidence "$HERE/evidence" "$@"
