#!/bin/bash
# Builds both variants of the monitor, so that a check only has to rebuild what changed.
cd "$(dirname "$0")" && mkdir -p evidence
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
cd harness || exit 1
cargo build --release --offline --locked --target-dir ../target || exit 1
RUSTFLAGS="--cfg orchard_verif" cargo build --release --offline --locked --target-dir ../target-hooks || echo "hooks do not build; C06, C07 and C18 will run without them"
exit 0
