#!/bin/sh
# usage: check.sh <property> [--replay FILE]
# Builds the orchestrator, then lets it rebuild the library from /repo and decide the property.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER 2>/dev/null
CARGO_TARGET_DIR="$PWD/target/orch" cargo build --release --offline --quiet --manifest-path harness/orch/Cargo.toml >&2 || { echo "ERROR: orchestrator does not build" >&2; exit 2; }
exec target/orch/release/orch "$@"
