#!/bin/sh
# Warms the orchestrator's build; every check also builds whatever it needs itself.
cd "$(dirname "$0")" || exit 1
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target/orch" cargo build --release --offline --quiet --manifest-path harness/orch/Cargo.toml
