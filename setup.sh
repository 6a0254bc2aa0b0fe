#!/bin/bash
# Builds the framework from the committed files (offline). The checks rebuild what changed.
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
mkdir -p evidence/work evidence/replay
RUSTFLAGS='--cfg knaster_verif' cargo build --offline --manifest-path hx/Cargo.toml --target-dir hx/target --features hooks || exit 1
RUSTFLAGS='--cfg knaster_verif' cargo kani --manifest-path hx/Cargo.toml --target-dir hx/target/kani --features hooks --only-codegen >/dev/null 2>&1
exit 0
