#!/bin/bash
# Checks that everything the checks need is present, and builds the Rust harness once.
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/harness/target"
cargo build --offline --release --quiet --manifest-path harness/Cargo.toml --bins 2>&1 | tail -5
rc=${PIPESTATUS[0]}
/opt/vp/venv/bin/python -c 'import numpy, scipy, sklearn' || exit 1
exit "$rc"
