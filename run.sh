#!/bin/bash
# run.sh <ID>: rebuild what the check of property <ID> needs from /repo's working tree, run it.
cd "$(dirname "$0")" || exit 3
export VERIF_ROOT="$PWD"
ID="$1"
BIN=$(echo "$ID" | tr 'A-Z' 'a-z')
mkdir -p build evidence replay
log=build/$BIN.log
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
if [ -f "py/$BIN.py" ]; then
    exec bash py/run.sh "$ID"
fi
if [ -f "harness/extra/$BIN.sh" ]; then
    exec bash "harness/extra/$BIN.sh" "$ID"
fi
export CARGO_TARGET_DIR="$PWD/harness/target"
if ! cargo build --offline --release --quiet --manifest-path harness/Cargo.toml --bin "$BIN" >"$log" 2>&1; then
    echo "BUILD FAILED for $ID"
    grep -E '^error' -A6 "$log" | head -40
    exit 3
fi
exec harness/target/release/"$BIN"
