#!/bin/bash
# C18: a ThreadSanitizer stage, then the ordinary monitors.
export VH_STARTED=$(date +%s.%N)
# cwd is /verif, VERIF_ROOT is set.
log="$VERIF_ROOT/build/c18.tsan.log"
n=12; [ "$VERIF_TIER" = thorough ] && n=600
export CARGO_TARGET_DIR="$VERIF_ROOT/harness/target-tsan"
if ! RUSTFLAGS="-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer" cargo +nightly build --offline --quiet --release -Zbuild-std \
      --target x86_64-unknown-linux-gnu --manifest-path harness/Cargo.toml --bin c18 >"$VERIF_ROOT/build/c18.tsan.build" 2>&1; then
    echo "TSAN BUILD FAILED"; grep -E '^error' -A6 "$VERIF_ROOT/build/c18.tsan.build" | head -30; exit 3
fi
TSAN_OPTIONS="halt_on_error=1 exitcode=66 report_thread_leaks=0" VH_SAN_STAGE=$n \
    timeout 500 "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release/c18" >"$log" 2>&1
rc=$?
if [ $rc = 124 ]; then echo "INCONCLUSIVE: ThreadSanitizer stage timed out"; exit 3; fi
export CARGO_TARGET_DIR="$VERIF_ROOT/harness/target"
if ! cargo build --offline --release --quiet --manifest-path harness/Cargo.toml --bin c18 >"$VERIF_ROOT/build/c18.log" 2>&1; then
    echo "BUILD FAILED"; grep -E '^error' -A6 "$VERIF_ROOT/build/c18.log" | head -40; exit 3
fi
VH_SAN_LOG="$log" VH_SAN_RC=$rc exec harness/target/release/c18
