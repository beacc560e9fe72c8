#!/bin/bash
# C19: the hostile workload under four instruments; harness/src/bin/c19.rs judges their logs.
# cwd is /verif, VERIF_ROOT is set.
export VH_STARTED=$(date +%s.%N)
B="$VERIF_ROOT/build"; M=harness/Cargo.toml; H="$VERIF_ROOT/harness"
if [ "$VERIF_TIER" = thorough ]; then nd=400000; na=400000; nm=4000; nv=6000; lim=3000; else nd=24000; na=24000; nm=240; nv=400; lim=600; fi
export RUST_BACKTRACE=0
fail() { echo "BUILD FAILED ($1)"; grep -E '^error' -A6 "$2" | head -40; exit 3; }
# builds, side by side
( CARGO_TARGET_DIR="$H/target" cargo build --offline --release --quiet --manifest-path $M --bin c19 >"$B/c19.log" 2>&1 ) & b1=$!
( CARGO_TARGET_DIR="$H/target-asan" CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=false CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=false \
  RUSTFLAGS="-Zsanitizer=address" cargo +nightly build --offline --release --quiet --target x86_64-unknown-linux-gnu \
  --manifest-path $M --bin c19 >"$B/c19.asan.build" 2>&1 ) & b2=$!
( CARGO_TARGET_DIR="$H/target-nodebug" CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=false CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=false \
  cargo build --offline --release --quiet --manifest-path $M --bin c19 >"$B/c19.nodebug.build" 2>&1 ) & b3=$!
export CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false CARGO_PROFILE_DEV_OVERFLOW_CHECKS=false MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-tree-borrows"
( VH_WORK=0,0,4 CARGO_TARGET_DIR="$H/target-miri" cargo +nightly miri run --offline --quiet --manifest-path $M --bin c19 >"$B/c19.miri.build" 2>&1 ) & b4=$!
wait $b1 || fail debug "$B/c19.log"
wait $b2 || fail asan "$B/c19.asan.build"
wait $b3 || fail nodebug "$B/c19.nodebug.build"
wait $b4 || fail miri "$B/c19.miri.build"
export CARGO_TARGET_DIR="$H/target-miri"
logs=""; pids=(); names=(); files=()
start() { # stage, log, command...
    local stage=$1 log=$2; shift 2
    ( SECONDS=0; timeout $lim "$@" >"$log" 2>&1; rc=$?; echo "TIME $SECONDS s" >>"$log"; exit $rc ) & pids+=($!); names+=("$stage"); files+=("$log")
}
for q in 0 1; do
    VH_WORK=$((q*nd/2)),$(((q+1)*nd/2)),12 start debug "$B/c19.debug$q.out" "$H/target/release/c19"
    ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=88:detect_stack_use_after_return=1 VH_WORK=$((q*na/2)),$(((q+1)*na/2)),12 \
        start asan "$B/c19.asan$q.out" "$H/target-asan/x86_64-unknown-linux-gnu/release/c19"
done
VH_WORK=0,$nv,10 start memcheck "$B/c19.memcheck.out" valgrind -q --error-exitcode=99 --exit-on-first-error=yes "$H/target-nodebug/release/c19"
for q in 0 1 2 3 4 5; do
    VH_WORK=$((q*nm/6)),$(((q+1)*nm/6)),4 start miri "$B/c19.miri$q.out" cargo +nightly miri run --offline --quiet --manifest-path $M --bin c19
done
for i in "${!pids[@]}"; do
    wait "${pids[$i]}"; rc=$?
    if [ $rc = 101 ] && [ "${names[$i]}" != miri ]; then echo "INCONCLUSIVE: the workload driver itself panicked: ${names[$i]}"; tail -3 "${files[$i]}"; exit 3; fi
    if [ $rc = 124 ]; then echo "INCONCLUSIVE: stage ${names[$i]} timed out"; exit 3; fi
    logs="$logs${names[$i]}:$rc:${files[$i]};"
done
VH_LOGS="$logs" exec "$H/target/release/c19"
