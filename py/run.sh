#!/bin/bash
# py/run.sh <ID>: build the extension and the reference server from /repo's working tree,
# lay the package out in a scratch folder, run the Python check on it.
ID="$1"
b=$(echo "$ID" | tr 'A-Z' 'a-z')
root="$VERIF_ROOT"
log="$root/build/$b.log"
PY=/opt/vp/venv/bin/python
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
fail() { echo "BUILD FAILED for $ID"; grep -E '^error' -A6 "$log" | head -40; exit 3; }
pyexe=$(readlink -f "$PY"); export PYO3_PYTHON="$pyexe"
(CARGO_TARGET_DIR="$root/harness/target" cargo build --offline --release --quiet --manifest-path "$root/harness/Cargo.toml" --bin pyref >"$log.ref" 2>&1) &
ref=$!
CARGO_TARGET_DIR="$root/harness/target-py" cargo build --offline --release --quiet \
    --config profile.release.overflow-checks=true --config profile.release.debug-assertions=true \
    --manifest-path "$root/../repo/Cargo.toml" -p sparseglmpy --features pyo3/abi3-py37 >"$log" 2>&1 || fail
wait $ref || { log="$log.ref"; fail; }
pkg="$root/build/pkg-$b"
case "$pkg" in /*/build/pkg-c[0-9]*) rm -rf "$pkg" ;; esac
mkdir -p "$pkg/sparseglm"
cp "$root"/../repo/python/sparseglm/*.py "$pkg/sparseglm/" || exit 3
cp "$root/harness/target-py/release/libsparseglmpy.so" "$pkg/sparseglm/_lib.abi3.so" || exit 3
export PYTHONPATH="$pkg" VH_PYREF="$root/harness/target/release/pyref"
exec "$PY" "$root/py/$b.py"
