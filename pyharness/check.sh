#!/bin/bash
# usage: check.sh <property> | check.sh replay <file>  - build the extension and the reference, then decide
set -u
H="$(cd "$(dirname "$0")" && pwd)"
V="$(dirname "$H")"
export VERIF_DIR="${VERIF_DIR:-$V}" CARGO_NET_OFFLINE=true PYO3_PYTHON=/usr/bin/python3 PYTHONDONTWRITEBYTECODE=1
T="$V/target"
ID="$1"
log="$T/build-py-$ID.log"
mkdir -p "$T/pymod"
fail() { echo "$ID: build failed, no verdict"; tail -n 40 "$log"; exit 2; }
: >"$log"
( cd "$V/harness" && cargo build --offline --release --target-dir "$T/full" --bin pyref ) >>"$log" 2>&1 &
a=$!
( cd "$H/ext" && cargo build --offline --release --target-dir "$T/py" ) >>"$log" 2>&1 || { wait $a; fail; }
wait $a || fail
cp -f "$T/py/release/libpyglobalsearch.so" "$T/pymod/pyglobalsearch.so" || fail
export PYREF="$T/full/release/pyref" PYMOD="$T/pymod"
exec python3-vt "$H/run.py" "$@"
