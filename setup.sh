#!/bin/bash
# builds the harnesses from /repo's working tree (every check does so again for itself)
cd "$(dirname "$0")/harness" && CARGO_NET_OFFLINE=true cargo build --offline --release --target-dir ../target/full || exit 1
cd ../pyharness/ext && CARGO_NET_OFFLINE=true PYO3_PYTHON=/usr/bin/python3 cargo build --offline --release --target-dir ../../target/py
