#!/usr/bin/env python3
"""seed_new.py ID: files common to every planted bug (demo crate), and patch.diff from /repo's working tree."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(V, "seeded", sys.argv[1])
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(["git", "-C", os.environ.get("SEEDREPO", "/repo"), "diff"])
if diff:
    open(d + "/patch.diff", "wb").write(diff)
open(d + "/Cargo.toml.in", "w").write('''[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
globalsearch = { path = "/repo", features = ["argmin", "rayon", "checkpointing"] }
ndarray = "0.16.1"
[[bin]]
name = "demo"
path = "main.rs"
''')
shutil.copy(os.path.join(V, "tools", "demo.lock"), d + "/Cargo.lock.in")
open(d + "/demo.sh", "w").write('''#!/bin/bash
# Exit 0: the property holds; 1: the demonstration fails. Everything is built and run in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp "$here/main.rs" "$w/main.rs"
cp "$here/Cargo.toml.in" "$w/Cargo.toml"
cp "$here/Cargo.lock.in" "$w/Cargo.lock"
cd "$w" || exit 3
mkdir scratch
timeout 280 cargo build --offline -q --release --target-dir "$w/target" > "$w/build.log" 2>&1 || { tail -30 "$w/build.log"; exit 4; }
TMPDIR="$w/scratch" timeout 120 "$w/target/release/demo"
''')
os.chmod(d + "/demo.sh", 0o755)
