#!/usr/bin/env python3
"""newseed.py ID PROP NEEDS BREAKS < main.rs : turn the edits in /tmp/sr (git worktree of /repo) into seeded/ID."""
import sys, subprocess, os, json, shutil
i, prop, needs, breaks = sys.argv[1:5]
d = f"/verif/seeded/{i}"
os.makedirs(d + "/demo/src", exist_ok=True)
p = subprocess.run(["git", "-C", "/tmp/sr", "diff"], capture_output=True, text=True).stdout
assert p.strip(), "no change"
open(d + "/patch.diff", "w").write(p)
subprocess.run(["git", "-C", "/tmp/sr", "checkout", "-q", "--", "."])
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
main = sys.stdin.read()
open(d + "/demo/src/main.rs", "w").write(main)
feats = "sqlite,datetime,json,async,async-adapter,fs" + (",turso" if "//FEATURE turso" in main else "") + (",pg" if "//FEATURE pg" in main else "")
bf = "sqlite,datetime,json,uuid,async,async-adapter" + (",turso" if "//FEATURE turso" in main else "") + (",pg" if "//FEATURE pg" in main else "")
open(d + "/demo/Cargo.toml.in", "w").write(f'''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
publish = false
[workspace]
[dependencies]
butane = {{ path = "@REPO@/butane", default-features = false, features = {json.dumps(bf.split(","))} }}
butane_core = {{ path = "@REPO@/butane_core", default-features = false, features = {json.dumps(feats.split(","))} }}
async-trait = "0.1"
tokio = {{ version = "1", features = ["macros","rt-multi-thread"] }}
tokio-postgres = {{ version = "0.7" }}
chrono = {{ version = "0.4", default-features = false }}
uuid = "1"
serde_json = "1"
serde = "1"
rusqlite = "*"
[profile.dev]
debug = 0
incremental = false
''')
shutil.copy("/verif/harness/Cargo.lock", d + "/demo/Cargo.lock.in")
open(d + "/demo.sh", "w").write('''#!/bin/bash
# runs with cwd = the repository; builds a small program against it in a scratch directory
set -u
H="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cp -r "$H/demo/src" "$T/src"
sed "s#@REPO@#$PWD#" "$H/demo/Cargo.toml.in" > "$T/Cargo.toml"
cp "$H/demo/Cargo.lock.in" "$T/Cargo.lock"
cd "$T" || exit 9
RUSTFLAGS="-Awarnings" cargo build --offline -q --target-dir "$T/target" || { echo "demo does not build"; exit 8; }
exec_out="$(timeout 120 "$T/target/debug/demo" 2>&1)"; rc=$?
echo "$exec_out" | tail -5
exit $rc
''')
os.chmod(d + "/demo.sh", 0o755)
