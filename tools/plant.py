#!/usr/bin/env python3
"""Development only: plant.py SPEC.py [ID...]: writes the planted bugs a spec file describes to /verif/seeded.
The file defines BUGS = [dict(id, prop, edits=[(file, old, new)], main, needs, breaks, features?)]."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Run with cwd = the repository. Builds main.rs against the crate in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
binread = { path = "$repo/binread", @FEATURES@ }
[workspace]
TOML
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" timeout 250 cargo run --offline -q
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns["BUGS"]:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
        continue
    w = "/tmp/plant"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for f, old, new in b["edits"]:
        t = open(f"{w}/{f}").read()
        assert t.count(old) == 1, (b["id"], f, t.count(old), old)
        open(f"{w}/{f}", "w").write(t.replace(old, new))
    d = f"{V}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(subprocess.check_output(["git", "diff"], cwd=w, text=True))
    open(f"{d}/demo.sh", "w").write(DEMO.replace("@FEATURES@", b.get("features", "default-features = true")))
    open(f"{d}/main.rs", "w").write(b["main"].lstrip("\n"))
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    shutil.rmtree(w, ignore_errors=True)
    print("planted", b["id"])
