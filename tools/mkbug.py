#!/usr/bin/env python3
"""mkbug.py ID PROPERTY NEEDS BREAKS (file old new)...   writes seeded/ID/{patch.diff,meta.json,demo.sh} (main.rs is written by hand)"""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = the siamesedb tree; exit 0 when the property holds for this history
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/d/src" "$t/data" && cp "$here/main.rs" "$t/d/src/main.rs" || exit 2
cp "$repo/Cargo.lock" "$t/d/" 2>/dev/null
cat > "$t/d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
siamesedb = { path = "$repo" }
[workspace]
E
cd "$t/d" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cargo build --offline -q 2>"$t/log" || { tail -n 20 "$t/log"; exit 2; }
timeout 200 "$t/target/debug/demo" "$t/data"
'''
def main():
    i, prop, needs, br, *ed = sys.argv[1:]
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for k in range(0, len(ed), 3):
        f, old, new = ed[k:k + 3]
        p = os.path.join(w, "r", "src", f)
        s = open(p).read()
        n = 0
        if "@" in old[:3] and old.split("@", 1)[0].isdigit():
            n, old = old.split("@", 1)
            n = int(n)
            parts = s.split(old)
            assert len(parts) > n + 1, "occurrence"
            s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        else:
            assert s.count(old) == 1, (f, s.count(old), old)
            s = s.replace(old, new)
        open(p, "w").write(s)
    df = subprocess.check_output(["git", "diff"], cwd=w + "/r", text=True)
    open(d + "/patch.diff", "w").write(df)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": br}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    shutil.rmtree(w)
    print(df)
main()
