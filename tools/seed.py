#!/usr/bin/env python3
"""Plant a bug: seed.py SPEC.py ...   Each SPEC defines id, prop, edits=[(file, old, new)], needs, breaks, main (Rust) or script (bash), mods.
Writes /verif/seeded/<id>/ and confirms in a scratch copy that the demonstration passes without and fails with the change."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CARGO = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[[bin]]
name = "demo"
path = "main.rs"
[dependencies]
anyhow = "1"
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
bincode = "1.3"
hex = "0.4"
aes-gcm = "0.10"
aes = "0.8"
ctr = "0.9"
cipher = { version = "0.4", features = ["std"] }
rand = "0.8"
[profile.dev]
opt-level = 1
debug = 0
[workspace]
'''
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp -r "$here"/. "$tmp/"
ln -s "$PWD" "$tmp/repo"
cd "$tmp" || exit 1
'''
RUST = DEMO + '''export CARGO_TARGET_DIR=$tmp/target
unset RUSTFLAGS CARGO_BUILD_TARGET
mkdir work
cargo build -q --offline 2>build.log || { cat build.log; exit 99; }
cd work && timeout 60 ../target/debug/demo
'''
def make(spec):
    g = {}
    exec(open(V + "/tools/seedspecs/_lib.py").read(), g)
    exec(open(spec).read(), g)
    d = f"{V}/seeded/{g['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    scratch = tempfile.mkdtemp(prefix="seed")
    try:
        r = f"{scratch}/repo"
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        for f, old, new in g["edits"]:
            p = f"{r}/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (g["id"], f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE, check=True).stdout
        open(d + "/patch.diff", "wb").write(diff)
        json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if "main" in g:
            open(d + "/main.rs", "w").write(g["main"])
            open(d + "/Cargo.toml", "w").write(g.get("cargo", CARGO))
            shutil.copy(f"{V}/tools/seedlib/Cargo.lock", d + "/Cargo.lock")
            open(d + "/demo.sh", "w").write(RUST)
        else:
            open(d + "/demo.sh", "w").write(DEMO + g["script"])
        for n, t in g.get("files", {}).items():
            os.makedirs(os.path.dirname(f"{d}/{n}"), exist_ok=True)
            open(f"{d}/{n}", "w").write(t)
        for src, n in g.get("copy", []):
            (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, f"{d}/{n}")
        os.chmod(d + "/demo.sh", 0o755)
        lay = f"{scratch}/lay"
        shutil.copytree(d, lay)
        bad = subprocess.run(["bash", lay + "/demo.sh"], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=r, check=True)
        ok = subprocess.run(["bash", lay + "/demo.sh"], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        state = "OK" if ok.returncode == 0 and bad.returncode not in (0, 99) else "BAD"
        print(g["id"], state, "unchanged:", ok.returncode, "patched:", bad.returncode)
        if state == "BAD":
            print(ok.stdout.decode()[-1500:], "----", bad.stdout.decode()[-1500:])
    finally:
        shutil.rmtree(scratch)
for s in sys.argv[1:]:
    make(s)
