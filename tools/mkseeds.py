#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds.txt-like definitions in seeds.py (patch, demo, meta). Hand tool; no check uses it."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools"); sys.dont_write_bytecode = True
import seeds
RUST = '''#!/bin/bash
# cwd: the repository, after its build. Exit 0: the property holds on this history; else broken.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf "$tmp"' EXIT
rustc --edition 2018 -A warnings -C debug-assertions=on -L dependency=target/debug/deps --extern gc_core=target/debug/libgc_core.rlib --extern gc_command=target/debug/libgc_command.rlib -o "$tmp/demo" "$here/demo.rs" || exit 3
cd "$tmp" && timeout 120 ./demo
'''
SH = '''#!/bin/bash
# cwd: the repository, after its build. Exit 0: the property holds on this history; else broken.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf "$tmp"' EXIT
bin="$repo/target/debug"
cd "$tmp" || exit 3
'''
want = sys.argv[1:]
for s in seeds.SEEDS:
    if want and s["id"] not in want: continue
    w = tempfile.mkdtemp(prefix="sd", dir="/tmp")
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for (f, a, b) in s["edits"]:
        p = w + "/r/" + f
        t = open(p).read()
        assert t.count(a) == 1, (s["id"], f, t.count(a), a)
        open(p, "w").write(t.replace(a, b))
    d = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
    o = V + "/seeded/" + s["id"]
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(d)
    if "rust" in s:
        open(o + "/demo.rs", "w").write(seeds.HEAD + s["rust"])
        open(o + "/demo.sh", "w").write(RUST)
    else:
        open(o + "/demo.sh", "w").write(SH + s["sh"])
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
    print("wrote", s["id"])
