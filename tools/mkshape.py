#!/usr/bin/env python3
"""Regenerates specs/shape.json: the loop and closure counts of every extracted function of the tree the specs were
written for. check.py compares: a function whose shape changed was rewritten, so annotations placed by position say
nothing about it any more. Run it by hand when a spec grows, on an unchanged /repo."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
import config
shape = {}
d = tempfile.mkdtemp()
for p, c in config.PROOF.items():
    mp = os.path.join(d, "m.json")
    subprocess.check_call([V + "/gcx/target/release/gcx", "--repo", "/repo", "--specs", V + "/specs", "--modules", ",".join(c["modules"]), "--roots", ",".join(c["roots"]),
        "--libs", ",".join(c["libs"]), "--tags", p, "--lost", "", "--out", d + "/g.rs", "--map", mp])
    m = json.load(open(mp))
    assert not m["problems"], m["problems"]
    for f in m["functions"]:
        assert not f["lost_anchors"], (f["key"], f["lost_anchors"])
        shape[f["key"]] = dict(loops=f["loops"], closures=f["closures"], locals=f["locals"])
json.dump(shape, open(V + "/specs/shape.json", "w"), indent=0, sort_keys=True)
print(len(shape), "functions")
