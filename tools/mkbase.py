#!/usr/bin/env python3
"""Records, for the unchanged tree, the names each extracted function calls (groups/baseline.json)."""
import os, sys, json, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "groups")]
from props import PROPS
import rx, os
nm = {}
for c in ("device", "hislip", "raw", "telnet", "vxi11"):
    for dp, dn, fl in os.walk(os.path.join(rx.REPO, c, "src")):
        for x in sorted(fl):
            if x.endswith(".rs"):
                rel = os.path.relpath(os.path.join(dp, x), rx.REPO)
                nm[rel] = rx.scan_names(rx.File(rel, raw=True))
json.dump(nm, open(os.path.join(V, "groups", "names.json"), "w"), indent=0, sort_keys=True)
names = sorted({g for p in PROPS.values() for g in p["groups"]})
b = {}
for n in names:
    gs = importlib.import_module(n).build()
    for g in (gs if isinstance(gs, list) else [gs]):
        b[g.name] = g.render.calls
        for f in g.render.flags:
            print("flag", g.name, f)
json.dump(b, open(os.path.join(V, "groups", "baseline.json"), "w"), indent=0, sort_keys=True)
