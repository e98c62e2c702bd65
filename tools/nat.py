#!/usr/bin/env python3
"""developer tool: run the native harness: nat.py PROP... (REPO via env LXI_REPO)"""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib")]
import native
from props import PROPS
NATIVE = {p: "net" for p in ("P21", "P22")}
native.SECS["quick"] = int(os.environ.get("SECS", "12"))
for p in sys.argv[1:]:
    r = native.run(PROPS[p]["native"] if p in PROPS else NATIVE[p], p, os.environ.get("TIER", "quick"), int(os.environ.get("SEED", "1")))
    print(p, json.dumps(r)[:3000].replace("\\n", "\n"))
