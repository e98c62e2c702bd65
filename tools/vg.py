#!/usr/bin/env python3
"""developer tool: build and verify one group, print what fails"""
import sys, os, json, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "groups")]
import vx, rx
for name in sys.argv[1:]:
    try:
        g = importlib.import_module(name).build()
    except rx.Lost as e:
        print("LOST", e); continue
    for g in (g if isinstance(g, list) else [g]):
        js, di, t, cmd = vx.run_text(g.name, g.text)
        c = vx.classify(g, js, di)
        print(g.name, c["status"], "verified", c["verified"], "errors", c["errors"], f"{t:.1f}s", c.get("why", "")[:300])
        for fl in c["failures"]:
            print("  *", fl["kind"], fl["fn"], fl["props"], fl["msg"][:300])
            for s in fl["spans"]:
                print("       ", *[str(x)[:int(os.environ.get("W", "150"))] for x in s])
        for x in g.render.flags:
            print("  flag:", x)
        if c["status"] == "ok" and os.environ.get("VAC", "1") == "1":
            js, di, t, cmd = vx.run_text(g.name + "_vac", vx.vacuity_text(g))
            g2 = vx.Group(g.name + "_vac", vx.vacuity_text(g), g.render)
            c2 = vx.classify(g2, js, di)
            bad = {f["fn"] for f in c2["failures"]}
            for q in [x[0] for x in g.render.functions if x[0] not in g.render.external and x[0] not in bad]:
                print("  VACUOUS?", q)
            print("  vacuity", c2["status"], len(bad), f"{t:.1f}s", c2["why"][:200])
