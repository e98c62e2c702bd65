"""developer tool: would any check of the given groups / properties raise an alarm on LXI_REPO? camp_one.py GROUPS PROPS SECS"""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "lib"), os.path.join(V, "groups")]
import check, native, vx
from props import PROPS
base = json.load(open(os.path.join(V, "groups", "baseline.json")))
why = []
for n in sys.argv[1].split(","):
    if not n: continue
    gs, lost = check.build(n)
    if lost: why.append("LOST " + lost[:120])
    for g in gs:
        c = check.prove(g, False)
        flags = list(g.render.flags)
        flags += [(q, "uses " + ",".join(new)) for q, new in check.unaccounted(g, base)]
        if c["status"] in ("unsupported", "timeout"): why.append(f"{g.name} {c['status']} {c['why'][:100]}")
        for f in c["failures"]:
            if not f["props"]: why.append(f"{g.name} {f['fn']} no property: {f['msg'][:80]}"); continue
            if f["kind"] in ("rlimit", "unsupported"): why.append(f"{g.name} {f['kind']} {f['fn']}"); continue
            w = [s for q, s in flags if q is None or q == f["fn"]]
            if not w: print("CAUGHT proof", g.name, f["fn"], ",".join(sorted(f["props"]))); sys.exit(0)
            why.append(f"{g.name} soft {f['fn']}: {w[0][:80]}")
native.SECS["quick"] = int(sys.argv[3])
for p in sys.argv[2].split(","):
    if not p: continue
    r = native.run(PROPS[p]["native"], p, "quick", 1)
    if r["status"] == "fail": print("CAUGHT native", p, json.dumps(r["failure"])[:150], "| proof:", "; ".join(why)[:300]); sys.exit(0)
    if r["status"] != "ok": why.append(f"native {p}: {r['status']} {str(r.get('why'))[:100]}")
print("SURVIVED", "; ".join(why)[:600])
