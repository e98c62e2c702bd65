#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Deciding step: Verus on the functions that the property depends on, extracted from /repo's working tree as it is now.
See DESIGN.md for what each outcome means."""
import argparse, concurrent.futures as cf, importlib, json, os, re, sys, time, traceback

V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "groups")]
import rx, vx, native
from props import PROPS


def build(name):
    try:
        g = importlib.import_module(name).build()
        return (g if isinstance(g, list) else [g]), None
    except rx.Lost as e:
        return [], f"{name}: {e}"
    except Exception as e:      # a source text that the extractor cannot digest is not a verdict
        return [], f"{name}: extraction failed: {type(e).__name__}: {e}"


def prove(g, vac=True):
    js, di, t, cmd = vx.run_text(g.name, g.text)
    c = vx.classify(g, js, di)
    if c["status"] == "rlimit":
        js2, di2, t2, cmd = vx.run_text(g.name, g.text, ["--rlimit", "60"])
        t += t2
        c2 = vx.classify(g, js2, di2)
        if c2["status"] != "rlimit":
            c, js, di = c2, js2, di2
    c["time"], c["cmd"], c["smt_ms"] = t, " ".join(cmd), vx.smt_ms(js)
    c["diags"] = [d.get("rendered") or d["message"] for d in di]
    c["vacuous"] = []
    if vac and c["status"] == "ok":
        vt = vx.vacuity_text(g)
        g2 = vx.Group(g.name + "_vac", vt, g.render)
        js, di, t, _ = vx.run_text(g2.name, vt)
        c2 = vx.classify(g2, js, di)
        bad = {f["fn"] for f in c2["failures"]}
        c["vacuous"] = [q for q, _, _, k in g.render.functions if k and q not in bad and q not in g.render.external and q in g.render.calls]
        c["vac_time"] = t
    return c


# std functions whose contract in vstd says all there is
EXACT = {"matches", "is_none", "is_some", "is_ok", "is_err", "len", "is_empty", "min", "max", "clamp", "truncate", "with_capacity", "unwrap_or_default",
         "replace", "swap", "first", "last", "clear", "try_from", "unwrap_or", "ok", "err", "ok_or", "push", "pop", "insert", "remove", "swap_remove",
         "contains", "ends_with", "starts_with", "eq_ignore_ascii_case", "to_ascii_lowercase", "to_ascii_uppercase", "is_ascii_digit", "is_ascii_whitespace", "is_ascii_control", "is_ascii", "split_first", "split_last", "abs_diff", "div_ceil", "count_ones"} | {f"{a}_{b}" for a in ("saturating", "wrapping", "checked") for b in ("add", "sub", "mul")}

VAGUE = {"new", "from", "into", "default", "call", "clone"}      # names that many types have


def unaccounted(g, base):
    """[(function, names it uses that it does not use on the unchanged tree and that have no exact contract)]"""
    b = base.get(g.name)
    if b is None:
        return []
    # functions of the repository that have a contract in this group, and stand-ins the group declares to be exact
    known = EXACT | set(g.exact) | {re.split(r"::", q.split(" [")[0])[-1] for q in b} - VAGUE
    res = []
    for q, cs in g.render.calls.items():
        new = [x for x in cs if x not in b.get(q, []) and x not in known and not (x == "continue" and q in g.render.plain_loops)]
        if new:
            res.append((q, new))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--no-native", action="store_true")
    ap.add_argument("--no-verus", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    P = PROPS[a.prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    notes, firm, soft = [], [], []
    groups = []
    for n in ([] if a.no_verus else P["groups"]):
        gs, lost = build(n)
        groups += gs
        if lost:
            notes.append("not decided by proof: " + lost)
    base = {}
    bp = os.path.join(V, "groups", "baseline.json")
    if os.path.exists(bp):
        base = json.load(open(bp))
    res = {}
    nat = None
    with cf.ThreadPoolExecutor(max_workers=5) as ex:
        fn = ex.submit(native.run, P["native"], a.prop, a.tier, seed) if P.get("native") and not a.no_native else None
        futs = {g.name: ex.submit(prove, g) for g in groups}
        for g in groups:
            res[g.name] = futs[g.name].result()
        if fn:
            nat = fn.result()
    obl = dis = 0
    functions, trusted, external = [], [], []
    smt = 0
    for g in groups:
        c = res[g.name]
        obl += c["verified"] + c["errors"]
        dis += c["verified"]
        smt += c["smt_ms"]
        trusted += [f"{g.name}: {x}" for x in g.trusted]
        trusted += [f"{g.name}: contract of {q} assumed" for q in g.render.external if q not in g.render.elsewhere]
        functions += [f"{g.name}: contract of {q} used, proved in group {g.render.elsewhere[q]}" for q in g.render.external if q in g.render.elsewhere]
        functions += [f"{p}:{l} {q}" + ("" if k else " (NOT under contract)") for q, p, l, k in g.render.functions]
        flags = list(g.render.flags)
        for q, new in unaccounted(g, base):
            flags.append((q, f"{q} uses {', '.join(new)}, which the contracts do not account for"))
        for q, s in flags:
            notes.append(f"{g.name}: structure changed: {s}")
        if c["status"] in ("unsupported", "timeout"):
            notes.append(f"{g.name}: not decided by proof ({c['status']}): {c['why']}")
            continue
        for f in c["failures"]:
            if a.prop not in f["props"]:
                continue
            if f["kind"] in ("rlimit", "unsupported"):
                notes.append(f"{g.name}: not decided by proof: {f['fn']}: {f['msg']}")
                continue
            f["group"] = g.name
            why = [s for q, s in flags if q is None or q == f["fn"]]
            (soft if why else firm).append(f)
            if why:
                f["soft"] = why
        if c["status"] == "ok" and c["vacuous"]:
            notes.append(f"{g.name}: contract of {', '.join(c['vacuous'])} can no longer be entered (vacuous)")
    viol = None
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    rp = os.path.join(V, "replays", f"{a.prop}.json")
    if nat and nat["status"] == "fail":
        viol = ("", {"kind": "input", "native": nat["failure"], "command": nat["cmd"], "failed_obligations": firm + soft})
    elif firm:
        viol = (" no-failing-input-found", {"kind": "obligation", "failed_obligations": firm, "also": soft,
                "verifier": {g: res[g]["diags"] for g in {f["group"] for f in firm}}, "native": nat})
    for f in soft:
        notes.append(f"{f['group']}: {f['fn']}: {f['msg']} - not a verdict because the code's structure changed: {'; '.join(f['soft'])}")
    if nat and nat["status"] not in ("ok", "fail"):
        notes.append(f"native harness: {nat['status']}: {nat.get('why', '')[:300]}")
    for g in groups:
        notes += [f"{g.name}: {x}" for x in g.notes]
    undec = not groups or any(res[g.name]["status"] != "ok" for g in groups) or bool([n for n in notes if "not decided" in n])
    ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": P.get("level", "proof"),
          "coverage": {
              "obligations": obl, "discharged": dis,
              "obligation_unit": "one per verified function or lemma (Verus back end: Z3), as counted by Verus",
              "decided_by_proof": not undec,
              "checker_cmd": "; ".join(res[g.name]["cmd"] for g in groups) or "none",
              "backend": "Verus 0.2026.09.13 / Z3", "solver_ms": smt,
              "verifier_wall_s": round(sum(res[g.name]["time"] for g in groups), 2),
              "trusted_base": sorted(set(trusted)),
              "functions_under_contract": functions,
              "vacuity": {g.name: ("assert(false) at the entry of every function under contract fails, as it must" if res[g.name]["status"] == "ok" and not res[g.name]["vacuous"] else "not established") for g in groups},
              "textual_rewrites": (sorted(set("put in place: " + x for x in rx.INLINED)) + sorted({x for g in groups for x in g.render.rewrites}))[:80],
              "bounded_native": ({k: v for k, v in nat.items() if k in ("status", "evaluations", "distinct_nontrivial", "samples", "cmd", "rule")} if nat else None),
              "notes": notes},
          "assumptions": sorted(set(trusted)), "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", f"{a.prop}.json"), "w"), indent=1)
    for n in notes:
        print("NOTE", n)
    known = os.path.join(V, "KNOWN_FINDINGS")
    if viol:
        json.dump({"property": a.prop, **viol[1]}, open(rp, "w"), indent=1, default=str)
        for f in firm + soft:
            print(f"failed obligation [{f['group']}] {f['fn']}: {f['msg']}", *[s for s in f["spans"]], sep="\n    ")
        if nat and nat["status"] == "fail":
            print("failing input:", json.dumps(nat["failure"])[:2000])
        print(f"VIOLATION property={a.prop} replay={rp}{viol[0]}")
        return 1
    st = ", ".join(f"{g.name}: {res[g.name]['status']} {res[g.name]['verified']}" for g in groups)
    print(f"{a.prop} held: proof [{st}], native [{nat['status'] + ' ' + str(nat.get('evaluations', 0)) if nat else 'none'}], {time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
