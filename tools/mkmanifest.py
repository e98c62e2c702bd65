#!/usr/bin/env python3
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib")]
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks read /repo's sources as they are", "source_commits": []},
     "checks": [], "not_applicable": [], "notes": "Commits in /repo are 'fix:' commits only (see KNOWN_FINDINGS)."}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                            "evidence_file": f"evidence/{i}.json", "level": p.get("level", "proof"),
                            "technique": p.get("technique", "contract-based deductive verification: Verus (Z3) on the functions extracted from /repo on every run; failing inputs searched by a bounded native replay harness"),
                            "level_note": p.get("note", "see DESIGN.md")})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
