#!/usr/bin/env python3
"""make and confirm a planted bug: seed.py ID PROP CRATES FILE 'old' 'new' [n] [FILE old new ...] with needs/what/demo read from /tmp/seed/ID.{needs,what,rs}"""
import json, os, shutil, subprocess, sys
V = "/verif"; S = "/tmp/seedrepo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(ID, prop, crates, edits, needs, what, demo, helpers=()):
    d = f"{V}/seeded/{ID}"
    if not os.path.exists(S):
        sh(f"cp -a /repo {S}")
    sh(f"git -C {S} checkout -q -- . && git -C {S} fetch -q /repo HEAD && git -C {S} reset -q --hard FETCH_HEAD")
    for f, old, new, *n in edits:
        p = f"{S}/{f}"; s = open(p).read(); c = s.count(old)
        k = n[0] if n else 0
        assert c >= 1 and (c == 1 or n), f"{ID}: {c} matches of {old!r}"
        i = -1
        for _ in range(k + 1): i = s.index(old, i + 1)
        open(p, "w").write(s[:i] + new + s[i + len(old):])
    os.makedirs(d, exist_ok=True)
    diff = sh(f"git -C {S} diff").stdout
    open(d + "/patch.diff", "w").write(diff)
    t = open(f"{V}/tools/seedlib/demo.sh").read().replace("CRATES", "\n".join(f'{c} = {{ path = "$repo/{p}" }}' for c, p in crates))
    open(d + "/demo.sh", "w").write(t); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(demo)
    for h in helpers: shutil.copy(f"{V}/tools/seedlib/{h}", d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    a = sh(f"bash {d}/demo.sh", cwd="/repo"); b = sh(f"bash {d}/demo.sh", cwd=S)
    print(ID, "unchanged:", a.returncode, "patched:", b.returncode, (a.stdout + a.stderr)[-600:] if a.returncode else "", "|", [l for l in (b.stdout + b.stderr).splitlines() if "panicked" in l or "left" in l or "right" in l])
    if a.returncode == 0 and b.returncode not in (0, 2): return True
def tests(ids):
    """every patch passes build and the stable tests, in a scratch copy mounted as /repo is not possible, so /repo itself is patched and restored"""
    base = json.load(open("/opt/vp/BASELINE.json"))
    for ID in ids:
        assert not sh("git -C /repo status --porcelain").stdout.strip()
        r = sh(f"git -C /repo apply {V}/seeded/{ID}/patch.diff")
        if r.returncode: print(ID, "does not apply", r.stderr); continue
        try:
            b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            o = json.load(open("/tmp/seedtest.json"))
            print(ID, "build", b.returncode, "tests:", str(cmp(base, o)))
        finally:
            sh("git -C /repo checkout -- .")
def cmp(base, o):
    st = base.get("stable") or base.get("passed") or base.get("tests")
    ps = o.get("passed")
    if st is None or ps is None: return list(base.keys()), list(o.keys())
    return "missing: " + str([x for x in st if x not in set(ps)])
if __name__ == "__main__":
    tests(sys.argv[1:])
