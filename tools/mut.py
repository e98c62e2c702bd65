#!/usr/bin/env python3
"""developer tool: mut.py GROUP FILE 'old' 'new' [n]: apply a textual change in a scratch copy of /repo and verify the group"""
import sys, os, shutil, subprocess
g, f, a, b = sys.argv[1:5]
n = int(sys.argv[5]) if len(sys.argv) > 5 else 1
d = "/tmp/mut/repo"
subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", d + "/"], check=True) if shutil.which("rsync") else (shutil.rmtree(d, ignore_errors=True), shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("target", ".git")))
p = os.path.join(d, f)
s = open(p).read()
if a not in s:
    sys.exit("pattern not found")
i = -1
for _ in range(n):
    i = s.index(a, i + 1)
open(p, "w").write(s[:i] + b + s[i + len(a):])
subprocess.run([sys.executable, os.path.join(os.path.dirname(__file__), "vg.py"), g], env={**os.environ, "LXI_REPO": d, "VAC": "0"})
