#!/usr/bin/env python3
"""developer tool: mutation campaign on scratch copies. camp.py WORKERS MAX SEED [FILE-SUBSTRING...]; results in /tmp/camp/out.jsonl"""
import sys, os, re, json, random, shutil, subprocess, threading, queue, signal
sys.path[:0] = ["/verif/lib"]
import subprocess as sp
sp.run("mkdir -p /tmp/camp/base && cd /repo && git archive HEAD | tar x -C /tmp/camp/base; cp /repo/Cargo.lock /tmp/camp/base/", shell=True)
W, MAX, SEED = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
only = sys.argv[4:]
MAP = {
 "device/src/lock.rs": ("lock", "P01,P02,P03"), "device/src/status.rs": ("status", "P04"),
 "hislip/src/common/messages.rs": ("hmsg,hinit,hsync,hasync", "P05,P06,P08"), "hislip/src/common/errors.rs": ("hmsg", "P06"), "device/src/lib.rs": ("device", "P09,P17,P21"), "hislip/src/common/mod.rs": ("hmsg,hinit,hconf", "P06,P08"),
 "hislip/src/server/mod.rs": ("registry,hinit,accepts,hconf", "P07,P08,P23,P27"), "hislip/src/server/session/synchronous.rs": ("hsync", "P09,P10,P11,P23"),
 "hislip/src/server/session/asynchronous.rs": ("hasync", "P11,P12,P23"), "hislip/src/server/session/mod.rs": ("registry,hsync,hasync,hconf", "P07,P09,P11,P12"),
 "vxi11/src/common/xdr/basic.rs": ("xdr", "P13"), "vxi11/src/common/onc_rpc/xdr.rs": ("xdr,rpc", "P13,P15"), "vxi11/src/common/portmapper/xdr.rs": ("xdr", "P13"), "vxi11/src/common/vxi11/xdr.rs": ("xdr", "P13"),
 "vxi11/src/common/vxi11/mod.rs": ("core,setup,client", "P16,P18,P25,P26"), "vxi11/src/common/portmapper/mod.rs": ("portmap,client,setup", "P19,P20,P25"),
 "vxi11/src/common/onc_rpc/mod.rs": ("rpc,client", "P15,P20,P26"), "vxi11/src/common/onc_rpc/record.rs": ("record", "P14"),
 "vxi11/src/server/vxi11/core_service.rs": ("core,accepts,setup", "P16,P17,P18,P24,P25,P26,P27"), "vxi11/src/server/vxi11/mod.rs": ("core,setup", "P16,P18,P25"),
 "vxi11/src/server/vxi11/abort_service.rs": ("core,accepts,setup", "P16,P25,P27"), "vxi11/src/server/vxi11/intr_client.rs": ("client,core,setup", "P26"), "vxi11/src/server/portmapper.rs": ("portmap,accepts", "P19,P27"),
 "vxi11/src/client/portmapper.rs": ("client,setup", "P20,P25"), "raw/src/server/mod.rs": ("raw,accepts", "P21,P27"), "telnet/src/server/mod.rs": ("telnet,accepts", "P22,P27"),
}
CR = {"device": "lxi-device", "hislip": "lxi-hislip", "vxi11": "lxi-vxi11", "raw": "lxi-socket", "telnet": "lxi-telnet"}
def variants():
    out = {}
    for f in MAP:
        for m in re.finditer(r"enum (\w+)[^{]*\{(.*?)\n\}", open("/tmp/camp/base/" + f).read(), re.S):
            out[m[1]] = [x for x in re.findall(r"^\s*([A-Z]\w*),", m[2], re.M)]
    return out
VAR = variants()
def muts(f):
    src = open("/tmp/camp/base/" + f).read(); res = []
    cut = [(m.start(), len(src)) for m in re.finditer(r"#\[cfg\(test\)\]\nmod tests? ?\{", src)]
    if f.endswith("basic.rs"): cut = [(m.start(), src.index("\n}\n", m.start())) for m in re.finditer(r"#\[cfg\(test\)\]\nmod \w+ \{", src)]
    def add(a, b, new, why):
        if any(x <= a < y for x, y in cut): return
        ls = src.rfind("\n", 0, a) + 1; line = src[ls:src.find("\n", a)]
        st = line.strip()
        if st.startswith(("//", "log::", "#[", "use ", "pub use", "///")) or '"' in line[:a - ls] and '"' in line[b - ls:] and not st.startswith("if"): return
        # inside of a log statement?
        k = src.rfind(";", 0, a)
        if re.search(r"\blog::\w+!\s*\([^;]*$", src[max(src.rfind("log::", 0, a), 0):a]) and "log::" in src[max(0, a - 400):a] and src.rfind("log::", 0, a) > max(src.rfind(");", 0, a), 0): return
        res.append((a, b, new, why))
    R = [(r" == ", " != "), (r" != ", " == "), (r" <= ", " < "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" \+ ", " - "), (r" \| ", " & "), (r" & ", " | "),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_ok\(\)", ".is_err()"), (r"\.is_err\(\)", ".is_ok()"),
         (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\bwrapping_add\b", "wrapping_sub"), (r" \|= ", " = "), (r" &= ", " = "), (r" \+= ", " -= "), (r" -= ", " += "),
         (r" > (?=[\w(])", " >= "), (r" < (?=[\w(])", " <= ")]
    for pat, new in R:
        for m in re.finditer(pat, src): add(m.start(), m.end(), new, "op")
    for m in re.finditer(r"(?<![\w.\"'#])(0x[0-9a-fA-F]+|\d+)(?![\w.])", src): add(m.start(), m.end(), str(int(m[1], 0) + 1), "lit")
    for m in re.finditer(r"\bif (?!let\b)([^{};]+?) \{", src): add(m.start(), m.end(), f"if !({m[1]}) {{", "neg")
    for m in re.finditer(r"^[ \t]+((?!let |use |return|pub |\}|log::|#|//|mod |const )[^\n]*;)\n", src, re.M):
        if m[1].count("(") == m[1].count(")") and m[1].count("{") == m[1].count("}"): add(m.start(1), m.end(1), "", "del")
    for m in re.finditer(r"^[ \t]+((?!let |return)[^\n=]*)\?;\n", src, re.M):
        if m[1].count("(") == m[1].count(")"): add(m.start(1), m.end(1) + 2, f"let _ = {m[1]};", "ign")
    for m in re.finditer(r"\b(\w+)::([A-Z]\w*)\b(?!\s*[\({])", src):
        if m[1] in VAR and m[2] in VAR[m[1]] and len(VAR[m[1]]) > 1:
            o = [x for x in VAR[m[1]] if x != m[2]]; add(m.start(2), m.end(2), random.Random(m.start()).choice(o), "var")
    return src, res
todo = []
for f in MAP:
    if only and not any(o in f for o in only): continue
    src, res = muts(f)
    for a, b, new, why in res: todo.append((f, a, b, new, why))
random.Random(SEED).shuffle(todo)
print(len(todo), "mutants")
done = set()
os.makedirs("/tmp/camp", exist_ok=True)
OUT = "/tmp/camp/out.jsonl"
if os.path.exists(OUT):
    done = {(d["f"], d["a"], d["b"], d["new"]) for d in map(json.loads, open(OUT))}
todo = [t for t in todo if t[:4] not in done][:MAX]
q = queue.Queue(); [q.put(t) for t in todo]
lk = threading.Lock(); out = open(OUT, "a")
ENV = {**os.environ, "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "-Awarnings", "CARGO_TERM_COLOR": "never"}
def run(c, cwd, env, t):
    p = subprocess.Popen(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: o, _ = p.communicate(timeout=t); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate(); return 124, "timeout"
def passed(o): return set(re.findall(r"^test (\S+) \.\.\. ok", o, re.M))
def work(i):
    d = f"/tmp/camp/w{i}"
    if not os.path.exists(d):
        os.makedirs(d); subprocess.run(f"cp -a /tmp/camp/base {d}/repo", shell=True)
        subprocess.run(f"mkdir -p {d}/verif && cd /verif && tar c --exclude=.git --exclude=target --exclude=seeded --exclude=evidence . | tar x -C {d}/verif", shell=True)
    env = {**ENV, "CARGO_TARGET_DIR": f"{d}/target", "LXI_REPO": f"{d}/repo"}
    env2 = {**os.environ, "LXI_REPO": f"{d}/repo"}
    base = {}
    while True:
        try: f, a, b, new, why = q.get_nowait()
        except queue.Empty: return
        c = f.split("/")[0]; pk = " ".join(f"-p {x}" for x in ([CR[c]] if c != "device" else CR.values()))
        if c not in base:
            r, o = run(f"cargo test --offline {pk} --lib --tests --no-fail-fast", f"{d}/repo", env, 600); base[c] = passed(o)
        p = f"{d}/repo/{f}"; src = open(f"/tmp/camp/base/{f}").read()
        open(p, "w").write(src[:a] + new + src[b:])
        try:
            r, o = run(f"cargo test --offline {pk} --lib --tests --no-fail-fast", f"{d}/repo", env, 120)
            if "could not compile" in o: st = "NOCOMPILE"
            elif r == 124 or base[c] - passed(o): st = "TESTS"
            else:
                g, ps = MAP[f]
                r, o = run(f"python3 {d}/verif/tools/camp_one.py {g} {ps} 6", d, env2, 900)
                st = o.strip().splitlines()[-1] if o.strip() else f"rc {r}"
        finally: open(p, "w").write(src)
        ln = src.count("\n", 0, a) + 1
        e = dict(f=f, a=a, b=b, new=new, why=why, line=ln, old=src[a:b], text=src.splitlines()[ln - 1].strip(), st=st)
        with lk: out.write(json.dumps(e) + "\n"); out.flush(); print(f, ln, repr(src[a:b][:60]), "->", repr(new[:60]), st[:200], flush=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
