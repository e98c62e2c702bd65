"""Bounded native harness: compiles /repo's current sources together with /verif/harness/src/<name>.rs and runs it.
It is used to find and replay failing inputs against the real code; it is never counted as proof."""
import fcntl, json, os, re, shutil, subprocess, time
import rx

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(V, "harness")
T = os.path.join(V, "target", "native")
# crates whose private items the harness needs are compiled in, module by module, from /repo
ROOTED = {"hislip": "hislip", "vxi11": "vxi11"}


def widen(rel):
    """the source text with every item, inherent method and named field made visible (nothing else is touched)"""
    f = rx.File(rel, raw=True)
    T = f.toks
    ins = []

    def visit(items, inherent=True):
        for it in items:
            if it.is_test():
                continue
            if it.vis == it.head and it.kind in ("fn", "struct", "enum", "const", "static", "type", "mod", "trait") and inherent:
                ins.append(T[it.head].s)
            if it.kind == "impl":
                visit(it.members, " for " not in it.header and "macro_rules" not in it.header)
            elif it.kind == "mod" and it.body is not None:
                visit(it.members)
            elif it.kind == "struct" and it.body is not None:
                i, hi = it.body + 1, f.m[it.body]
                while i < hi:
                    while T[i].t == "#":
                        i = f.m[i + 1] + 1
                    if T[i].k == "id" and T[i].t != "pub" and T[i + 1].t == ":":
                        ins.append(T[i].s)
                    # next field: skip to the comma outside of <>
                    d = 0
                    while i < hi and not (T[i].t == "," and d <= 0):
                        if T[i].t in rx.OPEN:
                            i = f.m[i]
                        elif T[i].t == "<":
                            d += 1
                        elif T[i].t == ">":
                            d -= 1
                        elif T[i].t == ">>":
                            d -= 2
                        i += 1
                    i += 1
    visit(f.items)
    src = f.src
    for p in sorted(ins, reverse=True):
        src = src[:p] + "pub " + src[p:]
    return src


def modules(crate, dst):
    """the crate's lib.rs as the root of a program: `mod x;` become #[path] modules, the rest is verbatim"""
    src = os.path.join(rx.REPO, crate, "src")
    root = os.path.join(dst, "crate")
    for dp, dn, fs in os.walk(src):
        for n in fs:
            if n.endswith(".rs"):
                rel = os.path.relpath(os.path.join(dp, n), rx.REPO)
                o = os.path.join(root, os.path.relpath(os.path.join(dp, n), src))
                os.makedirs(os.path.dirname(o), exist_ok=True)
                open(o, "w").write(widen(rel))
    f = rx.File(os.path.join(crate, "src", "lib.rs"), raw=True)
    out = []
    for it in f.items:
        attrs = "\n".join(it.attrs)
        body = f.src[f.toks[it.vis].s:f.toks[it.hi - 1].e]
        if it.kind == "mod" and it.body is None:
            p = os.path.join(root, it.name + ".rs")
            if not os.path.exists(p):
                p = os.path.join(root, it.name, "mod.rs")
            out.append(f'{attrs}\n#[path = "{p}"]\n{body}')
        else:
            out.append(f"{attrs}\n{body}")
    return "\n".join(out) + "\n"


def prepare(name):
    d = os.path.join(T, "pkg_" + name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src"))
    ct = open(os.path.join(H, "Cargo.toml")).read().replace('"/repo/', f'"{rx.REPO}/')
    extra = ("lxi-socket", "lxi-telnet", "lxi-hislip", "lxi-vxi11", "libtelnet-rs")
    drop = {"net": ()}.get(name, extra)
    for x in drop:
        ct = re.sub(rf"^{x} = .*\n", "", ct, flags=re.M)
    ct = ct.replace('name = "lxinat"', f'name = "nat_{name}"')
    open(os.path.join(d, "Cargo.toml"), "w").write(ct)
    shutil.copy(os.path.join(rx.REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    pre = "#![allow(warnings)]\n"
    if name in ROOTED:
        main = pre + modules(ROOTED[name], d) + f'#[path = "{H}/src/common.rs"]\n#[macro_use]\npub mod common_h;\n#[path = "{H}/src/{name}.rs"]\nmod harness;\nfn main() {{ harness::main() }}\n'
    else:
        main = open(os.path.join(H, "src", name + ".rs")).read().replace('#[path = "common.rs"]', f'#[path = "{H}/src/common.rs"]')
    open(os.path.join(d, "src", "main.rs"), "w").write(main)
    return d


def build(name):
    d = prepare(name)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(T, "build"), RUSTFLAGS="-Awarnings",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    os.makedirs(T, exist_ok=True)
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=env, capture_output=True, text=True, timeout=600)
    if p.returncode:
        return None, p.stderr[-3000:]
    return os.path.join(T, "build", "debug", "nat_" + name), ""


SECS = {"quick": 12, "thorough": 120}


def run(name, prop, tier, seed):
    try:
        b, err = build(name)
    except rx.Lost as e:
        return {"status": "unavailable", "why": str(e)}
    except subprocess.TimeoutExpired:
        return {"status": "unavailable", "why": "build took too long"}
    if b is None:
        return {"status": "unavailable", "why": "does not compile: " + err}
    cmd = [b, prop, tier, str(seed), str(SECS[tier])]
    # a scratch directory as the working directory, and an output file, so that nothing can block on a pipe
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=300 if tier == "quick" else 700, errors="replace", env=dict(os.environ, RUST_BACKTRACE="0"))
    except subprocess.TimeoutExpired:
        return {"status": "timeout", "why": "the harness did not finish", "cmd": " ".join(cmd)}
    m = re.findall(r"^RESULT (\{.*\})$", p.stdout, re.M)
    if not m:
        return {"status": "unavailable", "why": f"no result, exit {p.returncode}: {p.stderr[-500:]}", "cmd": " ".join(cmd)}
    r = json.loads(m[0])
    r["cmd"] = " ".join(cmd)
    return r
