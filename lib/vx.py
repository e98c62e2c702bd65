"""Runs Verus on one group (one generated file) and classifies what it says."""
import json, os, re, subprocess, sys, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "target", "vx")


class Group:
    def __init__(self, name, text, render, trusted=(), default_props=(), panic_props=(), notes=(), fn_props=None, ends_props=(), exact=()):
        self.name = name
        self.text = text
        self.render = render
        self.trusted = list(trusted)
        self.default_props = list(default_props)   # properties an unlabelled failed clause counts for
        self.fn_props = fn_props or {}             # the same for single functions
        self.panic_props = list(panic_props)       # properties a failed bounds/overflow/callee-precondition counts for
        self.ends_props = list(ends_props)         # properties a loop that does not end counts for
        self.notes = list(notes)
        self.exact = list(exact)                   # names of stand-ins that say exactly what the real thing does


def fn_ranges(text):
    """[(first line, last line, name)] of the functions in a generated file, by brace matching on the markers"""
    res = []
    cur = None
    for n, l in enumerate(text.split("\n"), 1):
        m = re.match(r"\s*//@fn (.*)", l)
        if m:
            res.append([n, None, m.group(1).strip(), True])
            continue
        m = re.match(r"\s*//@end", l)
        if m and res and res[-1][1] is None:
            res[-1][1] = n
    return [r for r in res if r[1]]


def owner(text_lines, ranges, line):
    for a, b, nm, _ in ranges:
        if a <= line <= b:
            return nm, True
    for k in range(min(line, len(text_lines)) - 1, -1, -1):
        m = re.search(r"\bfn\s+(\w+)", text_lines[k])
        if m:
            return m.group(1), False
    return "?", False


LABEL = re.compile(r"/\*\s*((?:P\d\d[\s,]*)+)\*/")


def clause_labels(lines, line, col=None):
    """labels of the clause that starts at `line`, `col` (nearest label before it on this line, or above within the same spec)"""
    for k in range(line - 1, max(-1, line - 12), -1):
        m = list(LABEL.finditer(lines[k]))
        if k == line - 1 and col is not None:
            m = [x for x in m if x.start() < col] or m[:1]
        if m:
            return re.findall(r"P\d\d", m[-1].group(0) if k < line - 1 or col is not None else m[0].group(0))
        if re.match(r"\s*(ensures|requires|invariant|decreases)\b", lines[k]) or "//@fn" in lines[k]:
            break
        if k < line - 1 and lines[k].rstrip().endswith(","):
            break
    return []


UNSUP = re.compile(r"not supported|does not (yet )?support|cannot find|mismatched types|expected|unsupported|not yet", re.I)


def verus(path, extra=(), timeout=420):
    cmd = ["verus", "--output-json", "--time", "--multiple-errors", "8", "--num-threads", "4", path, *extra, "--", "--error-format=json"]
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
        out, err = p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return None, [], time.time() - t, cmd
    try:
        js = json.loads(out)
    except Exception:
        js = None
    diags = []
    for l in err.split("\n"):
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except Exception:
                continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due"):
                diags.append(d)
    return js, diags, time.time() - t, cmd


def run_text(name, text, extra=()):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, name + ".rs")
    with open(path, "w") as f:
        f.write(text)
    return verus(path, extra)


PROOF_MSGS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "possible arithmetic underflow/overflow",
              "invariant not satisfied", "possible division by zero", "decreases not satisfied", "unreachable", "possible bit shift",
              "recommendation not met", "array index", "could not show", "possible", "loop invariant", "constructed value may fail", "index out of bounds",
              "panic", "failed to show", "requires clause", "ensures clause", "unable to prove", "not satisfied")


def classify(g, js, diags):
    """-> dict(status, failures)"""
    lines = g.text.split("\n")
    rng = fn_ranges(g.text)
    fails = []
    status = "ok"
    if js is None:
        return {"status": "timeout", "failures": [], "verified": 0, "errors": 0, "why": "no result from the verifier"}
    vr = js["verification-results"]
    why = ""
    for d in diags:
        msg = d["message"]
        low = msg.lower()
        sp = d["spans"]
        if "resource limit" in low or "rlimit" in low:
            status = "rlimit"
            why = msg
            fails.append({"kind": "rlimit", "msg": msg, "fn": owner(lines, rng, sp[0]["line_start"])[0] if sp else "?", "props": [], "spans": []})
            continue
        if not any(p in low for p in PROOF_MSGS) or d.get("code"):
            if status == "ok" or status == "fail":
                status = "unsupported"
            why = why or (msg + (f" (line {sp[0]['line_start']}: {sp[0]['text'][0]['text'].strip()[:120]})" if sp and sp[0]["text"] else ""))
            fails.append({"kind": "unsupported", "msg": msg, "fn": owner(lines, rng, sp[0]["line_start"])[0] if sp else "?", "props": [], "spans": [
                (s["line_start"], s["text"][0]["text"].strip() if s["text"] else "") for s in sp]})
            continue
        labels = []
        prim = [s for s in sp if s["is_primary"]] or sp
        sec = [s for s in sp if not s["is_primary"]]
        # postcondition: the primary span is the clause; precondition: the secondary span is the callee's clause
        if "precondition" in low:
            clause = sec[0] if sec else prim[0]
            where = prim[0]
        else:
            clause = prim[0]
            where = sec[0] if ("postcondition" in low and sec) else prim[0]
        in_file = [s for s in sp if s["file_name"].endswith(g.name + ".rs")]
        if clause["file_name"].endswith(g.name + ".rs"):
            labels = clause_labels(lines, clause["line_start"], clause["column_start"] - 1)
        wl = [s for s in in_file]
        fn = owner(lines, rng, (where if where in wl else (wl[0] if wl else where))["line_start"])
        kind = "panic" if ("overflow" in low or "index" in low or "division" in low or "shift" in low or "unreachable" in low
                           or "panic" in low or ("precondition" in low and not labels)) else "clause"
        if "decreases" in low and g.ends_props:
            props = g.ends_props
        elif labels:
            props = labels
        elif kind == "panic":
            props = g.panic_props or g.default_props
        else:
            props = g.fn_props.get(fn[0], g.default_props)
        if status == "ok":
            status = "fail"
        fails.append({"kind": kind, "msg": msg, "fn": fn[0], "source_fn": fn[1], "props": list(props),
                      "spans": [(s["file_name"].rsplit("/", 1)[-1], s["line_start"], s.get("label") or "", s["text"][0]["text"].strip() if s["text"] else "") for s in sp]})
    if vr.get("encountered-vir-error") and status in ("ok", "fail"):
        status = "unsupported"
        why = why or "the generated file is outside the verifier's language"
    if not vr.get("success") and status == "ok":
        status = "unsupported"
        why = "the verifier did not succeed and gave no failed obligation"
    return {"status": status, "failures": fails, "verified": vr.get("verified", 0), "errors": vr.get("errors", 0), "why": why}


def smt_ms(js):
    try:
        t = js["times-ms"]
        return t.get("smt", {}).get("total", 0) or t.get("total-verify", 0)
    except Exception:
        return 0


def vacuity_text(g):
    """the same file with assert(false) as the first statement of each function taken from the source"""
    return re.sub(r"/\*@body\*/", "assert(false);", g.text)


def count_clauses(text):
    return len(re.findall(r"\b(ensures|requires|invariant)\b", text))
