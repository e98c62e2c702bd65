"""Mechanical extraction of Rust items from /repo's current source.

A small Rust lexer + item parser.  Everything that ends up in a verified file is a slice of
the source text of /repo with *edits* applied; the edits are the ones listed in
`EDIT_KINDS` and each group may add named textual rewrites (also recorded).
Nothing here knows what the code is supposed to do.
"""
import os, re

REPO = os.environ.get("LXI_REPO", "/repo")


class Lost(Exception):
    """An anchor (item, function, loop) that a contract is attached to is not in the source."""


class Tok:
    __slots__ = ("k", "t", "s", "e")

    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e = k, t, s, e

    def __repr__(self):
        return f"{self.t!r}"


_ID = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z0-9_]*")
_NUM = re.compile(r"[0-9](?:[0-9A-Za-z_]|\.(?=[0-9]))*")
_P3 = ("..=", "...", "<<=", ">>=")
_P2 = ("::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "..")


def lex(src):
    toks, comments = [], []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            comments.append((i, j))
            i = j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            comments.append((i, j))
            i = j
            continue
        m = re.compile(r'(?:b|c|br|cr|r)?(#*)"').match(src, i)
        if m and (src[i] == '"' or m.group(0)[0] in "bcr"):
            pre = m.group(0)
            raw = "r" in pre.split('"')[0].split("#")[0]
            if raw:
                end = '"' + m.group(1)
                j = src.find(end, m.end())
                j = n if j < 0 else j + len(end)
                toks.append(Tok("lit", src[i:j], i, j))
                i = j
                continue
            if not m.group(1):
                j = m.end()
                while j < n and src[j] != '"':
                    j += 2 if src[j] == "\\" else 1
                j += 1
                toks.append(Tok("lit", src[i:j], i, j))
                i = j
                continue
        if c == "'" or (c == "b" and i + 1 < n and src[i + 1] == "'"):
            q = i + (1 if c == "b" else 0)
            m = re.compile(r"'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^\\'])'", re.S).match(src, q)
            if m:
                toks.append(Tok("lit", src[i:m.end()], i, m.end()))
                i = m.end()
                continue
            m = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*").match(src, i)
            toks.append(Tok("life", m.group(0), i, m.end()))
            i = m.end()
            continue
        m = _ID.match(src, i)
        if m:
            toks.append(Tok("id", m.group(0), i, m.end()))
            i = m.end()
            continue
        m = _NUM.match(src, i)
        if m:
            toks.append(Tok("num", m.group(0), i, m.end()))
            i = m.end()
            continue
        for p in _P3:
            if src.startswith(p, i):
                break
        else:
            for p in _P2:
                if src.startswith(p, i):
                    break
            else:
                p = c
        toks.append(Tok("p", p, i, i + len(p)))
        i += len(p)
    return toks, comments


OPEN = {"(": ")", "[": "]", "{": "}"}


class Item:
    """kind, name, key; token indices: lo..hi (whole), head_lo (after attrs+vis), body (index of '{') or None"""

    def __init__(self, f, kind, name, attrs, lo, vis, head, hi, body):
        self.f, self.kind, self.name, self.attrs = f, kind, name, attrs
        self.lo, self.vis, self.head, self.hi, self.body = lo, vis, head, hi, body
        self.members = []
        self.parent = None

    @property
    def header(self):
        end = self.body if self.body is not None else self.hi
        return norm(self.f.toks[self.head:end])

    def text(self):
        return self.f.src[self.f.toks[self.lo].s:self.f.toks[self.hi - 1].e]

    def line(self):
        return self.f.src.count("\n", 0, self.f.toks[self.head].s) + 1

    def is_test(self):
        return any(re.search(r"cfg\s*\(\s*(test|lxi_verif)\b", a) or re.search(r"#\[(async_std::)?test\]", a) for a in self.attrs)


def norm(toks):
    out = ""
    for t in toks:
        if out and (out[-1].isalnum() or out[-1] == "_") and (t.t[0].isalnum() or t.t[0] in "_'"):
            out += " "
        elif t.t in ("for", "where") or out.endswith(("for", "where")):
            out += " "
        out += t.t
    return out


class File:
    def __init__(self, path, src=None, raw=False):
        self.path = path
        if src is None:
            p = os.path.join(REPO, path)
            if not os.path.exists(p):
                raise Lost(f"file {path} is gone")
            src = open(p).read()
            if not raw:
                src = inline_new(path, src)
        self.src = src
        self.toks, self.comments = lex(self.src)
        self._match()
        self.items = self._items(0, len(self.toks))

    def _match(self):
        self.m = {}
        st = []
        for i, t in enumerate(self.toks):
            if t.k == "p":
                if t.t in OPEN:
                    st.append(i)
                elif t.t in (")", "]", "}"):
                    if st:
                        j = st.pop()
                        self.m[j] = i
                        self.m[i] = j
        if st:
            raise Lost(f"{self.path}: unbalanced delimiters")

    def skip_to(self, i, stops, hi=None):
        """first index >= i at this nesting level whose token text is in stops"""
        hi = len(self.toks) if hi is None else hi
        while i < hi:
            t = self.toks[i]
            if t.k == "p":
                if t.t in stops:
                    return i
                if t.t in OPEN:
                    i = self.m[i] + 1
                    continue
            elif t.t in stops:
                return i
            i += 1
        return hi

    def _items(self, i, hi):
        res = []
        T = self.toks
        while i < hi:
            lo = i
            attrs = []
            while i < hi and T[i].t == "#":
                j = i + 1
                if T[j].t == "!":
                    j += 1
                e = self.m[j]
                attrs.append(self.src[T[i].s:T[e].e])
                inner = T[i + 1].t == "!"
                i = e + 1
                if inner:
                    lo = i
                    attrs.pop()
            if i >= hi:
                break
            vis = i
            if T[i].t == "pub":
                i += 1
                if i < hi and T[i].t == "(" and T[i + 1].t in ("crate", "super", "self", "in"):
                    i = self.m[i] + 1
            head = i
            k = i
            while k < hi and T[k].t in ("async", "unsafe", "extern", "default", "const") or (k < hi and T[k].k == "lit" and T[k - 1].t == "extern"):
                if T[k].t == "const" and T[k + 1].t not in ("fn", "unsafe", "async", "extern"):
                    break
                k += 1
            kw = T[k].t
            if kw == "fn":
                name = T[k + 1].t
                b = self.skip_to(k, ("{", ";"), hi)
                if T[b].t == "{":
                    e = self.m[b] + 1
                    it = Item(self, "fn", name, attrs, lo, vis, head, e, b)
                else:
                    e = b + 1
                    it = Item(self, "fn", name, attrs, lo, vis, head, e, None)
            elif kw in ("impl", "trait", "mod"):
                b = self.skip_to(k, ("{", ";"), hi)
                name = T[k + 1].t
                if T[b].t == "{":
                    e = self.m[b] + 1
                    it = Item(self, kw, name, attrs, lo, vis, head, e, b)
                    it.members = self._items(b + 1, e - 1)
                    for mb in it.members:
                        mb.parent = it
                else:
                    e = b + 1
                    it = Item(self, kw, name, attrs, lo, vis, head, e, None)
            elif kw in ("struct", "enum", "union"):
                b = self.skip_to(k, ("{", ";"), hi)
                e = (self.m[b] if T[b].t == "{" else b) + 1
                it = Item(self, kw, T[k + 1].t, attrs, lo, vis, head, e, b if T[b].t == "{" else None)
            elif kw in ("use", "const", "static", "type", "let"):
                b = self.skip_to(k, (";",), hi)
                e = b + 1
                it = Item(self, kw, T[k + 1].t if kw != "use" else self.src[T[k].s:T[b].e], attrs, lo, vis, head, e, None)
            elif kw == "macro_rules":
                b = self.skip_to(k + 3, ("{", "(", "["), hi)
                e = self.m[b] + 1
                if e < hi and T[e].t == ";":
                    e += 1
                it = Item(self, "macro", T[k + 2].t, attrs, lo, vis, head, e, b)
            elif T[k].k == "id" and k + 1 < hi and T[k + 1].t == "!":
                b = self.skip_to(k + 2, ("{", "(", "["), hi)
                e = self.m[b] + 1
                if e < hi and T[e].t == ";":
                    e += 1
                it = Item(self, "maccall", T[k].t, attrs, lo, vis, head, e, b)
            elif kw == "extern":
                b = self.skip_to(k, (";", "{"), hi)
                e = (self.m[b] if T[b].t == "{" else b) + 1
                it = Item(self, "extern", "", attrs, lo, vis, head, e, None)
            else:
                i = k + 1
                continue
            res.append(it)
            i = e
        return res

    # ---- lookups -------------------------------------------------------
    def find(self, kind, name=None, header=None, opt=False):
        c = [x for x in self.items if x.kind == kind and not x.is_test()
             and (name is None or x.name == name) and (header is None or x.header == nrm(header))]
        if len(c) != 1:
            if opt and not c:
                return None
            raise Lost(f"{self.path}: expected one {kind} {name or header}, found {len(c)}")
        return c[0]

    def impls(self, pred):
        return [x for x in self.items if x.kind == "impl" and not x.is_test() and pred(x.header)]


def nrm(s):
    return norm(lex(s)[0])


class Contract:
    """What a group attaches to one function of the source."""

    def __init__(self, spec="", ret="r", loops=None, pre="", post_open="", rw=None, attrs="", sig=None, drop_body=None,
                 anchors=None, external=False, mono=None):
        self.mono = mono or []    # [(trait, concrete type)]: a generic parameter bounded by the trait becomes the concrete type
        self.spec = spec          # requires/ensures text
        self.ret = ret
        self.loops = loops or []  # list of (kind, invariant text[, ghost iter name])
        self.pre = pre            # proof text at the start of the body
        self.rw = rw or []        # [(regex, replacement, required)]
        self.attrs = attrs
        self.sig = sig            # [(regex, replacement)] on the signature
        self.anchors = anchors or []  # [(regex in source body, 'before'|'after', text)]
        self.external = external


KW = {"if", "while", "for", "match", "return", "loop", "in", "let", "mut", "ref", "move", "else", "Some", "None", "Ok", "Err", "await", "as"}
LOGM = {"trace", "debug", "info", "warn", "error", "log"}


class Render:
    """Collects rendered text plus bookkeeping of what was done to it."""

    def __init__(self, group):
        self.group = group
        self.functions = []      # (qualified name, file, line, contracted?)
        self.flags = []          # structural deviations: reasons why a failing proof is not a verdict
        self.dropped = []        # text dropped by extraction
        self.rewrites = []       # textual rewrites applied
        self.external = []
        self.elsewhere = {}      # external functions whose contract another group proves
        self.calls = {}
        self.plain_loops = set()  # functions whose loops are annotated with nothing but invariants: `continue` is an ordinary jump
        self.cur = None

    def flag(self, s, fn=None):
        """a structural deviation; fn: the function it concerns (None: all of the group)"""
        fn = fn or self.cur
        if (fn, s) not in self.flags:
            self.flags.append((fn, s))

    # -- text helpers
    def clean(self, f, lo, hi, edits, keep_attrs=()):
        """source slice of tokens lo..hi with comments, attributes, visibility and log macros removed, plus edits"""
        T = f.toks
        if lo >= hi:
            return ""
        s, e = T[lo].s, T[hi - 1].e
        ed = list(edits)
        for a, b in f.comments:
            if a >= s and b <= e:
                ed.append((a, b, " "))
        i = lo
        while i < hi:
            t = T[i]
            if t.t == "#" and i + 1 < hi and T[i + 1].t == "[":
                ee = f.m[i + 1]
                ed.append((t.s, T[ee].e, ""))
                i = ee + 1
                continue
            if t.t == "pub" and t.k == "id":
                ee = i
                if T[i + 1].t == "(" and T[i + 2].t in ("crate", "super", "self", "in"):
                    ee = f.m[i + 1]
                ed.append((t.s, T[ee].e, ""))
                i = ee + 1
                continue
            if (t.t == "log" and i + 4 < hi and T[i + 1].t == "::" and T[i + 2].t in LOGM and T[i + 3].t == "!"):
                ee = f.m[i + 4]
                d = f.src[t.s:T[ee].e]
                # arguments that can leave the function are kept (they are evaluated only if the level is enabled)
                keep, parts, k = [], [], i + 5
                while k < ee:
                    z = f.skip_to(k, (",", ";"), ee)
                    parts.append(src_of(f, k, z).strip())
                    k = z + 1
                for a in parts:
                    a = re.sub(r"^\w+\s*=(?!=)\s*", "", a)
                    if a.endswith("?"):
                        keep.append(a)
                        d = d.replace(a, "0", 1)
                if keep:
                    ed.append((t.s, T[ee].e, "if vx_logging() { " + " ".join(f"let _ = {a};" for a in keep) + " }"))
                    i = ee + 1
                    if not re.search(r"[^=!<>]=[^=]|\.await|\?\s*[,;)]|\b(push|pop|take|insert|remove|lock|next|write\w*|read\w*|send\w*)\s*\(", strip_kv(d) + "".join(keep).replace("?", "")):
                        continue
                else:
                    ed.append((t.s, T[ee].e, "()"))
                if re.search(r"[^=!<>]=[^=]|\.await|\?\s*[,;)]|\b(push|pop|take|insert|remove|lock|next|write\w*|read\w*|send\w*)\s*\(", strip_kv(d)):
                    self.flag(f"log statement with a possible effect: {d[:60]}")
                i = ee + 1
                continue
            i += 1
        return apply(f.src, s, e, ed)

    def fn(self, it, c, qual=None, rename=None):
        """render one function with contract c (Contract or None)"""
        f, T = it.f, it.f.toks
        qual = qual or it.name
        self.functions.append((qual, f.path, it.line(), c is not None))
        self.cur = qual
        try:
            return self._fn(it, c, qual)
        finally:
            self.cur = None

    def _fn(self, it, c, qual):
        f, T = it.f, it.f.toks
        if c is None:
            self.flag(f"function {qual} has no contract")
            c = Contract()
        ed = []
        body = it.body
        # signature: name the result
        sig_end = body if body is not None else it.hi - 1
        arrow = None
        j = it.head
        while j < sig_end:
            if T[j].t in OPEN:
                j = f.m[j] + 1
                continue
            if T[j].t == "->":
                # skip closures types in where clauses: the first arrow after the argument list
                arrow = j
                break
            if T[j].t == "where":
                break
            j += 1
        if arrow is not None and c.ret:
            w = arrow + 1
            depth = 0
            while w < sig_end and not (T[w].t == "where" and depth == 0):
                if T[w].t in OPEN:
                    w = f.m[w] + 1
                    continue
                w += 1
            ed.append((T[arrow + 1].s, T[arrow + 1].s, f"({c.ret}: "))
            ed.append((T[w - 1].e, T[w - 1].e, ")"))
        sig = self.clean(f, it.head, sig_end, ed) if sig_end > it.head else ""
        for a, b, *must in (c.sig or []):
            n2 = re.sub(a, b, sig)
            if n2 == sig and must == [False]:
                continue
            if n2 == sig:
                self.flag(f"signature of {qual} changed")
            else:
                self.rewrites.append(f"{qual}: signature {a} -> {b}")
            sig = n2
        subs = []
        for tr, ty in c.mono:
            for g in sorted(set(re.findall(r"\b([A-Z]\w*)\s*:\s*(?:\w+\s*\+\s*)*" + tr + r"\b", sig))):
                # the bound (in the generics or the where clause) goes, the parameter becomes the concrete stand-in
                sig = re.sub(r"\b%s\s*:\s*[^,>{]*(,|(?=>)|$)" % g, "", sig.rstrip())
                subs.append((g, ty))
        if subs:
            sig = re.sub(r"\bwhere\s*$", "", sig.rstrip())
            for g, ty in subs:
                sig = re.sub(r"<\s*%s\s*,?\s*>\s*\(" % g, "(", sig, count=1)
                sig = re.sub(r"<\s*%s\s*,\s*" % g, "<", sig, count=1)
                sig = re.sub(r",\s*%s\s*>\s*\(" % g, ">(", sig, count=1)
                sig = re.sub(r"\b%s\b" % g, ty, sig)
                self.rewrites.append(f"{qual}: generic {g} -> {ty}")
        mself = re.search(r"\(\s*mut self\b", sig)
        if mself:
            sig = re.sub(r"\(\s*mut self\b", "(self", sig)
            self.rewrites.append(f"{qual}: `mut self` rebound with `let mut`")
        muts = []
        if re.search(r"\basync\s+fn\b", sig):
            muts = re.findall(r"[(,]\s*mut (\w+)\s*:", sig)
            if muts:
                sig = re.sub(r"([(,]\s*)mut (\w+)(\s*:)", r"\1\2\3", sig)
                self.rewrites.append(f"{qual}: parameters rebound with `let mut`: {muts}")
        spec = c.spec.strip()
        if spec:
            if re.search(r"\bwhere\b", sig) and not sig.rstrip().endswith(","):
                sig = sig.rstrip() + ","
            sig = sig + "\n    " + spec + "\n"
        out = f"//@fn {qual}\n" + (c.attrs + "\n" if c.attrs else "")
        if c.external:
            out += "#[verifier::external_body]\n"
            self.external.append(qual)
        out += sig
        if body is None:
            return out + ";\n//@end\n"
        if c.external:
            return out + "{ unimplemented!() }\n//@end\n"
        b = self.body(it, c, qual)
        if mself:
            b = re.sub(r"\bself\b", "vx_self", b).replace("/*@body*/", "let mut vx_self = self; /*@body*/", 1)
        if muts:
            b = b.replace("/*@body*/", " ".join(f"let mut {m} = {m};" for m in muts) + "/*@body*/", 1)
        for g, ty in subs:
            b = re.sub(r"\b%s\b" % g, ty, b)
        out += b
        calls = self.calls_of(it)
        # what the rewriting has turned into match expressions is accounted for
        g = File("<body>", "fn x() " + b)
        left = self.calls_of(next(x for x in g.items if x.kind == "fn"))
        calls -= {x for x in COMB + ("closure",) if x not in left}
        self.calls[qual] = sorted(calls)
        return out + "\n//@end\n"

    def calls_of(self, it):
        """names that the body calls (functions, methods, macros): what a proof of it depends on"""
        f, T = it.f, it.f.toks
        res = set()
        for i in range(it.body, f.m[it.body]):
            if T[i].k == "id" and T[i + 1].t in ("(", "!") and T[i].t not in KW:
                if T[i + 1].t == "!" and (T[i + 2].t not in OPEN or T[i].t in LOGM):
                    continue
                res.add(T[i].t)
            elif T[i].k == "id" and T[i + 1].t == "::" and T[i + 2].t == "<":
                res.add(T[i].t)
            elif T[i].t in ("|", "||") and T[i - 1].t in ("(", ",", "=", "move", "{"):
                res.add("closure")
            elif T[i].t in ("unsafe", "break", "continue") or T[i].k == "life":
                res.add(T[i].t)
            # bit operations that the solver knows nothing about without a lemma
            elif T[i].t == "^":
                res.add("operator ^")
            elif T[i].t == "<" and T[i + 1].t == "<" and T[i - 1].k == "num" and T[i + 2].k == "num" and T[i - 2].t not in TIGHT and T[i + 3].t not in TIGHT:
                pass          # folded (SHL)
            elif T[i].t in ("<", ">") and T[i + 1].t == T[i].t and T[i].e == T[i + 1].s and (T[i - 1].k in ("id", "num") or T[i - 1].t in (")", "]")) and (T[i + 2].k in ("id", "num") or T[i + 2].t in ("(", "=")):
                res.add("operator " + 2 * T[i].t)
            elif T[i].t == "!" and (T[i + 1].k == "num" and not re.fullmatch(NOTNUM, T[i + 1].t) or T[i + 1].t == "(" and T[i + 2].k == "num" and T[i - 1].k != "id"):
                res.add("operator ! on a number")
        return res

    def body(self, it, c, qual):
        f, T = it.f, it.f.toks
        body = it.body
        hi = f.m[body] + 1
        ed = []
        loops = find_loops(f, body + 1, hi - 1)
        if len(loops) != len(c.loops):
            self.flag(f"{qual}: {len(loops)} loops in the source, {len(c.loops)} invariants known")
        elif loops and all(lc and not any(lc[4:]) for lc in c.loops):
            self.plain_loops.add(qual)
        for (kind, kwi, inx, bi), lc in zip(loops, c.loops):
            if lc is None:
                continue
            if lc[0] != kind:
                self.flag(f"{qual}: loop kind {kind}, expected {lc[0]}")
            inv = lc[1](f, it) if callable(lc[1]) else lc[1]
            ed.append((T[bi].s, T[bi].s, "\n" + inv + "\n"))
            if kind == "for" and len(lc) > 2 and lc[2]:
                ed.append((T[inx + 1].s, T[inx + 1].s, lc[2] + ": "))
            elif kind != "for" and len(lc) > 2 and lc[2]:
                ed.append((T[kwi].s, T[kwi].s, lc[2] + "\n"))
            if len(lc) > 3 and lc[3]:
                ed.append((T[bi].e, T[bi].e, "\n" + lc[3] + "\n"))
            if len(lc) > 4 and lc[4]:
                e = f.m[bi]
                ed.append((T[e].s, T[e].s, "\n" + lc[4] + "\n"))
        s0, e0 = T[body].s, T[hi - 1].e
        for pat, where, text in c.anchors:
            ms = list(re.finditer(pat, f.src[s0:e0]))
            if not ms:
                self.flag(f"{qual}: proof anchor /{pat}/ not found")
                continue
            for m in ms:
                pos = s0 + (m.start() if where == "before" else m.end())
                ed.append((pos, pos, text))
        ed.append((T[body].e, T[body].e, "/*@body*/\n" + (c.pre + "\n" if c.pre else "")))
        txt = self.clean(f, body, hi, ed)
        txt = re.sub(r'\bb"((?:[^"\\]|\\.)*)"', bytestr, txt)   # the verifier does not know the contents of byte string literals
        txt = re.sub(r"(?<![\w)\]])!\s*" + NOTNUM + r"(?!\w)", lambda m: f"{~int(m[1].replace('_', ''), 0) & (1 << int(m[2])) - 1}u{m[2]}", txt)
        txt = re.sub(SHL, lambda m: f"{int(m[1].replace('_', '')) << int(m[3])}{m[2] or ''}", txt)
        txt = re.sub(BOOLOP, lambda m: f"if {m[3].strip()} {{ {m[1]} = true; }}" if m[2] == "|" else f"if !({m[3].strip()}) {{ {m[1]} = false; }}", txt)
        for r in list(c.rw) + ([] if combinators in c.rw else [combinators]):
            if callable(r):
                n2 = r(txt)
                if n2 != txt:
                    self.rewrites.append(f"{qual}: {r.__doc__ or r.__name__}")
                txt = n2
                continue
            a, b = r[0], r[1]
            n2 = re.sub(a, b, txt, flags=re.S)
            if n2 == txt:
                if len(r) < 3 or r[2]:
                    self.flag(f"{qual}: rewrite /{a}/ does not apply")
            else:
                self.rewrites.append(f"{qual}: {a} -> {b}")
            txt = n2
        return txt


# shifts of number literals
TIGHT = ("+", "-", "*", "/", "%", "as", "!", ".")
NOTNUM = r"(0x[\da-fA-F_]+?|\d[\d_]*?)_?u(8|16|32|64)"
SHL = r"(?<![\w.])(?<![+*/%!-] )(?<![+*/%!-])(\d[\d_]*?)_?([iu](?:\d+|size))?\s*<<\s*(\d+)(?:[iu](?:\d+|size))?(?!\s*(?:[+*/%.-]|as\b)|\w)"
# `a |= b;` of truth values, which the verifier does not know
BOOLOP = r"(?<![\w.])([\w.]+)\s*([|&])=\s*((?=[^;]*(?:==|!=|&&|\|\||\bis_\w+\(|\bhas_\w+|\btrue\b|\bfalse\b|\bmatches!))(?![^;]* as )[^;{}]+);"


def bytestr(m):
    import ast
    b = ast.literal_eval('b"' + m.group(1) + '"')
    return "&[" + ", ".join(f"{x}u8" for x in b) + "]"


def strip_kv(d):
    # drop string literals and the `key=value;` part separators of log's kv syntax
    d = re.sub(r'"(?:\\.|[^"\\])*"', '""', d, flags=re.S)
    d = re.sub(r"\b\w+\s*=(?!=)\s*", "", d)
    return d


def find_loops(f, lo, hi):
    """loops in tokens lo..hi in source order: (kind, keyword index, index of `in`, body brace index)"""
    T = f.toks
    res = []
    i = lo
    while i < hi:
        t = T[i]
        if t.k == "id" and t.t in ("loop", "while", "for"):
            if t.t == "for" and T[i + 1].t == "<":
                i += 1
                continue
            inx = None
            if t.t == "for":
                inx = f.skip_to(i, ("in",), hi)
                if inx >= hi:
                    i += 1
                    continue
                b = f.skip_to(inx, ("{",), hi)
            else:
                b = f.skip_to(i, ("{",), hi)
            res.append((t.t, i, inx, b))
        i += 1
    return res


def apply(src, s, e, edits):
    ed = [x for x in edits if x[0] >= s and x[1] <= e]
    # drop edits nested in a removed region
    rem = [(a, b) for a, b, r in ed if b > a]
    out, pos = [], s
    order = sorted(range(len(ed)), key=lambda i: (ed[i][0], ed[i][1] - ed[i][0] > 0, i))
    for i in order:
        a, b, r = ed[i]
        if a < pos and not (a == b == pos):
            continue
        if any(x < a and b <= y and (x, y) != (a, b) for x, y in rem):
            continue
        out.append(src[pos:a])
        out.append(r)
        pos = max(pos, b)
    out.append(src[pos:e])
    return "".join(out)


# ---- textual expansion of the repository's own macro_rules macros ----------------------------
# Verus syntax (loop invariants, contracts) is only understood in text that the verus! macro sees, so calls of the
# repository's macros are expanded before verification, by the ordinary macro_rules rules (first matching arm).

class Macro:
    def __init__(self, item):
        f, T = item.f, item.f.toks
        self.name = item.name
        self.arms = []
        i, hi = item.body + 1, f.m[item.body]
        while i < hi:
            if T[i].t == ";":
                i += 1
                continue
            pat = (i + 1, f.m[i])
            i = f.m[i] + 1
            if T[i].t != "=>":
                raise Lost(f"macro {item.name}: unexpected form")
            i += 1
            body = (i + 1, f.m[i])
            i = f.m[i] + 1
            self.arms.append((parse_pat(f, *pat), body))
        self.f = f


def parse_pat(f, lo, hi):
    T, out, i = f.toks, [], lo
    while i < hi:
        if T[i].t == "$" and T[i + 1].t == "(":
            e = f.m[i + 1]
            sub = parse_pat(f, i + 2, e)
            i = e + 1
            sep = None
            if T[i].t not in ("*", "+", "?"):
                sep = T[i].t
                i += 1
            out.append(("rep", sub, sep, T[i].t))
            i += 1
        elif T[i].t == "$":
            out.append(("var", T[i + 1].t, T[i + 3].t))
            i += 4
        else:
            out.append(("tok", T[i].t))
            i += 1
    return out


def match_pat(f, pat, i, hi, pi=0):
    """-> (bindings, next index) or None"""
    T = f.toks
    b = {}
    while pi < len(pat):
        p = pat[pi]
        if p[0] == "tok":
            if i < hi and T[i].t == p[1]:
                i += 1
                pi += 1
                continue
            return None
        if p[0] == "var":
            if p[2] == "tt":
                if i >= hi:
                    return None
                e = f.m[i] + 1 if T[i].t in OPEN else i + 1
            elif p[2] in ("ident", "lifetime", "literal"):
                if i >= hi or (p[2] == "ident" and T[i].k != "id"):
                    return None
                e = i + 1
            else:
                e = f.skip_to(i, (",", ";", "=>"), hi)
                if e == i:
                    return None
            b[p[1]] = (i, e)
            i = e
            pi += 1
            continue
        # repetition
        reps = []
        while True:
            j = i
            if reps and p[2] is not None:
                if j < hi and T[j].t == p[2]:
                    j += 1
                else:
                    break
            if j >= hi:
                break
            m = match_pat(f, p[1], j, hi)
            if m is None or m[1] == j:
                break
            reps.append(m[0])
            i = m[1]
        if p[3] == "+" and not reps:
            return None
        b[("rep", id(p))] = reps
        for nm in pat_vars(p[1]):
            b[nm] = [r[nm] for r in reps]
        pi += 1
    return b, i


def pat_vars(pat):
    for p in pat:
        if p[0] == "var":
            yield p[1]
        elif p[0] == "rep":
            yield from pat_vars(p[1])


def expand_call(mac, f, lo, hi):
    """text of the expansion of mac applied to tokens lo..hi (the inside of the delimiters) of file f"""
    for pat, body in mac.arms:
        m = match_pat(f, pat, lo, hi)
        if m is None or m[1] != hi:
            continue
        return subst(mac.f, body[0], body[1], m[0], f)
    raise Lost(f"macro {mac.name}: no arm matches")


def src_of(f, lo, hi):
    return f.src[f.toks[lo].s:f.toks[hi - 1].e] if hi > lo else ""


def subst(mf, lo, hi, b, f):
    T = mf.toks
    if lo >= hi:
        return ""
    out, pos, i = [], T[lo].s, lo
    while i < hi:
        if T[i].t == "$" and T[i + 1].t == "(":
            e = mf.m[i + 1]
            out.append(mf.src[pos:T[i].s])
            k = e + 1
            sep = ""
            if T[k].t not in ("*", "+", "?"):
                sep = T[k].t
                k += 1
            names = {T[x + 1].t for x in range(i + 2, e) if T[x].t == "$"}
            n = max((len(b[x]) for x in names if isinstance(b.get(x), list)), default=0)
            parts = []
            for r in range(n):
                bb = dict(b)
                for x in names:
                    if isinstance(b.get(x), list):
                        bb[x] = b[x][r]
                parts.append(subst(mf, i + 2, e, bb, f))
            out.append((sep + " ").join(parts))
            pos = T[k].e
            i = k + 1
            continue
        if T[i].t == "$" and T[i + 1].t in b and not isinstance(b[T[i + 1].t], list):
            out.append(mf.src[pos:T[i].s])
            a, e = b[T[i + 1].t]
            x = src_of(f, a, e)
            # an expr fragment is one expression, whatever it is put next to
            out.append(f"({x})" if f.toks[a].t in ("&", "*", "-", "!") else x)
            pos = T[i + 1].e
            i += 2
            continue
        i += 1
    out.append(mf.src[pos:T[hi - 1].e])
    return "".join(out)


# ---- functions and constants that the unchanged tree does not have are put where they are used -----------------------
NAMES = None          # {file: {"fn": [..], "const": [..]}} of the unchanged tree (groups/names.json)
_crate = {}
INLINED = []          # what was put in place: the evidence reports it
INTS = r"(?:[iu](?:8|16|32|64|128|size)|bool)"


def scan_names(f):
    T = f.toks
    fns = {T[i + 1].t for i in range(len(T) - 1) if T[i].t == "fn" and T[i + 1].k == "id"}
    cs = {T[i + 1].t for i in range(len(T) - 2) if T[i].t == "const" and T[i + 1].k == "id" and T[i + 2].t == ":" and T[i - 1].t not in ("<", ",")}
    cl = {T[i + 1].t for i in range(len(T) - 3) if T[i].t == "let" and T[i + 1].k == "id" and T[i + 2].t == "=" and T[i + 3].t in ("|", "||", "move")}
    ca = {T[i].t for i in range(len(T) - 1) if T[i].k == "id" and T[i + 1].t == "(" and T[i].t not in KW}
    return {"call": sorted(ca), "fn": sorted(fns), "const": sorted(cs), "closure": sorted(cl)}


def _split(f, lo, hi, sep=","):
    """top-level pieces of a token range"""
    T, out, a, k, d = f.toks, [], lo, lo, 0
    while k < hi:
        if T[k].t in OPEN:
            k = f.m[k]
        elif T[k].t == "<":
            d += 1
        elif T[k].t == ">" and d:
            d -= 1
        elif T[k].t == sep and d == 0:
            out.append((a, k)); a = k + 1
        k += 1
    if a < hi:
        out.append((a, hi))
    return out


def _unreturn(txt):
    """the text of a block without early returns of the form `if c { ..; return a; } rest`, or None"""
    f = File("<ret>", "fn x() " + txt)
    T = f.toks
    b = next(i for i, t in enumerate(T) if t.t == "{")
    if not any(T[i].t == "return" for i in range(b, f.m[b])):
        return txt
    i, lo, hi = b + 1, b + 1, f.m[b]
    start = True
    while i < hi:
        if start and T[i].t == "return":
            e = f.skip_to(i, (";",), hi)
            inner = "{" + f.src[T[b].e:T[i].s] + f.src[T[i].e:T[e].s if e < hi else T[hi].s] + "}"
            return _unreturn(inner)
        if start and T[i].t == "if":
            c = f.skip_to(i, ("{",), hi)
            e = f.m[c]
            k = e - 1
            if T[e + 1].t != "else" and any(T[x].t == "return" for x in range(c, e)):
                head = f.src[T[b].e:T[c].s]
                then = _unreturn(f.src[T[c].s:T[e].e])
                rest = _unreturn("{" + f.src[T[e].e:T[hi].s] + "}")
                return None if then is None or rest is None else "{" + head + then + " else " + rest + "}"
        if T[i].t in OPEN:
            if any(T[x].t == "return" for x in range(i, f.m[i])):
                return None
            start = T[i].t == "{"
            i = f.m[i] + 1
            continue
        start = T[i].t == ";"
        i += 1
    return None


def _unquest(txt, none):
    """the text of a block whose statements `let p = E?;` and `E?;` are matches, or None"""
    f = File("<ret>", "fn x() " + txt)
    T = f.toks
    b = next(i for i, t in enumerate(T) if t.t == "{")
    i, hi, st = b + 1, f.m[b], b + 1
    while i < hi:
        if T[i].t in OPEN:
            if any(T[x].t == "?" for x in range(i, f.m[i])):
                return None
            i = f.m[i] + 1
            if T[i - 1].t == "}" and T[i].t not in (".", "?", ";", "else") and T[i].k in ("id", "}"):
                st = i
            continue
        if T[i].t == "?":
            if T[i + 1].t != ";":
                return None
            rest = _unquest("{" + f.src[T[i + 1].e:T[hi].s] + "}", none)
            rest = rest and _unreturn(rest)
            if rest is None:
                return None
            e, pat = st, "_"
            if T[st].t == "let":
                e = f.skip_to(st, ("=",), i)
                pat, e = src_of(f, st + 1, e), e + 1
            elif T[st].t in ("return", "if", "match", "for", "while", "loop"):
                return None
            bad, good = ("None => None", "Some(vx_q)") if none else ("Err(vx_e) => Err(vx_e)", "Ok(vx_q)")
            return "{" + f.src[T[b].e:T[st].s] + "match " + f.src[T[e].s:T[i].s] + " { " + good + " => { let " + pat + " = vx_q; " + rest + " }, " + bad + " } }"
        if T[i].t == ";":
            st = i + 1
        i += 1
    return txt


class Helper:
    def __init__(self, f, i):
        """a function whose `fn` token is i, else raises ValueError"""
        T = f.toks
        self.name, self.path = T[i + 1].t, f.path
        k, self.generics = i + 2, []
        if T[k].t == "<":
            d = 0
            while True:
                d += {"<": 1, ">": -1}.get(T[k].t, 0)
                if T[k].k == "id" and T[k - 1].t in ("<", ",", "const"):
                    self.generics.append(T[k].t)
                k += 1
                if d == 0:
                    break
        if T[k].t != "(":
            raise ValueError
        self.is_async = any(T[x].t == "async" for x in range(max(0, i - 3), i))
        self.self = False
        self.params = []
        for a, b in _split(f, k + 1, f.m[k]):
            if any(T[x].t == "self" for x in range(a, min(b, a + 4))) and T[b - 1].t == "self":
                self.self = True
                self.byval = T[a].t in ("self", "mut")
                continue
            c = f.skip_to(a, (":",), b)
            if c >= b:
                raise ValueError
            self.params.append((src_of(f, a, c), src_of(f, c + 1, b)))
        b = f.skip_to(f.m[k] + 1, ("{", ";"))
        if T[b].t != "{":
            raise ValueError
        ret = src_of(f, f.m[k] + 1, b)
        m = re.match(r"\s*->\s*(.*?)\s*(?:\bwhere\b.*)?$", ret, re.S)
        self.ret = m[1] if m else "()"
        body = [T[x].t for x in range(b, f.m[b])]
        if self.name in body or "unsafe" in body or "macro_rules" in body or self.self and self.byval and False:
            raise ValueError
        self.q = "?" in body
        # closures and async blocks have their own returns
        if "return" in body and ("async" in body or "|" in body and re.search(r"[(,=]\s*(?:move\s*)?\|[^|]*\|\s*\{", src_of(f, b, f.m[b]))):
            raise ValueError
        self.noq = None
        if self.q and re.search(r"(^|::)\s*(Result|Option)\s*<", self.ret):
            self.noq = _unquest(src_of(f, b, f.m[b] + 1), "Option" in self.ret.split("<")[0])
            self.noq = self.noq and _unreturn(self.noq)
        self.body = _unreturn(src_of(f, b, f.m[b] + 1))
        if self.body is None:
            raise ValueError

    def ann(self, ty):
        ty = re.sub(r"'\w+\s*", "", ty).strip()
        if any(re.search(r"\b%s\b" % g, ty) for g in self.generics) or "impl " in ty or "dyn " in ty or "Self" in ty:
            return ""
        return f": {ty}" if re.fullmatch(INTS, ty) or re.fullmatch(r"&(?:mut )?(?:\[\s*u8\s*\]|Vec<u8>|str|%s)" % INTS, ty) else ""

    def expand(self, args, recv, n, noq=False):
        body = self.noq if noq else self.body
        if recv not in (None, "self"):
            body = re.sub(r"\bself\b", lambda m: recv, body)
        bind = []
        for k, (a, (p, t)) in enumerate(zip(args, self.params)):
            m = re.fullmatch(r"&\s*mut\s+(\w+(?:\.\w+)*)", a.strip())
            if m and re.fullmatch(r"\w+", p) and not re.search(r"\blet\s+(mut\s+)?%s\b" % p, body) and re.match(r"&\s*mut\b", t) and not re.search(r"\|[^|;]*\b%s\b[^|;]*\|" % p, body) and not re.search(r"\b%s\b" % m[1].split(".")[0], body.replace(p, "")):
                # the place itself, where it is only passed on or its methods are called
                body = re.sub(r"\*\s*%s\b(?!\s*\.)|(?<![\w.])%s\b(\s*\.|(?!\s*[:(]))?" % (p, p), lambda q: m[1] if q[0].startswith("*") else m[1] + q[1] if q[1] else f"(&mut {m[1]})", body)
                continue
            if re.fullmatch(r"\w+", a.strip()) and a.strip() != "self" and re.match(r"&\s*mut\b", t):
                a = f"&mut *{a}"
            bind.append((k, a, p, t))
        pre = "".join(f"let vx_a{n}_{k}{self.ann(t)} = {a}; " for k, a, p, t in bind)
        pre += "".join(f"let {p}{self.ann(t)} = vx_a{n}_{k}; " for k, a, p, t in bind)
        body = re.sub(r"\bcrate::(?:\w+::)*(?=[A-Z])", "", body)
        r = self.ann(self.ret)
        if self.ret == "()":
            return f"({{ {pre}{body} }})"
        if self.q and not noq:
            # followed by `?`
            g = File("<tail>", "fn x() " + body)
            b = next(i for i, t in enumerate(g.toks) if t.t == "{")
            e = g.m[b]
            if g.toks[e - 1].t == ")" and g.toks[g.m[e - 1] - 1].t == "Ok" and g.toks[g.m[e - 1] - 2].t in (";", "}", "{"):
                o = g.m[e - 1]
                tail = src_of(g, o + 1, e - 1)
                return f"({{ {pre}{g.src[g.toks[b].s:g.toks[o - 1].s]}{tail} }} }})"
            r = f": {self.ret}"
        return f"({{ {pre}let vx_r{n}{r} = {body}; vx_r{n} }})"


def crate_new(path):
    """the functions and constants of the crate of `path` that the unchanged tree does not have: ({name: Helper}, {name: text})"""
    global NAMES
    if NAMES is None:
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "groups", "names.json")
        NAMES = {}
        if os.path.exists(p):
            import json
            NAMES = json.load(open(p))
    c = path.split("/")[0]
    if c not in _crate:
        fns, cs, dup, many = {}, {}, set(), set()
        base = {k: set().union(*[set(v[k]) for q, v in NAMES.items() if q.split("/")[0] == c]) for k in ("fn", "const", "call")} if NAMES else None
        for dp, dn, fl in os.walk(os.path.join(REPO, c, "src")) if NAMES else ():
            for n in sorted(fl):
                if not n.endswith(".rs"):
                    continue
                rel = os.path.relpath(os.path.join(dp, n), REPO)
                try:
                    f = File(rel, open(os.path.join(dp, n)).read())
                except Lost:
                    continue
                T = f.toks
                tests = [(T[it.lo].s, T[it.hi - 1].e) for it in f.items if it.is_test()]
                for i in range(len(T) - 3):
                    if any(a <= T[i].s < b for a, b in tests):
                        continue
                    nm = T[i + 1].t
                    if T[i].t == "fn" and T[i + 1].k == "id" and nm not in base["fn"] and nm not in base["call"]:
                        if nm in fns or nm in many:
                            many.add(nm); fns.pop(nm, None)
                            continue
                        try:
                            fns[nm] = Helper(f, i)
                        except ValueError:
                            many.add(nm)
                    elif T[i].t == "const" and T[i + 1].k == "id" and T[i + 2].t == ":" and T[i - 1].t not in ("<", ",") and nm not in base["const"]:
                        q = f.skip_to(i, ("=",))
                        e = f.skip_to(i, (";",))
                        if q < e:
                            ty, ex = src_of(f, i + 3, q).strip(), src_of(f, q + 1, e).strip()
                            if nm in cs and cs[nm] != (ty, ex):
                                dup.add(nm)
                            cs[nm] = (ty, ex)
        for n in dup:
            cs.pop(n, None)
        _crate[c] = (fns, cs)
    return _crate[c]


def _const(ty, ex, pat):
    if pat:
        return ex
    if re.fullmatch(INTS, ty) and ty != "bool":
        v = None
        if re.fullmatch(r"[\d_xa-fA-F<>|&+*() -]+", ex) and not re.search(r"(?<![\w])[a-fA-F_x]|<[^<]*$(?<!<<)", ex.replace("<<", " ")):
            try:
                v = eval(ex)
            except Exception:
                v = None
        if isinstance(v, int) and v >= 0:
            return f"{v}{ty}" if not re.fullmatch(r"\d[\d_]*|0x[\da-fA-F_]+", ex) else ex + ty
        return f"(({ex}) as {ty})" if re.fullmatch(r"[\w.]+", ex) else f"{{ let vx_c: {ty} = {ex}; vx_c }}"
    return f"({ex})"


def _chain_start(f, j):
    """first token of the path of names and dots that ends at token j, or None"""
    T = f.toks
    while True:
        if T[j].k != "id" or T[j].t in KW and T[j].t != "self":
            return None
        if T[j - 1].t == ".":
            if T[j - 2].k == "id":
                j -= 2
                continue
            return None
        return None if T[j - 1].t in ("::", "?", ")") else j


def inline_new(path, src):
    """source text with new functions of the crate, new constants and local closures put where they are used"""
    fns, cs = crate_new(path)
    base = NAMES.get(path, {"closure": []}) if NAMES else None
    if base is None:
        return src
    n = 0
    for _ in range(60):
        f = File(path, src)
        T = f.toks
        hit = None
        # local closures
        local = {}
        for i in range(len(T) - 4):
            if T[i].t == "let" and T[i + 1].k == "id" and T[i + 2].t == "=" and T[i + 3].t in ("|", "||") and T[i + 1].t not in base.get("closure", []):
                e = f.skip_to(i, (";",))
                k, ps = i + 4, []
                if T[i + 3].t == "|":
                    while k < len(T) and T[k].t != "|":
                        k = f.m[k] + 1 if T[k].t in OPEN else k + 1
                    ps = _split(f, i + 4, k)
                    k += 1
                elif T[k - 1].t == "||":
                    k = i + 4
                if T[k].t == "->" or any(T[x].t in ("return", "?", "await", "break", "continue") for x in range(k, e)):
                    continue
                # the block it is in
                lo = i
                while lo > 0 and not (T[lo].t == "{" and f.m[lo] > e):
                    lo -= 1
                uses = [x for x in range(e, f.m[lo]) if T[x].t == T[i + 1].t and T[x].k == "id"]
                if not uses or not all(T[x + 1].t == "(" and T[x - 1].t not in (".", "::") for x in uses):
                    continue
                h = Helper.__new__(Helper)
                h.name, h.path, h.generics, h.is_async, h.self, h.q, h.ret = T[i + 1].t, path, [], False, False, False, "_"
                h.params = [(src_of(f, a, f.skip_to(a, (":",), b)), src_of(f, f.skip_to(a, (":",), b) + 1, b) if f.skip_to(a, (":",), b) < b else "") for a, b in ps]
                h.body = "{ " + src_of(f, k, e) + " }"
                x = uses[0]
                args = [src_of(f, a, b) for a, b in _args(f, x + 1)]
                if len(args) != len(h.params):
                    continue
                n += 1
                ed = [(T[x].s, T[f.m[x + 1]].e, h.expand(args, None, n))]
                if len(uses) == 1:
                    ed.insert(0, (T[i].s, T[e].e, ""))
                src = apply(src, 0, len(src), ed)
                INLINED.append(f"{path}: closure {h.name}")
                hit = True
                break
        if hit:
            continue
        for i in range(1, len(T) - 2):
            nm = T[i].t
            if T[i].k != "id":
                continue
            if nm in cs and T[i - 1].t not in ("const", ".") and T[i + 1].t not in ("(", ":", "!") and (T[i + 1].t != "{" or T[i - 1].t in ("==", "!=", "<", ">", "<=", ">=", "&&", "||")):
                ty, ex = cs[nm]
                lo = i
                while T[lo - 1].t == "::" and T[lo - 2].k == "id":
                    lo -= 2
                pat = T[i + 1].t in ("=>", "|") or T[i - 1].t == "|"
                if pat and not re.fullmatch(r"[\w']+", ex) or T[i + 1].t == "::" or any(T[x].t == "use" for x in range(max(0, i - 12), i) if ";" not in [T[y].t for y in range(x, i)]):
                    continue
                hit = (T[lo].s, T[i].e, _const(ty, ex, pat))
                what = f"constant {nm}"
                break
            if nm in fns and T[i + 1].t == "(" and T[i - 1].t != "fn":
                h = fns[nm]
                args = [src_of(f, a, b) for a, b in _args(f, i + 1)]
                end = f.m[i + 1]
                lo, recv = i, None
                if T[i - 1].t == ".":
                    lo = _chain_start(f, i - 2)
                    if lo is None or not h.self:
                        continue
                    recv = src_of(f, lo, i - 1)
                else:
                    while T[lo - 1].t == "::" and T[lo - 2].k == "id":
                        lo -= 2
                    if h.self:
                        # Self::name(self, ..)
                        if not args or not re.fullmatch(r"&?(?:mut\s+)?self", args[0]):
                            continue
                        recv, args = "self", args[1:]
                if len(args) != len(h.params):
                    continue
                if h.is_async:
                    if [T[x].t for x in (end + 1, end + 2)] != [".", "await"]:
                        continue
                    end += 2
                noq = h.q and T[end + 1].t != "?"
                if noq and h.noq is None:
                    continue
                n += 1
                tx = h.expand(args, recv, n, noq)
                if h.q and not noq and f"let vx_r{n}" not in tx:
                    end += 1
                hit = (T[lo].s, T[end].e, tx)
                what = f"function {nm}"
                break
        if hit is None:
            break
        src = src[:hit[0]] + hit[2] + src[hit[1]:]
        INLINED.append(f"{path}: {what}")
    # definitions that nothing refers to any more
    f = File(path, src)
    T = f.toks
    left = {}
    for t in T:
        if t.k == "id":
            left[t.t] = left.get(t.t, 0) + 1
    ed = []

    def drop(its):
        for it in its:
            if it.kind == "fn" and it.name in fns and left[it.name] == 1 or it.kind == "const" and it.name in cs and left[it.name] == 1:
                ed.append((T[it.lo].s, T[it.hi - 1].e, ""))
            elif it.members:
                drop(it.members)
    drop(f.items)
    for i in range(len(T) - 3):
        if T[i].t == "const" and T[i + 1].t in cs and left[T[i + 1].t] == 1 and not any(a <= T[i].s < b for a, b, _ in ed):
            ed.append((T[i].s, T[f.skip_to(i, (";",))].e, ""))
    return apply(src, 0, len(src), ed) if ed else src


def expand_macros(path, src, macros, note=None):
    """source text with all calls of the named macros expanded in place (definitions stay)"""
    for _ in range(6):
        f = File(path, src)
        T = f.toks
        ed, i = [], 0
        defs = [(it.lo, it.hi) for it in f.items if it.kind == "macro"]
        while i < len(T):
            t = T[i]
            d = [h for l, h in defs if l <= i < h]
            if d:
                i = d[0]
                continue
            if t.k == "id" and t.t in macros and i + 2 < len(T) and T[i + 1].t == "!" and T[i + 2].t in OPEN:
                e = f.m[i + 2]
                txt = expand_call(macros[t.t], f, i + 3, e)
                ed.append((t.s, T[e].e, txt))
                if note is not None:
                    note.append(f"{path}:{src.count(chr(10), 0, t.s) + 1} {t.t}! expanded")
                i = e + 1
                continue
            i += 1
        if not ed:
            return src
        src = apply(src, 0, len(src), ed)
    return src


class XFile(File):
    """a source file with its macro calls expanded; `line()` refers to the expanded text"""

    def __init__(self, path, macro_names, extra=()):
        base = File(path)
        macs = {}
        for fl in (base,) + tuple(extra):
            for it in fl.items:
                if it.kind == "macro" and it.name in macro_names and not it.is_test():
                    macs[it.name] = Macro(it)
        for n in macro_names:
            if n not in macs:
                raise Lost(f"macro {n} not found")
        self.notes = []
        super().__init__(path, expand_macros(path, base.src, macs, self.notes))


def select_arms(events=False):
    def rw(txt):
        """select! -> nondeterministic choice of the branch that completes"""
        for _ in range(8):
            f = File("<select>", "fn x() " + txt)
            T = f.toks
            hit = None
            for i in range(len(T) - 2):
                if T[i].t in ("select", "select_biased") and T[i + 1].t == "!" and T[i + 2].t in OPEN:
                    hit = i
                    break
            if hit is None:
                return txt
            lo = hit
            while lo >= 2 and T[lo - 1].t == "::" and T[lo - 2].k == "id":
                lo -= 2
            i, e = hit + 3, f.m[hit + 2]
            arms = []
            while i < e:
                eq = f.skip_to(i, ("=",), e)
                ar = f.skip_to(eq, ("=>",), e)
                if ar >= e:
                    break
                pat, ex = src_of(f, i, eq), src_of(f, eq + 1, ar)
                if T[ar + 1].t == "{":
                    b = f.m[ar + 1] + 1
                else:
                    b = f.skip_to(ar + 1, (",",), e)
                body = src_of(f, ar + 1, b)
                ev = ".vx_event()" if events and re.fullmatch(r"[A-Za-z_]\w*", ex.strip()) else ""
                arms.append((pat, ex, ev, body))
                i = b + 1 if b < e and T[b].t == "," else b
            out = "match vx_choose() { "
            for k, (pat, ex, ev, body) in enumerate(arms):
                tag = "_" if k == len(arms) - 1 else str(k)
                out += f"{tag} => {{ let {pat} = ({ex}){ev}.await; {body} }} "
            out += "}"
            s0 = len("fn x() ")
            txt = f.src[s0:T[lo].s] + out + f.src[T[e].e:]
        return txt
    return rw


def break_to_return(txt):
    """`break V` out of a loop that is the value of the function -> `return V`"""
    f = File("<break>", "fn x() " + txt)
    T = f.toks
    lo = next(i for i, t in enumerate(T) if t.t == "{")
    hi = f.m[lo]
    ed = []
    loops = find_loops(f, lo + 1, hi)
    for kind, kwi, inx, b in loops:
        if kind == "loop" and f.m[b] + 1 == hi:
            inner = [(b2, f.m[b2]) for k2, w2, x2, b2 in loops if b2 > b]
            for i in range(b, f.m[b]):
                if T[i].t == "break" and T[i + 1].t not in (";", "}", ",") and T[i + 1].k != "life" and not any(x <= i <= y for x, y in inner):
                    ed.append((T[i].s, T[i].e, "return"))
    return apply(f.src, len("fn x() "), len(f.src), ed)


def _args(f, i):
    """top-level comma separated argument ranges of the bracket at token i"""
    T, out, a, k = f.toks, [], i + 1, i + 1
    while k < f.m[i]:
        if T[k].t in OPEN:
            k = f.m[k]
        elif T[k].t == ",":
            out.append((a, k)); a = k + 1
        elif T[k].t == "|" and k == a or T[k].t == "|" and T[k - 1].t == "move":
            k += 1
            while T[k].t != "|":
                k = f.m[k] + 1 if T[k].t in OPEN else k + 1
        k += 1
    if a < f.m[i]:
        out.append((a, f.m[i]))
    return out


def _closure(f, a, b):
    """(parameter text or '', body text) of a closure with at most one parameter, else None"""
    T = f.toks
    if T[a].t == "move":
        a += 1
    if T[a].t == "||":
        p, k = "", a + 1
    elif T[a].t == "|":
        k = a + 1
        while T[k].t != "|":
            k = f.m[k] + 1 if T[k].t in OPEN else k + 1
        p, k = src_of(f, a + 1, k).strip().rstrip(","), k + 1
    else:
        return None
    if any(T[x].t in ("?", "return", "await", "break", "continue") for x in range(k, b)):
        return None
    p = re.sub(r":.*$", "", p, flags=re.S).strip()
    return p, src_of(f, k, b)


def add_arg(name, arg):
    def rw(txt):
        f = File("<arg>", "fn x() " + txt)
        T = f.toks
        ed = []
        for i in range(len(T) - 2):
            if T[i].t == "." and T[i + 1].t == name and T[i + 2].t == "(":
                e = T[f.m[i + 2]].s
                ed.append((e, e, (", " if f.m[i + 2] > i + 3 and T[f.m[i + 2] - 1].t != "," else "") + arg))
        return apply(f.src, len("fn x() "), len(f.src), ed) if ed else txt
    rw.__doc__ = f".{name}(..) -> .{name}(.., {arg})"
    return rw


VXOPT = True
VXOPT_TEXT = r"""
// Option and Result alike as what map_or looks at
trait VxOpt<T>: Sized { spec fn opt(self) -> Option<T>; fn vx_opt(self) -> (r: Option<T>) ensures r == self.opt(); }
impl<T> VxOpt<T> for Option<T> { spec fn opt(self) -> Option<T> { self } fn vx_opt(self) -> (r: Option<T>) { self } }
impl<T, E> VxOpt<T> for Result<T, E> { spec fn opt(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } } fn vx_opt(self) -> (r: Option<T>) { match self { Ok(x) => Some(x), Err(_) => None } } }
"""
COMB = ("map_err", "and_then", "map_or_else", "map_or", "unwrap_or_else", "ok_or_else", "or_else", "map", "filter", "is_some_and", "is_none_or", "is_ok_and", "is_err_and", "then", "then_some")


def combinators(txt):
    """Option/Result combinators with closure arguments -> the match expressions they stand for"""
    NAMES = COMB
    pre = len("fn x() ")
    done = 0
    for _ in range(40):
        f = File("<comb>", "fn x() " + txt)
        T = f.toks
        hit = None
        for i in range(1, len(T) - 2):
            if T[i].t == "." and T[i + 1].t in NAMES and T[i + 2].t == "(":
                args = _args(f, i + 2)
                cl = [_closure(f, a, b) for a, b in args]
                if not cl or cl[-1] is None and T[i + 1].t != "then_some":
                    continue
                # the receiver
                j = i - 1
                while True:
                    if T[j].t in (")", "]"):
                        j = f.m[j]
                        if T[j].t == "[" or T[j - 1].k == "id" and T[j - 1].t not in KW or T[j - 1].t == ">":
                            j -= 1
                            continue
                        break
                    if T[j].t == "}":
                        j = -1
                        break
                    if T[j].t == "?":
                        j -= 1
                        continue
                    if T[j].k in ("id", "num", "int") or T[j].t == "self":
                        if T[j - 1].t in (".", "::"):
                            j -= 2
                            continue
                        break
                    j = -1
                    break
                if j < 0:
                    continue
                rec = src_of(f, j, i)
                n = T[i + 1].t
                isres = n == "map_err" or re.search(r"\bErr\s*\(|\bmap_err\b|SharedLockError", rec)
                a0 = src_of(f, *args[0])
                arms = None
                if n == "map_err":
                    arms = f"Ok(vx_o) => Ok(vx_o), Err({cl[0][0]}) => Err({cl[0][1]})"
                elif n == "and_then" and isres:
                    arms = f"Ok({cl[0][0]}) => {cl[0][1]}, Err(vx_e) => Err(vx_e)"
                elif n == "and_then":
                    arms = f"Some({cl[0][0]}) => {cl[0][1]}, None => None"
                elif n == "map_or_else" and len(cl) == 2 and cl[0] is not None:
                    if cl[0][0]:
                        arms = f"Ok({cl[1][0]}) => {cl[1][1]}, Err({cl[0][0]}) => {cl[0][1]}"
                    else:
                        arms = f"Some({cl[1][0]}) => {cl[1][1]}, None => {cl[0][1]}"
                elif n == "map_or" and len(cl) == 2 and VXOPT:
                    hit = (T[j].s, T[f.m[i + 2]].e, f"(match ({rec}).vx_opt() {{ Some({cl[1][0]}) => {cl[1][1]}, None => {a0} }})")
                    break
                elif n == "unwrap_or_else":
                    arms = f"Ok(vx_o) => vx_o, Err({cl[0][0]}) => {cl[0][1]}" if cl[0][0] else f"Some(vx_o) => vx_o, None => {cl[0][1]}"
                elif n == "ok_or_else":
                    arms = f"Some(vx_o) => Ok(vx_o), None => Err({cl[0][1]})"
                elif n == "or_else":
                    arms = f"Ok(vx_o) => Ok(vx_o), Err({cl[0][0]}) => {cl[0][1]}" if cl[0][0] else f"Some(vx_o) => Some(vx_o), None => {cl[0][1]}"
                elif n == "filter":
                    if re.search(r"\b(?:iter|into_iter|iter_mut|chunks|drain|windows|by_ref)\b", rec) or not re.fullmatch(r"&?\w+", cl[0][0]):
                        continue
                    q = f"let {cl[0][0]} = &vx_f;" if cl[0][0][0] != "&" else f"let {cl[0][0][1:]} = vx_f;"
                    arms = f"Some(vx_f) => {{ let vx_k = {{ {q} {cl[0][1]} }}; if vx_k {{ Some(vx_f) }} else {{ None }} }}, None => None"
                elif n == "is_some_and":
                    arms = f"Some({cl[0][0]}) => {cl[0][1]}, None => false"
                elif n == "is_none_or":
                    arms = f"Some({cl[0][0]}) => {cl[0][1]}, None => true"
                elif n == "is_ok_and":
                    arms = f"Ok({cl[0][0]}) => {cl[0][1]}, Err(_) => false"
                elif n == "is_err_and":
                    arms = f"Err({cl[0][0]}) => {cl[0][1]}, Ok(_) => false"
                elif n == "then" and cl[0][0] == "":
                    hit = (T[j].s, T[f.m[i + 2]].e, f"(if {rec} {{ Some({cl[0][1]}) }} else {{ None }})")
                    break
                elif n == "then_some":
                    hit = (T[j].s, T[f.m[i + 2]].e, f"({{ let vx_c = {rec}; let vx_t = {a0}; if vx_c {{ Some(vx_t) }} else {{ None }} }})")
                    break
                elif n == "map" and not isres:
                    if re.search(r"\b(?:iter|into_iter|iter_mut|chunks|drain|windows|by_ref)\b", rec):
                        continue
                    arms = f"Some({cl[0][0]}) => Some({cl[0][1]}), None => None"
                elif n == "map" and isres:
                    arms = f"Ok({cl[0][0]}) => Ok({cl[0][1]}), Err(vx_e) => Err(vx_e)"
                if arms is None:
                    continue
                hit = (T[j].s, T[f.m[i + 2]].e, f"(match {rec} {{ {arms} }})")
                break
        if hit is None:
            return txt
        txt = f.src[pre:hit[0]] + hit[2] + f.src[hit[1]:]
    return txt
