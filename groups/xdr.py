"""vxi11: P13 XDR encoding and decoding of every wire type."""
import re
from rx import File, XFile, Render, Contract, Lost
import rx
from vx import Group
from common import wrap
import hislip as H
import onc

NOISO = "#[verifier::loop_isolation(false)]"
SIG = [(r"->\s*\(r: Result<\(\)>\)", "-> (r: Result<(), Error>)")]


def pad_loop(side, base):
    """the invariant of the padding loop; base: the bytes before it (write: as an expression; read: as a count)"""
    if side == "w":
        return ("for", f"        invariant writer.sent() == {base} + zeros(it.index@), writer.io_ok() == old(writer).io_ok(),\n", "it",
                "broadcast use vxl::all;", "")
    return ("for", f"        invariant old(reader).rem().len() >= {base} + it.index@, reader.rem() == old(reader).rem().skip({base} + it.index@), reader.io_ok() == old(reader).io_ok(),\n",
            "it", "broadcast use vxl::all;", "")


LEMMAS = r'''//RAW
mod vxl {
    use vstd::prelude::*;
    verus! {
    pub broadcast proof fn l_and3(x: usize) ensures (#[trigger] (x & 3usize)) == x % 4 { assert(x & 3usize == x % 4) by(bit_vector); }
    pub broadcast proof fn l_skip(s: Seq<u8>, a: int, b: int) requires 0 <= a, 0 <= b, a + b <= s.len() ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b) { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
    pub broadcast proof fn l_take(s: Seq<u8>, a: int, b: int) requires 0 <= a, 0 <= b, a + b <= s.len() ensures #[trigger] s.skip(a).take(b) == s.subrange(a, a + b) { assert(s.skip(a).take(b) =~= s.subrange(a, a + b)); }
    pub broadcast proof fn l_skip0(s: Seq<u8>) ensures #[trigger] s.skip(0) == s { assert(s.skip(0) =~= s); }
    pub broadcast proof fn l_empty(s: Seq<u8>) ensures #[trigger] (Seq::<u8>::empty() + s) == s { assert(Seq::<u8>::empty() + s =~= s); }
    pub broadcast proof fn l_emptyc(s: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + s) == s { assert(Seq::<char>::empty() + s =~= s); }
    pub broadcast group all { l_and3, l_skip, l_take, l_skip0, l_empty, l_emptyc }
    }
}
'''
EXTRA = r'''
broadcast proof fn l_zero_step(n: int) requires n >= 0 ensures #[trigger] zeros(n + 1) == zeros(n).push(0u8) { assert(zeros(n + 1) =~= zeros(n).push(0u8)); }
proof fn l_zero(a: Seq<u8>, n: int) requires n >= 0 ensures a + zeros(n) + seq![0u8] == a + zeros(n + 1), a + zeros(0) == a { assert(a + zeros(n) + seq![0u8] =~= a + zeros(n + 1)); assert(a + zeros(0) =~= a); }
proof fn l_be(s: Seq<u8>) requires s.len() >= 4 ensures 0 <= be(s.take(4)) < 0x1_0000_0000 { lemma_be_range(s.take(4)); reveal_with_fuel(pow256, 5); }
proof fn lemma_be_range(s: Seq<u8>) ensures 0 <= be(s) < pow256(s.len()) decreases s.len() {
    if s.len() > 0 { lemma_be_range(s.drop_last()); assert(pow256(s.len()) == 256 * pow256((s.len() - 1) as nat)); }
}
'''


def ty_of(header):
    m = re.match(r"impl(<.*?>)?(XdrEncode|XdrDecode) for (.*)$", header.replace("impl ", "impl", 1))
    return m


OBJ = " proof { assume(N <= isize::MAX as usize); }"  # no Rust object is larger


def contracts(ty, side):
    pre = "broadcast use vxl::all;"
    if ty in ("Opaque", "String"):
        b = "self.0@" if ty == "Opaque" else "utf8(self@)"
        if side == "w":
            base = f"(old(writer).sent() + enc_be({b}.len() as int, 4) + {b})"
            l = list(pad_loop("w", base))
            l[4] = f"proof {{ l_zero({base}, it.index@); }}"
            return Contract("", loops=[tuple(l)], pre=pre + f" proof {{ l_zero({base}, 0); }}", sig=SIG, attrs=NOISO)
        n = "be(old(reader).rem().take(4))"
        l = list(pad_loop("r", f"4 + {n}"))
        return Contract("", loops=[tuple(l)], pre=pre + " proof { if reader.rem().len() >= 4 { l_be(reader.rem()); } }", sig=SIG, attrs=NOISO)
    if ty == "FixedOpaque<N>":
        if side == "w":
            base = "(old(writer).sent() + self.0@)"
            l = list(pad_loop("w", base))
            l[4] = f"proof {{ l_zero({base}, it.index@); }}"
            return Contract("", loops=[tuple(l)], pre=pre + OBJ + f" proof {{ l_zero({base}, 0); }}", sig=SIG, attrs=NOISO)
        l = list(pad_loop("r", "N"))
        l[1] = l[1].rstrip().rstrip(",") + ", self.0@ == old(reader).rem().take(N as int),\n"
        return Contract("", loops=[tuple(l)], pre=pre + OBJ, sig=SIG, attrs=NOISO, rw=[(r"&mut self\.0\[\.\.\]", "&mut self.0", False)])
    if ty == "Vec<T>":
        if side == "w":
            return Contract("", loops=[("for", "        invariant self.fits(), writer.io_ok() == old(writer).io_ok(), writer.sent() == put_all(self@.take(it.index@), old(writer).sent() + enc_be(self@.len() as int, 4)),\n",
                                        "it", "", "proof { assert(self@.take(it.index@ + 1).drop_last() =~= self@.take(it.index@)); }")],
                            pre="proof { assert(self@.take(self@.len() as int) =~= self@); }", sig=SIG, attrs=NOISO)
        s0 = "old(reader).rem().skip(4)"
        n = "be(old(reader).rem().take(4))"
        return Contract("", loops=[("for", f"        invariant old(reader).rem().len() >= 4, len == {n}, self@.len() == it.index@, reader.io_ok() == old(reader).io_ok(), rest_all::<T>({s0}, it.index@ as int) == Some(reader.rem()), val_all({s0}, self@),\n",
                                    "it", f"let ghost vx_v = self@; let ghost vx_r = reader.rem(); proof {{ lemma_rest_step::<T>({s0}, it.index@ as int); if T::rest(vx_r) is None {{ lemma_rest_mono::<T>({s0}, it.index@ as int + 1, {n}); }} }}",
                                    f"proof {{ lemma_val_step({s0}, vx_v, self@.last()); assert(vx_v.push(self@.last()) =~= self@); }}")],
                        pre="proof { if reader.rem().len() >= 4 { l_be(reader.rem()); } }", sig=SIG, attrs=NOISO)
    if ty == "bool":
        return Contract("", sig=SIG, pre="proof { if reader.rem().len() >= 4 { l_be(reader.rem()); } }" if side == "r" else "")
    return Contract("", sig=SIG)


def type_text(R, f, n):
    kind = "struct" if n in onc.STRUCT else "enum"
    it = f.find(kind, n)
    copy = any("Copy" in a for a in it.attrs)
    eq = any("PartialEq" in a for a in it.attrs)
    return ("#[derive(Clone, Copy" + (", PartialEq, Eq, Structural" if eq and n in onc.UNION else "") + ")]\n" if copy else "") + R.clean(f, it.head, it.hi, []), it


def build():
    S = onc.specs()
    fb = XFile(onc.BASIC, ["read_padding", "write_padding"])
    files = {k: File(v) for k, v in onc.FILES.items()}
    R = Render("xdr")
    out = []
    # types
    for n, (k, _) in list(onc.STRUCT.items()) + [(n, (v[0], None)) for n, v in onc.UNION.items()]:
        t, it = type_text(R, files[k], n)
        out.append(onc.pubify(t))
        if n in onc.STRUCT:
            # the declared wire order and the struct's field set have to be about the same fields
            if any("Default" in a for a in it.attrs):
                out.append(onc.derived_default(n))
    for n in ("FixedOpaque", "Opaque"):
        it = fb.find("struct", n)
        out.append(onc.pubify(R.clean(fb, it.head, it.hi, [])))
    out.append("impl Default for Opaque {\n    fn default() -> (r: Self) ensures r.0@ == Seq::<u8>::empty() { Opaque(Vec::new()) }\n}\n")
    # impls
    seen = {}
    for f in [fb] + list(files.values()):
        for it in f.items:
            if it.kind != "impl" or it.is_test():
                continue
            h = it.header
            m = re.match(r"impl\s*(<.*>)?\s*(XdrEncode|XdrDecode)\s*for\s*(.*)$", h)
            if m:
                ty = re.sub(r"\s", "", m.group(3))
                side = "w" if m.group(2) == "XdrEncode" else "r"
                if ty == "[T;N]":
                    continue
                if ty not in S:
                    R.flag(f"{h}: wire type without a specification")
                    continue
                seen[(ty, side)] = True
                fn = [x for x in it.members if x.kind == "fn"]
                body = "\n".join(R.fn(x, mono(contracts(ty, side)), f"{ty}::{x.name}") for x in fn)
                out.append(h.replace("impl<const N:usize>", "impl<const N: usize>") + " {\n" + S[ty]["enc" if side == "w" else "dec"] + body + "}\n")
                if side == "w" and "code" in S[ty]:
                    out.append(f"impl {ty} {{\n{S[ty]['code']}}}\n")
            elif re.match(r"impl Default for (\w+)$", h) and it.members and h.split()[-1] in onc.UNION:
                n = h.split()[-1]
                out.append(h + " {\n" + R.fn(it.members[0], Contract("ensures /*P13,P15*/ " + onc.deflt(n, "r")), f"{n}::default") + "}\n")
    for ty in S:
        if (ty, "w") in seen and (ty, "r") in seen:
            g, t = {"FixedOpaque<N>": ("<const N: usize>", ty), "Vec<T>": ("<T: XdrWire + Default>", ty), "Option<T>": ("<T: XdrWire + Default>", ty)}.get(ty, ("", ty))
            out.append(f"impl{g} XdrWire for {t} {{\n{S[ty]['wire']}}}\n")
        else:
            R.flag(f"{ty}: no encoder or decoder in the source")
    txt = "//RAW\n" + "\n".join(out)
    return Group("xdr", wrap(H.IO, LEMMAS, "use io::Error; use io::ErrorKind;", H.BYTES, onc.STRAX, onc.STDIO, onc.rd_methods(), onc.trait_text("VxRead", "VxWrite"), onc.XBYTES, EXTRA, txt, broadcast=("vxl::all",)),
                 R, trusted=onc.TRUST + ["no Rust object is larger than isize::MAX bytes (the length of a FixedOpaque)"], exact=("write", "write_all", "flush", "read_exact") + tuple(f"{d}_{t}{b}" for d in ("read", "write") for t in "ui" for b in (8, 16, 32, 64)), default_props=["P13"], panic_props=["P24"])


def mono(c):
    c.rw = list(c.rw) + [(r"\bbyteorder::", "", False)]
    c.mono = [("Read", "VxRead"), ("Write", "VxWrite")]
    return c
