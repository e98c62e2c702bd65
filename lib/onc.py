"""Specification shared by the vxi11 crate's groups: XDR (RFC 4506), the interface definitions of RFC 5531, RFC 1833 and VXI-11,
and the trusted stand-ins for std::io readers and writers."""
import re
import hislip as H
from rx import Contract, Lost

BASIC = "vxi11/src/common/xdr/basic.rs"
FILES = {"vxi11": "vxi11/src/common/vxi11/xdr.rs", "rpc": "vxi11/src/common/onc_rpc/xdr.rs", "pmap": "vxi11/src/common/portmapper/xdr.rs"}

# the interface definitions: struct -> fields in wire order
STRUCT = {
    # VXI-11 revision 1.0, annex C
    "DeviceLink": ("vxi11", [("0", "u32")]),
    "DeviceFlags": ("vxi11", [("0", "u32")]),
    "DeviceError": ("vxi11", [("error", "DeviceErrorCode")]),
    "CreateLinkParms": ("vxi11", [("client_id", "i32"), ("lock_device", "bool"), ("lock_timeout", "u32"), ("device", "String")]),
    "CreateLinkResp": ("vxi11", [("error", "DeviceErrorCode"), ("lid", "DeviceLink"), ("abort_port", "u16"), ("max_recv_size", "u32")]),
    "DeviceWriteParms": ("vxi11", [("lid", "DeviceLink"), ("io_timeout", "u32"), ("lock_timeout", "u32"), ("flags", "DeviceFlags"), ("data", "Opaque")]),
    "DeviceWriteResp": ("vxi11", [("error", "DeviceErrorCode"), ("size", "u32")]),
    "DeviceReadParms": ("vxi11", [("lid", "DeviceLink"), ("request_size", "u32"), ("io_timeout", "u32"), ("lock_timeout", "u32"), ("flags", "DeviceFlags"), ("term_char", "u8")]),
    "DeviceReadResp": ("vxi11", [("error", "DeviceErrorCode"), ("reason", "u32"), ("data", "Opaque")]),
    "DeviceReadStbResp": ("vxi11", [("error", "DeviceErrorCode"), ("stb", "u8")]),
    "DeviceGenericParms": ("vxi11", [("lid", "DeviceLink"), ("flags", "DeviceFlags"), ("lock_timeout", "u32"), ("io_timeout", "u32")]),
    "DeviceRemoteFunc": ("vxi11", [("host_addr", "u32"), ("host_port", "u16"), ("prog_num", "u32"), ("prog_vers", "u32"), ("prog_family", "DeviceAddrFamily")]),
    "DeviceEnableSrqParms": ("vxi11", [("lid", "DeviceLink"), ("enable", "bool"), ("handle", "Opaque")]),
    "DeviceLockParms": ("vxi11", [("lid", "DeviceLink"), ("flags", "DeviceFlags"), ("lock_timeout", "u32")]),
    "DeviceDocmdParms": ("vxi11", [("lid", "DeviceLink"), ("flags", "DeviceFlags"), ("io_timeout", "u32"), ("lock_timeout", "u32"), ("cmd", "i32"),
                                   ("network_order", "bool"), ("datasize", "u32"), ("data_in", "Opaque")]),
    "DeviceDocmdResp": ("vxi11", [("error", "DeviceErrorCode"), ("data_out", "Opaque")]),
    "DeviceSrqParms": ("vxi11", [("handle", "Opaque")]),
    # RFC 5531
    "OpaqueAuth": ("rpc", [("flavour", "AuthFlavour"), ("body", "Opaque")]),
    "Callbody": ("rpc", [("rpc_vers", "u32"), ("prog", "u32"), ("vers", "u32"), ("proc", "u32"), ("cred", "OpaqueAuth"), ("verf", "OpaqueAuth")]),
    "MissmatchInfo": ("rpc", [("low", "u32"), ("high", "u32")]),
    "Replybody": ("rpc", [("stat", "ReplyStat")]),
    "AcceptedReply": ("rpc", [("verf", "OpaqueAuth"), ("stat", "AcceptStat")]),
    "RejectedReply": ("rpc", [("stat", "RejectStat")]),
    "RpcMessage": ("rpc", [("xid", "u32"), ("mtype", "MsgType")]),
    # RFC 1833
    "Mapping": ("pmap", [("prog", "u32"), ("vers", "u32"), ("prot", "u32"), ("port", "u32")]),
    "Callit": ("pmap", [("prog", "u32"), ("vers", "u32"), ("proc", "u32"), ("args", "Opaque")]),
    "CallResult": ("pmap", [("port", "u32"), ("res", "Opaque")]),
}
# discriminated unions and enumerations: variant -> (code, payload type); None as a key: any other code is kept in that variant (its u32 payload)
UNION = {
    "DeviceErrorCode": ("vxi11", {"NoError": 0, "SyntaxError": 1, "DeviceNotAccessible": 3, "InvalidLinkIdentifier": 4, "ParameterError": 5,
                                  "ChannelNotEstablished": 6, "OperationNotSupported": 8, "OutOfResources": 9, "DeviceLockedByAnotherLink": 11,
                                  "NoLockHeldByThisLink": 12, "IoTimeout": 15, "IoError": 17, "InvalidAddress": 21, "Abort": 23,
                                  "ChannelAlreadyEstablished": 29}, "_Reserved"),
    "DeviceAddrFamily": ("vxi11", {"Tcp": 0, "Udp": 1}, None),
    "AuthStat": ("rpc", {"Ok": 0, "BadCred": 1, "RejectedCred": 2, "BadVerf": 3, "RejectedVerf": 4, "TooWeak": 5, "InvalidResp": 6, "Failed": 7}, None),
    "AuthFlavour": ("rpc", {"None": 0, "Sys": 1, "Short": 2}, "_Other"),
    "AcceptStat": ("rpc", {"Success": 0, "ProgUnavail": 1, "ProgMissmatch": (2, "MissmatchInfo"), "ProcUnavail": 3, "GarbageArgs": 4, "SystemErr": 5}, None),
    "RejectStat": ("rpc", {"RpcMissmatch": (0, "MissmatchInfo"), "AuthError": (1, "AuthStat")}, None),
    "ReplyStat": ("rpc", {"Accepted": (0, "AcceptedReply"), "Denied": (1, "RejectedReply")}, None),
    "MsgType": ("rpc", {"Call": (0, "Callbody"), "Reply": (1, "Replybody")}, None),
}
PRIM = ["u32", "i32", "u16", "i16", "u8", "i8", "u64", "i64", "bool", "f32", "f64", "()", "Opaque", "String", "FixedOpaque<N>", "Vec<T>", "Option<T>"]


def plain(tab):
    return {k: (v if isinstance(v, tuple) else (v, None)) for k, v in tab.items()}


def fn_(nm, args, ret, body):
    return f"    spec fn {nm}({args}) -> {ret} {{ {body} }}\n"


def encode_spec(put, pre, fits, lemma=""):
    return (fn_("put", "&self, o: Seq<u8>", "Seq<u8>", put) + fn_("pre", "&self, t: Seq<u8>", "Seq<u8>", pre) + fn_("fits", "&self", "bool", fits)
            + f"    proof fn lemma_put(&self, o: Seq<u8>, t: Seq<u8>) {{ {lemma} }}\n")


def decode_spec(rest, val, lemma=None):
    return (fn_("rest", "s: Seq<u8>", "Option<Seq<u8>>", rest) + fn_("val", "s: Seq<u8>, v: &Self", "bool", val))


def wire_spec(same, rt):
    """decoding inverts encoding"""
    return fn_("same", "&self, w: &Self", "bool", same) + f"    proof fn rt(&self, t: Seq<u8>) {{ {rt} }}\n"


INTS = {"u32": 4, "i32": 4, "u16": 4, "i16": 4, "u8": 4, "i8": 4, "u64": 8, "i64": 8}


def specs():
    """type -> dict(enc, dec, wire): the bodies of the specification functions"""
    S = {}
    for t, n in INTS.items():
        lim = {4: "0x1_0000_0000", 8: "0x1_0000_0000_0000_0000"}[n]
        half = {4: "0x8000_0000", 8: "0x8000_0000_0000_0000"}[n]
        word = "*self as int" if t[0] == "u" else f"(if *self < 0 {{ *self as int + {lim} }} else {{ *self as int }})"
        dec = f"be(s.take({n}))" if t[0] == "u" else f"(if be(s.take({n})) >= {half} {{ be(s.take({n})) - {lim} }} else {{ be(s.take({n})) }})"
        # a type narrower than the unit only has a defined value if the unit is in its range
        val = f"*v as int == {dec}" if t in ("u32", "i32", "u64", "i64") else f"({t}::MIN as int <= {dec} && {dec} <= {t}::MAX as int) ==> *v as int == {dec}"
        S[t] = dict(enc=encode_spec(f"o + enc_be({word}, {n})", f"enc_be({word}, {n}) + t", "true", f"assert(self.put(o) + t =~= o + self.pre(t));"),
                    dec=decode_spec(f"if s.len() >= {n} {{ Some(s.skip({n})) }} else {{ None }}", val),
                    wire=wire_spec("*self == *w", f"lemma_pow(); lemma_be({word}, {n}); assert(self.pre(t).take({n}) =~= enc_be({word}, {n})); assert(self.pre(t).skip({n}) =~= t);"))
    S["bool"] = dict(enc=encode_spec("o + enc_be(if *self { 1 } else { 0 }, 4)", "enc_be(if *self { 1 } else { 0 }, 4) + t", "true", "assert(self.put(o) + t =~= o + self.pre(t));"),
                     dec=decode_spec("if s.len() >= 4 { Some(s.skip(4)) } else { None }", "*v == (be(s.take(4)) != 0)"),
                     wire=wire_spec("*self == *w", "let x = if *self { 1int } else { 0 }; lemma_pow(); lemma_be(x, 4); assert(self.pre(t).take(4) =~= enc_be(x, 4)); assert(self.pre(t).skip(4) =~= t);"))
    for t, n in (("f32", 4), ("f64", 8)):
        S[t] = dict(enc=encode_spec(f"o + enc_be({t}_bits(*self), {n})", f"enc_be({t}_bits(*self), {n}) + t", "true", "assert(self.put(o) + t =~= o + self.pre(t));"),
                    dec=decode_spec(f"if s.len() >= {n} {{ Some(s.skip({n})) }} else {{ None }}", f"{t}_bits(*v) == be(s.take({n}))"),
                    wire=wire_spec(f"{t}_bits(*self) == {t}_bits(*w)", f"ax_{t}(*self); lemma_pow(); lemma_be({t}_bits(*self), {n}); assert(self.pre(t).take({n}) =~= enc_be({t}_bits(*self), {n})); assert(self.pre(t).skip({n}) =~= t);"))
    S["()"] = dict(enc=encode_spec("o", "t", "true", ""), dec=decode_spec("Some(s)", "true"), wire=wire_spec("true", ""))
    cnt = "enc_be({b}.len() as int, 4)"
    for t, b in (("Opaque", "self.0@"), ("String", "utf8(self@)")):
        S[t] = dict(enc=encode_spec(f"o + enc_be({b}.len() as int, 4) + {b} + zeros(padding({b}.len() as int))",
                                    f"enc_be({b}.len() as int, 4) + ({b} + (zeros(padding({b}.len() as int)) + t))", f"{b}.len() < 0x1_0000_0000",
                                    "assert(self.put(o) + t =~= o + self.pre(t));"))
        w = b.replace("self", "w")
        full = "s.len() >= 4 && s.len() >= 4 + be(s.take(4)) + padding(be(s.take(4)))" + ("" if t == "Opaque" else " && chars(s.subrange(4, 4 + be(s.take(4)))) is Some")
        val = "v.0@ == s.subrange(4, 4 + be(s.take(4)))" if t == "Opaque" else "Some(v@) == chars(s.subrange(4, 4 + be(s.take(4))))"
        S[t]["dec"] = decode_spec(f"if {full} {{ Some(s.skip(4 + be(s.take(4)) + padding(be(s.take(4))))) }} else {{ None }}", val)
        rt = f"""let b = {b}; let s = self.pre(t); lemma_pow(); lemma_be(b.len() as int, 4); assert(s.take(4) =~= enc_be(b.len() as int, 4));
        assert(s.subrange(4, 4 + b.len() as int) =~= b); assert(s.skip(4 + b.len() as int + padding(b.len() as int)) =~= t);"""
        if t == "String":
            rt += " ax_utf8(self@);"
        S[t]["wire"] = wire_spec("self.0@ == w.0@" if t == "Opaque" else "self@ == w@", rt)
    S["FixedOpaque<N>"] = dict(enc=encode_spec("o + self.0@ + zeros(padding(N as int))", "self.0@ + (zeros(padding(N as int)) + t)", "true", "assert(self.put(o) + t =~= o + self.pre(t));"),
                               dec=decode_spec("if s.len() >= N + padding(N as int) { Some(s.skip(N + padding(N as int))) } else { None }", "v.0@ == s.take(N as int)"),
                               wire=wire_spec("self.0@ == w.0@", "assert(self.pre(t).take(N as int) =~= self.0@); assert(self.pre(t).skip(N + padding(N as int)) =~= t);"))
    S["Vec<T>"] = dict(enc=encode_spec("put_all(self@, o + enc_be(self@.len() as int, 4))", "enc_be(self@.len() as int, 4) + pre_all(self@, t)",
                                       "self@.len() < 0x1_0000_0000 && forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i].fits()",
                                       "lemma_put_all(self@, o + enc_be(self@.len() as int, 4), t); assert(self.put(o) + t =~= o + self.pre(t));"),
                       dec=decode_spec("if s.len() >= 4 { rest_all::<T>(s.skip(4), be(s.take(4))) } else { None }", "v@.len() == be(s.take(4)) && val_all(s.skip(4), v@)"),
                       wire=wire_spec("self@.len() == w@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).same(&w@[i])",
                                      "lemma_pow(); lemma_be(self@.len() as int, 4); assert(self.pre(t).take(4) =~= enc_be(self@.len() as int, 4)); assert(self.pre(t).skip(4) =~= pre_all(self@, t)); lemma_rt_all(self@, t);"))
    S["Option<T>"] = dict(enc=encode_spec("match *self { Some(x) => x.put(true.put(o)), None => false.put(o) }", "match *self { Some(x) => true.pre(x.pre(t)), None => false.pre(t) }",
                                          "*self is Some ==> self->0.fits()",
                                          "(*self is Some).lemma_put(o, match *self { Some(x) => x.pre(t), None => t }); if let Some(x) = *self { x.lemma_put(true.put(o), t); }"),
                          dec=decode_spec("match bool::rest(s) { Some(s1) => if be(s.take(4)) == 0 { Some(s1) } else { T::rest(s1) }, None => None }",
                                          "(be(s.take(4)) == 0 ==> *v is None) && (be(s.take(4)) == 1 ==> *v is Some && T::val(bool::rest(s)->0, &v->0))"),
                          wire=wire_spec("(*self is Some) == (*w is Some) && (*self is Some ==> self->0.same(&w->0))",
                                         "lemma_pow(); lemma_be(1, 4); lemma_be(0, 4); (*self is Some).rt(match *self { Some(x) => x.pre(t), None => t }); assert(self.pre(t).take(4) =~= enc_be(if *self is Some { 1int } else { 0 }, 4)); if let Some(x) = *self { x.rt(t); }"))
    for n, (_, fs) in STRUCT.items():
        put, pre, rest, val = "o", "t", "Some(s)", []
        lem, rt = [], []
        for k, (f, ty) in enumerate(fs):
            lem.append((f, put))
            put = f"self.{f}.put({put})"
        pres = ["t"]
        for f, ty in reversed(fs):
            pres.append(f"self.{f}.pre({pres[-1]})")
        # rest: nested lets
        body, closing, src = "", "", "s"
        for k, (f, ty) in enumerate(fs):
            if k == len(fs) - 1:
                body += f"{ty}::rest({src})"
            else:
                body += f"match {ty}::rest({src}) {{ None => None, Some(s{k}) => "
                closing += " }"
            val.append(f"{ty}::val({src}, &v.{f})")
            src = f"{ty}::rest({src})->0"
        S[n] = dict(enc=encode_spec(put, pres[-1], " && ".join(f"self.{f}.fits()" for f, _ in fs),
                                    " ".join(f"self.{f}.lemma_put({p}, {pres[len(fs) - 1 - k]});" for k, (f, p) in enumerate(lem))),
                    dec=decode_spec(body + closing, " && ".join(val)),
                    wire=wire_spec(" && ".join(f"self.{f}.same(&w.{f})" for f, _ in fs), " ".join(f"self.{f}.rt({pres[len(fs) - 1 - k]});" for k, (f, _) in enumerate(fs))))
    for n, (_, tab, other) in UNION.items():
        P = plain(tab)
        put = pre = fits = lem = rt = same = ""
        rest = val = ""
        for v, (c, ty) in P.items():
            if ty:
                put += f"{n}::{v}(x) => x.put(({c}u32).put(o)), "
                pre += f"{n}::{v}(x) => ({c}u32).pre(x.pre(t)), "
                fits += f"{n}::{v}(x) => x.fits(), "
                lem += f"{n}::{v}(x) => {{ ({c}u32).lemma_put(o, x.pre(t)); x.lemma_put(({c}u32).put(o), t); }}, "
                rt += f"{n}::{v}(x) => {{ ({c}u32).rt(x.pre(t)); x.rt(t); }}, "
                rest += f"if be(s.take(4)) == {c} {{ {ty}::rest(u32::rest(s)->0) }} else "
                val += f"if be(s.take(4)) == {c} {{ *v is {v} && {ty}::val(u32::rest(s)->0, &v->{v}_0) }} else "
                same += f"{n}::{v}(x) => *w is {v} && x.same(&w->{v}_0), "
            else:
                put += f"{n}::{v} => ({c}u32).put(o), "
                pre += f"{n}::{v} => ({c}u32).pre(t), "
                fits += f"{n}::{v} => true, "
                lem += f"{n}::{v} => ({c}u32).lemma_put(o, t), "
                rt += f"{n}::{v} => ({c}u32).rt(t), "
                rest += f"if be(s.take(4)) == {c} {{ u32::rest(s) }} else "
                val += f"if be(s.take(4)) == {c} {{ *v is {v} }} else "
                same += f"{n}::{v} => *w is {v}, "
        if other:
            put += f"{n}::{other}(x) => x.put(o), "
            pre += f"{n}::{other}(x) => x.pre(t), "
            fits += f"{n}::{other}(x) => " + " && ".join(f"x != {c}" for c, _ in P.values()) + ", "
            lem += f"{n}::{other}(x) => x.lemma_put(o, t), "
            rt += f"{n}::{other}(x) => x.rt(t), "
            same += f"{n}::{other}(x) => *w is {other} && x == w->{other}_0, "
            rest += "{ u32::rest(s) }"
            val += f"{{ *v is {other} && u32::val(s, &v->{other}_0) }}"
        elif n == "DeviceAddrFamily":
            # an unknown family is kept apart and is not a value that can be sent
            put += "_ => o, "; pre += "_ => t, "; fits += "_ => false, "; rt += "_ => {}, "; same += "_ => *w is _Invalid, "
            lem += "_ => {}, "
            rest += "{ u32::rest(s) }"
            val += "{ *v is _Invalid }"
        else:
            rest += "{ None }"
            val += "{ false }"
        S[n] = dict(enc=encode_spec(f"match *self {{ {put} }}", f"match *self {{ {pre} }}", f"match *self {{ {fits} }}", f"match *self {{ {lem} }}"),
                    dec=decode_spec(f"if s.len() < 4 {{ None }} else {rest}", val),
                    wire=wire_spec(f"match *self {{ {same} }}", f"lemma_pow(); lemma_code(self.code(), match *self {{ {', '.join(f'{n}::{v}(x) => x.pre(t)' for v, (c, ty) in P.items() if ty) + (', ' if any(ty for _, ty in P.values()) else '')}_ => t }}); match *self {{ {rt} }}"),
                    code=f"    spec fn code(&self) -> u32 {{ match *self {{ " + ", ".join(f"{n}::{v}{'(_)' if ty else ''} => {c}u32" for v, (c, ty) in P.items())
                         + (f", {n}::{other}(x) => x" if other else (", _ => 2u32" if n == "DeviceAddrFamily" else "")) + " } }\n")
    return S


TRAITS = r'''
// ---- XDR as a relation between bytes and values -----------------------------------------------------------------
// put(o): the bytes o followed by the encoding; pre(t): the encoding followed by the bytes t; fits: can be encoded at all
// rest(s): what is left of s after one value, None if s does not start with a (complete) value; val(s, v): v is that value
'''


def trait_text(rd, wr, render=None):
    """the two traits; rd/wr: the concrete reader and writer"""
    enc = f"""pub trait XdrEncode {{
    spec fn put(&self, o: Seq<u8>) -> Seq<u8>;
    spec fn pre(&self, t: Seq<u8>) -> Seq<u8>;
    spec fn fits(&self) -> bool;
    proof fn lemma_put(&self, o: Seq<u8>, t: Seq<u8>) ensures self.put(o) + t == o + self.pre(t);
//@fn XdrEncode::write_xdr
    fn write_xdr(&self, writer: &mut {wr}) -> (r: Result<(), Error>)
        requires /*P13*/ self.fits()
        ensures /*P13*/ r is Ok ==> final(writer).sent() == self.put(old(writer).sent()) && final(writer).io_ok() == old(writer).io_ok(),
            /*P13*/ r is Err ==> !old(writer).io_ok();
//@end
}}
"""
    dec = f"""pub trait XdrDecode: Sized {{
    spec fn rest(s: Seq<u8>) -> Option<Seq<u8>>;
    spec fn val(s: Seq<u8>, v: &Self) -> bool;
//@fn XdrDecode::read_xdr
    fn read_xdr(&mut self, reader: &mut {rd}) -> (r: Result<(), Error>)
        ensures /*P13*/ r is Ok ==> Self::rest(old(reader).rem()) == Some(final(reader).rem()) && Self::val(old(reader).rem(), final(self)) && final(reader).io_ok() == old(reader).io_ok(),
            /*P13*/ r is Err && old(reader).io_ok() ==> Self::rest(old(reader).rem()) is None;
//@end
}}
"""
    wire = """pub trait XdrWire: XdrEncode + XdrDecode {
    spec fn same(&self, w: &Self) -> bool;
    proof fn rt(&self, t: Seq<u8>)
        requires self.fits()
        ensures /*P13*/ Self::rest(self.pre(t)) == Some(t), /*P13*/ forall|w: Self| #[trigger] Self::val(self.pre(t), &w) ==> self.same(&w);
}
"""
    return TRAITS + enc + dec + wire


XBYTES = r'''
spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
// RFC 4506: the unit is four bytes
spec fn padding(n: int) -> int { (4 - n % 4) % 4 }
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn chars(s: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
proof fn ax_utf8(s: Seq<char>) ensures chars(utf8(s)) == Some(s) {}
uninterp spec fn f32_bits(x: f32) -> int;
uninterp spec fn f64_bits(x: f64) -> int;
#[verifier::external_body]
proof fn ax_f32(x: f32) ensures 0 <= f32_bits(x) < 0x1_0000_0000 {}
#[verifier::external_body]
proof fn ax_f64(x: f64) ensures 0 <= f64_bits(x) < 0x1_0000_0000_0000_0000 {}
proof fn lemma_code(c: u32, t: Seq<u8>) ensures be((enc_be(c as int, 4) + t).take(4)) == c, (enc_be(c as int, 4) + t).len() >= 4 {
    lemma_pow(); lemma_be(c as int, 4); assert((enc_be(c as int, 4) + t).take(4) =~= enc_be(c as int, 4));
}
spec fn put_all<T: XdrEncode>(v: Seq<T>, o: Seq<u8>) -> Seq<u8> decreases v.len() { if v.len() == 0 { o } else { v.last().put(put_all(v.drop_last(), o)) } }
spec fn pre_all<T: XdrEncode>(v: Seq<T>, t: Seq<u8>) -> Seq<u8> decreases v.len() { if v.len() == 0 { t } else { v[0].pre(pre_all(v.skip(1), t)) } }
proof fn lemma_put_all<T: XdrEncode>(v: Seq<T>, o: Seq<u8>, t: Seq<u8>) ensures put_all(v, o) + t == o + pre_all(v, t) decreases v.len() {
    if v.len() > 0 {
        v.last().lemma_put(put_all(v.drop_last(), o), t);
        lemma_put_all(v.drop_last(), o, v.last().pre(t));
        lemma_pre_last(v, t);
    }
}
proof fn lemma_pre_last<T: XdrEncode>(v: Seq<T>, t: Seq<u8>) requires v.len() > 0 ensures pre_all(v, t) == pre_all(v.drop_last(), v.last().pre(t)) decreases v.len() {
    if v.len() == 1 {
        assert(v.skip(1) =~= Seq::empty()); assert(v.drop_last() =~= Seq::empty());
        assert(pre_all(Seq::<T>::empty(), t) == t);
    } else {
        lemma_pre_last(v.skip(1), t);
        assert(v.skip(1).drop_last() =~= v.drop_last().skip(1));
        assert(v.skip(1).last() == v.last());
    }
}
spec fn rest_all<T: XdrDecode>(s: Seq<u8>, n: int) -> Option<Seq<u8>> decreases n { if n <= 0 { Some(s) } else { match T::rest(s) { None => None, Some(s1) => rest_all::<T>(s1, n - 1) } } }
spec fn val_all<T: XdrDecode>(s: Seq<u8>, v: Seq<T>) -> bool decreases v.len() { if v.len() == 0 { true } else { T::val(s, &v[0]) && T::rest(s) is Some && val_all(T::rest(s)->0, v.skip(1)) } }
proof fn lemma_rest_step<T: XdrDecode>(s: Seq<u8>, n: int) requires n >= 0
    ensures rest_all::<T>(s, n) is None ==> rest_all::<T>(s, n + 1) is None, rest_all::<T>(s, n) is Some ==> rest_all::<T>(s, n + 1) == T::rest(rest_all::<T>(s, n)->0) decreases n {
    reveal_with_fuel(rest_all, 3);
    if n > 0 && T::rest(s) is Some { lemma_rest_step::<T>(T::rest(s)->0, n - 1); }
}
proof fn lemma_rest_mono<T: XdrDecode>(s: Seq<u8>, n: int, m: int) requires 0 <= n <= m, rest_all::<T>(s, n) is None ensures rest_all::<T>(s, m) is None decreases m - n {
    if n < m { lemma_rest_step::<T>(s, n); lemma_rest_mono::<T>(s, n + 1, m); }
}
proof fn lemma_val_step<T: XdrDecode>(s: Seq<u8>, v: Seq<T>, x: T)
    requires val_all(s, v), rest_all::<T>(s, v.len() as int) is Some, T::val(rest_all::<T>(s, v.len() as int)->0, &x), T::rest(rest_all::<T>(s, v.len() as int)->0) is Some
    ensures val_all(s, v.push(x)) decreases v.len() {
    if v.len() == 0 {
        assert(v.push(x).skip(1) =~= Seq::empty()); assert(val_all(T::rest(s)->0, Seq::<T>::empty()));
    } else {
        assert(v.push(x).skip(1) =~= v.skip(1).push(x)); lemma_val_step(T::rest(s)->0, v.skip(1), x);
    }
}
proof fn lemma_rt_all<T: XdrWire>(v: Seq<T>, t: Seq<u8>)
    requires forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).fits()
    ensures rest_all::<T>(pre_all(v, t), v.len() as int) == Some(t),
        forall|w: Seq<T>| w.len() == v.len() && #[trigger] val_all(pre_all(v, t), w) ==> forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).same(&w[i])
    decreases v.len()
{
    if v.len() > 0 {
        assert forall|i: int| 0 <= i < v.skip(1).len() implies (#[trigger] v.skip(1)[i]).fits() by { assert(v.skip(1)[i] == v[i + 1]); }
        v[0].rt(pre_all(v.skip(1), t));
        lemma_rt_all(v.skip(1), t);
        assert forall|w: Seq<T>| w.len() == v.len() && #[trigger] val_all(pre_all(v, t), w) implies forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).same(&w[i]) by {
            assert(T::val(pre_all(v, t), &w[0]));
            let w1 = w.skip(1);
            assert(val_all(pre_all(v.skip(1), t), w1));
            assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).same(&w[i]) by {
                if i > 0 { assert(v.skip(1)[i - 1] == v[i]); assert(w1[i - 1] == w[i]); }
            }
        }
    }
}
'''

STDIO = r'''
// ---- trusted stand-ins for std::io readers and writers with byteorder's extension methods -----------------------------
// rem: the bytes that are still to come; sent: the bytes written so far; io_ok: the reader or writer itself never fails
pub trait ByteOrder { spec fn big() -> bool; }
struct BigEndian; struct LittleEndian;
type NetworkEndian = BigEndian;
impl ByteOrder for BigEndian { spec fn big() -> bool { true } }
impl ByteOrder for LittleEndian { spec fn big() -> bool { false } }
uninterp spec fn le(s: Seq<u8>) -> int;
uninterp spec fn enc_le(v: int, n: nat) -> Seq<u8>;
spec fn dec_bo<B: ByteOrder>(s: Seq<u8>) -> int { if B::big() { be(s) } else { le(s) } }
spec fn enc_bo<B: ByteOrder>(v: int, n: nat) -> Seq<u8> { if B::big() { enc_be(v, n) } else { enc_le(v, n) } }
struct VxRead { rem: Ghost<Seq<u8>>, io_ok: Ghost<bool> }
struct VxWrite { sent: Ghost<Seq<u8>>, io_ok: Ghost<bool> }
struct Take<'a> { r: &'a mut VxRead, n: u64 }
'''


def rd_methods():
    o = "impl VxRead {\n    spec fn rem(&self) -> Seq<u8> { self.rem@ }\n    spec fn io_ok(&self) -> bool { self.io_ok@ }\n"

    def m(name, gen, ty, n, val):
        return f"""    #[verifier::external_body]
    fn {name}{gen}(&mut self) -> (r: Result<{ty}, Error>)
        ensures r is Ok ==> old(self).rem().len() >= {n} && {val} && final(self).rem() == old(self).rem().skip({n}) && final(self).io_ok() == old(self).io_ok(),
            r is Err && old(self).io_ok() ==> old(self).rem().len() < {n} {{ unimplemented!() }}
"""
    o += m("read_u8", "", "u8", 1, "r->Ok_0 == old(self).rem()[0]") + m("read_i8", "", "i8", 1, "r->Ok_0 as int == (if old(self).rem()[0] >= 128 { old(self).rem()[0] - 256 } else { old(self).rem()[0] as int })")
    for b in (16, 32, 64):
        n = b // 8
        x = f"dec_bo::<B>(old(self).rem().take({n}))"
        o += m(f"read_u{b}", "<B: ByteOrder>", f"u{b}", n, f"r->Ok_0 as int == {x}")
        o += m(f"read_i{b}", "<B: ByteOrder>", f"i{b}", n, f"r->Ok_0 as int == (if {x} >= {2**(b-1)} {{ {x} - {2**b} }} else {{ {x} }})")
    for b in (32, 64):
        n = b // 8
        o += m(f"read_f{b}", "<B: ByteOrder>", f"f{b}", n, f"f{b}_bits(r->Ok_0) == dec_bo::<B>(old(self).rem().take({n}))")
    o += r'''    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), Error>)
        ensures r is Ok ==> old(self).rem().len() >= old(buf)@.len() && final(buf)@ == old(self).rem().take(old(buf)@.len() as int)
                    && final(self).rem() == old(self).rem().skip(old(buf)@.len() as int) && final(self).io_ok() == old(self).io_ok(),
                r is Err && old(self).io_ok() ==> old(self).rem().len() < old(buf)@.len() { unimplemented!() }
    #[verifier::external_body]
    fn take(&mut self, n: u64) -> (t: Take<'_>) ensures *t.r == *old(self), *final(t.r) == *final(self), t.n == n { unimplemented!() }
}
impl<'a> Take<'a> {
    #[verifier::external_body]
    fn read_to_end(self, buf: &mut Vec<u8>) -> (r: Result<usize, Error>)
        ensures r is Ok ==> ({ let s = old(self.r).rem(); let n = if s.len() < self.n { s.len() as int } else { self.n as int };
                    r->Ok_0 == n && final(buf)@ == old(buf)@ + s.take(n) && final(self.r).rem() == s.skip(n)
                    && final(self.r).io_ok() == old(self.r).io_ok() }),
                r is Err ==> !old(self.r).io_ok() { unimplemented!() }
    #[verifier::external_body]
    fn read_to_string(self, buf: &mut String) -> (r: Result<usize, Error>)
        ensures ({ let s = old(self.r).rem(); let n = if s.len() < self.n { s.len() as int } else { self.n as int };
                (r is Ok ==> r->Ok_0 == n && chars(s.take(n)) is Some && final(buf)@ == old(buf)@ + chars(s.take(n))->0 && final(self.r).rem() == s.skip(n)
                    && final(self.r).io_ok() == old(self.r).io_ok())
                && (r is Err && old(self.r).io_ok() ==> chars(s.take(n)) is None) }) { unimplemented!() }
}
'''
    o += "impl VxWrite {\n    spec fn sent(&self) -> Seq<u8> { self.sent@ }\n    spec fn io_ok(&self) -> bool { self.io_ok@ }\n"

    def w(name, gen, arg, val):
        return f"""    #[verifier::external_body]
    fn {name}{gen}(&mut self, {arg}) -> (r: Result<(), Error>)
        ensures r is Ok ==> final(self).sent() == old(self).sent() + {val} && final(self).io_ok() == old(self).io_ok(), r is Err ==> !old(self).io_ok() {{ unimplemented!() }}
"""
    o += w("write_all", "", "b: &[u8]", "b@") + w("write_u8", "", "v: u8", "seq![v]") + w("write_i8", "", "v: i8", "seq![(if v < 0 { v as int + 256 } else { v as int }) as u8]")
    o += """    // it may take less than it is given
    #[verifier::external_body]
    fn write(&mut self, b: &[u8]) -> (r: Result<usize, Error>)
        ensures r is Ok ==> r->Ok_0 <= b@.len() && final(self).sent() == old(self).sent() + b@.take(r->Ok_0 as int) && final(self).io_ok() == old(self).io_ok(), r is Err ==> !old(self).io_ok() { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), Error>) ensures final(self).sent() == old(self).sent(), r is Ok ==> final(self).io_ok() == old(self).io_ok(), r is Err ==> !old(self).io_ok() { unimplemented!() }
"""
    for b in (16, 32, 64):
        o += w(f"write_u{b}", "<B: ByteOrder>", f"v: u{b}", f"enc_bo::<B>(v as int, {b // 8})")
        o += w(f"write_i{b}", "<B: ByteOrder>", f"v: i{b}", f"enc_bo::<B>(if v < 0 {{ v as int + {2**b} }} else {{ v as int }}, {b // 8})")
    for b in (32, 64):
        o += w(f"write_f{b}", "<B: ByteOrder>", f"v: f{b}", f"enc_bo::<B>(f{b}_bits(v), {b // 8})")
    return o + "}\n"


STRAX = r'''
pub assume_specification [std::string::String::as_bytes] (s: &std::string::String) -> (r: &[u8]) ensures r@ == utf8(s@);
pub assume_specification [std::string::String::len] (s: &std::string::String) -> (r: usize) ensures r == utf8(s@).len();
'''

TRUST = ["std::io::Read/Write with byteorder's extension methods transfer exactly the bytes they report, big-endian for NetworkEndian; readers fail only at end of input (read_to_string also on bytes that are not UTF-8) or when the reader itself fails",
         "String::as_bytes/len are the UTF-8 encoding and its length", "f32/f64 are carried as their bit patterns"]


def deflt(ty, x):
    """spec text: x is the default value of ty"""
    if ty in INTS:
        return f"{x} == 0"
    if ty == "bool":
        return f"!{x}"
    if ty == "Opaque":
        return f"{x}.0@ == Seq::<u8>::empty()"
    if ty == "String":
        return f"{x}@ == Seq::<char>::empty()"
    if ty in STRUCT:
        return "(" + " && ".join(deflt(t, f"{x}.{f}") for f, t in STRUCT[ty][1]) + ")"
    v, (c, p) = list(plain(UNION[ty][1]).items())[0]
    return f"{x} is {v}" + (" && " + deflt(p, f"{x}->{v}_0") if p else "")


def derived_default(n):
    fs = STRUCT[n][1]
    if fs[0][0] == "0":
        body = f"{n}(Default::default())"
    else:
        body = f"{n} {{ " + ", ".join(f"{f}: Default::default()" for f, _ in fs) + " }"
    return f"impl Default for {n} {{\n    fn default() -> (r: Self) ensures {deflt(n, 'r')} {{ {body} }}\n}}\n"


def base_default(ty):
    return ""


def pubify(t):
    """a type with every field visible (the trait impls of std that mention them are visible)"""
    t = re.sub(r"\b(struct|enum) ", r"pub \1 ", t, count=1)
    if "enum " in t:
        return t
    if "{" in t:
        return re.sub(r"([{,]\s*)(\w+\s*:)(?!:)", r"\1pub \2", t)
    return re.sub(r"\(\s*", "(pub ", t, count=1) if ")" in t and "derive" not in t else re.sub(r"(struct \w+(?:<[^(]*>)?\()\s*", r"\1pub ", t, count=1)


# ---- what the layers above XDR are verified against -------------------------------------------------------------------
LEMMAS = r'''//RAW
mod vxl {
    use vstd::prelude::*;
    verus! {
    pub broadcast proof fn l_skip(s: Seq<u8>, a: int, b: int) requires 0 <= a, 0 <= b, a + b <= s.len() ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b) { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
    pub broadcast proof fn l_empty(s: Seq<u8>) ensures #[trigger] (Seq::<u8>::empty() + s) == s { assert(Seq::<u8>::empty() + s =~= s); }
    pub broadcast proof fn l_empty2(s: Seq<u8>) ensures #[trigger] (s + Seq::<u8>::empty()) == s { assert(s + Seq::<u8>::empty() =~= s); }
    pub broadcast proof fn l_suffix(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] (a + b).skip(a.len() as int) == b { assert((a + b).skip(a.len() as int) =~= b); }
    pub broadcast proof fn l_full(s: Seq<u8>, n: int) requires n == s.len() ensures #[trigger] s.subrange(0, n) == s { assert(s.subrange(0, n) =~= s); }
    pub broadcast group all { l_skip, l_empty, l_empty2, l_suffix, l_full }
    }
}
'''
CURSOR = r'''
// ---- trusted stand-in for std::io::Cursor<Vec<u8>>: it never fails, reads what it was made of and collects what is written
struct Cursor { rem: Ghost<Seq<u8>>, sent: Ghost<Seq<u8>> }
impl Cursor {
    spec fn rem(&self) -> Seq<u8> { self.rem@ }
    spec fn sent(&self) -> Seq<u8> { self.sent@ }
    spec fn io_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn new(v: Vec<u8>) -> (r: Cursor) ensures r.rem() == v@, v@.len() == 0 ==> r.sent() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn into_inner(self) -> (r: Vec<u8>) ensures r@ == self.sent() { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> (r: Result<(), Error>) ensures r is Ok, final(self).sent() == old(self).sent() + b@ { unimplemented!() }
    #[verifier::external_body]
    fn write(&mut self, b: &[u8]) -> (r: Result<usize, Error>) ensures r is Ok, r->Ok_0 == b@.len(), final(self).sent() == old(self).sent() + b@ { unimplemented!() }
}
'''
CURSOR_TRUST = "io::Cursor<Vec<u8>> never fails, reads what it was made of and collects what is written to an empty one"


def ext_specs(t):
    """proofs of another group are used by their statements"""
    return re.sub(r"    proof fn (lemma_put|rt)\((.*?)\) \{.*?\}\n(?=    |\}|$)", r"    #[verifier::external_body] proof fn \1(\2) {}\n", t, flags=re.S)


def prelude(R, types=True):
    """the wire types of the source with the XDR contracts that group xdr proves, for readers and writers that are cursors"""
    from rx import File
    import xdr as X
    S = specs()
    files = {k: File(v) for k, v in FILES.items()}
    fb = File(BASIC)
    out = []
    for n, k in [(n, v[0]) for n, v in STRUCT.items()] + [(n, v[0]) for n, v in UNION.items()]:
        t, it = X.type_text(R, files[k], n)
        out.append(pubify(t))
        if n in STRUCT:
            out.append(derived_default(n))
        else:
            out.append(f"impl Default for {n} {{\n    #[verifier::external_body] fn default() -> (r: Self) ensures {deflt(n, 'r')} {{ unimplemented!() }}\n}}\n")
    for n in ("FixedOpaque", "Opaque"):
        it = fb.find("struct", n)
        out.append(pubify(R.clean(fb, it.head, it.hi, [])))
    out.append("impl Default for Opaque {\n    fn default() -> (r: Self) ensures r.0@ == Seq::<u8>::empty() { Opaque(Vec::new()) }\n}\n")
    for ty in S:
        g = {"FixedOpaque<N>": "<const N: usize>", "Vec<T>": ("<T: XdrEncode>", "<T: XdrDecode + Default>", "<T: XdrWire + Default>"), "Option<T>": ("<T: XdrEncode>", "<T: XdrDecode + Default>", "<T: XdrWire + Default>")}.get(ty, "")
        ge, gd, gw = g if isinstance(g, tuple) else (g, g, g)
        out.append(f"impl{ge} XdrEncode for {ty} {{\n{ext_specs(S[ty]['enc'])}    #[verifier::external_body] fn write_xdr(&self, writer: &mut Cursor) -> (r: Result<(), Error>) {{ unimplemented!() }}\n}}\n")
        out.append(f"impl{gd} XdrDecode for {ty} {{\n{S[ty]['dec']}    #[verifier::external_body] fn read_xdr(&mut self, reader: &mut Cursor) -> (r: Result<(), Error>) {{ unimplemented!() }}\n}}\n")
        if "code" in S[ty]:
            out.append(f"impl {ty} {{\n{S[ty]['code']}}}\n")
        out.append(f"impl{gw} XdrWire for {ty} {{\n{ext_specs(S[ty]['wire'])}}}\n")
        for m in ("write_xdr", "read_xdr"):
            R.external.append(f"{ty}::{m}")
            R.elsewhere[f"{ty}::{m}"] = "xdr"
    tt = trait_text("Cursor", "Cursor")
    for a in ("//@fn XdrEncode::write_xdr\n", "//@fn XdrDecode::read_xdr\n", "//@end\n", "/*P13*/ "):
        tt = tt.replace(a, "")
    return [H.IO, LEMMAS, "use io::Error; use io::ErrorKind;", H.BYTES, STRAX, CURSOR, tt, XBYTES, "//RAW\n" + "\n".join(out)]
