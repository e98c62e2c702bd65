"""Specification shared by the HiSLIP groups: tables of IVI-6.1 and the message contracts."""
import re

TYPES = {n: i for i, n in enumerate("""Initialize InitializeResponse FatalError Error AsyncLock AsyncLockResponse Data DataEnd DeviceClearComplete
DeviceClearAcknowledge AsyncRemoteLocalControl AsyncRemoteLocalResponse Trigger Interrupted AsyncInterrupted AsyncMaximumMessageSize
AsyncMaximumMessageSizeResponse AsyncInitialize AsyncInitializeResponse AsyncDeviceClear AsyncServiceRequest AsyncStatusQuery
AsyncStatusResponse AsyncDeviceClearAcknowledge AsyncLockInfo AsyncLockInfoResponse GetDescriptors GetDescriptorsResponse StartTLS
AsyncStartTLS AsyncStartTLSResponse EndTLS AsyncEndTLS AsyncEndTLSResponse GetSaslMechanismList GetSaslMechanismListResponse
AuthenticationStart AuthenticationExchange AuthenticationResult""".split())}
FATAL = "UnidentifiedError PoorlyFormattedMessageHeader AttemptUseWithoutBothChannels InvalidInitialization MaximumClientsExceeded SecureConnectionFailed".split()
NONFATAL = "UnidentifiedError UnrecognizedMessageType UnrecognizedControlCode UnrecognizedVendorDefinedMessage MessageTooLarge AuthenticationFailed".split()


def tables():
    o = "spec fn type_code(t: MessageType) -> int { match t {\n"
    for n, i in TYPES.items():
        o += f"    MessageType::{n} => {i},\n"
    o += "    MessageType::VendorSpecific(x) => (x | 0x80u8) as int,\n} }\n"
    o += "spec fn type_of(c: int) -> Option<MessageType> { "
    for n, i in TYPES.items():
        o += f"if c == {i} {{ Some(MessageType::{n}) }} else "
    o += "if 128 <= c <= 255 { Some(MessageType::VendorSpecific(c as u8)) } else { None } }\n"
    o += "spec fn fatal_code(e: FatalErrorCode) -> int { match e {\n"
    for i, n in enumerate(FATAL):
        o += f"    FatalErrorCode::{n} => {i},\n"
    o += "    FatalErrorCode::Extension(x) => x as int, FatalErrorCode::DeviceDefined(x) => x as int, FatalErrorCode::IoError => 128, FatalErrorCode::LockError => 129,\n} }\n"
    o += "spec fn nonfatal_code(e: NonFatalErrorCode) -> int { match e {\n"
    for i, n in enumerate(NONFATAL):
        o += f"    NonFatalErrorCode::{n} => {i},\n"
    o += "    NonFatalErrorCode::Extension(x) => x as int, NonFatalErrorCode::DeviceDefined(x) => x as int,\n} }\n"
    for nm, ty, tab in (("fatal_of", "FatalErrorCode", FATAL), ("nonfatal_of", "NonFatalErrorCode", NONFATAL)):
        o += f"spec fn {nm}(c: int) -> {ty} {{ "
        for i, n in enumerate(tab):
            o += f"if c == {i} {{ {ty}::{n} }} else "
        o += f"if c < 128 {{ {ty}::Extension(c as u8) }} else {{ {ty}::DeviceDefined(c as u8) }} }}\n"
    return o


IO = r'''//RAW
// ---- trusted stand-ins for std::io errors ---------------------------------------------------------------------
mod io {
    use vstd::prelude::*;
    verus! {
    #[derive(Clone, Copy)]
    pub enum ErrorKind { UnexpectedEof, OutOfMemory, Unsupported, NotFound, PermissionDenied, AlreadyExists, WriteZero, AddrInUse, AddrNotAvailable, Other, InvalidData, InvalidInput, BrokenPipe, WouldBlock, Interrupted, TimedOut, ConnectionAborted, ConnectionReset }
    impl PartialEq for ErrorKind {
        #[verifier::external_body]
        fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
    }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
    }
    pub struct Error { pub k: ErrorKind }
    impl core::convert::From<ErrorKind> for Error {
        fn from(k: ErrorKind) -> (r: Error) { Error { k } }
    }
    impl vstd::std_specs::convert::FromSpecImpl<ErrorKind> for Error {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(k: ErrorKind) -> Error { Error { k } }
    }
    impl Error {
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k }
    }
    }
}
'''

BYTES = r'''
spec fn be(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { be(s.drop_last()) * 256 + s.last() as int } }
// the n-byte big-endian representation
spec fn enc_be(v: int, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { enc_be(v / 256, (n - 1) as nat).push((v % 256) as u8) } }
proof fn lemma_be(v: int, n: nat)
    requires 0 <= v < pow256(n)
    ensures enc_be(v, n).len() == n, be(enc_be(v, n)) == v
    decreases n
{
    if n > 0 {
        assert(pow256(n) == 256 * pow256((n - 1) as nat));
        lemma_be(v / 256, (n - 1) as nat);
        let e = enc_be(v, n);
        assert(e.drop_last() =~= enc_be(v / 256, (n - 1) as nat));
    }
}
spec fn pow256(n: nat) -> int decreases n { if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }
proof fn lemma_enc_len(v: int, n: nat) ensures enc_be(v, n).len() == n decreases n { if n > 0 { lemma_enc_len(v / 256, (n - 1) as nat); } }
proof fn lemma_pow() ensures pow256(2) == 0x1_0000, pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000 {
    reveal_with_fuel(pow256, 9);
}
'''

BYTEORDER = r'''
// ---- trusted stand-in for byteorder ---------------------------------------------------------------------------
struct BigEndian;
type NetworkEndian = BigEndian;
impl BigEndian {
    #[verifier::external_body]
    fn read_u16(s: &[u8]) -> (r: u16) requires s@.len() >= 2 ensures r as int == be(s@.take(2)) { unimplemented!() }
    #[verifier::external_body]
    fn read_u32(s: &[u8]) -> (r: u32) requires s@.len() >= 4 ensures r as int == be(s@.take(4)) { unimplemented!() }
    #[verifier::external_body]
    fn read_u64(s: &[u8]) -> (r: u64) requires s@.len() >= 8 ensures r as int == be(s@.take(8)) { unimplemented!() }
    #[verifier::external_body]
    fn write_u16(s: &mut [u8], v: u16) requires old(s)@.len() >= 2 ensures final(s)@ == enc_be(v as int, 2) + old(s)@.skip(2) { unimplemented!() }
    #[verifier::external_body]
    fn write_u32(s: &mut [u8], v: u32) requires old(s)@.len() >= 4 ensures final(s)@ == enc_be(v as int, 4) + old(s)@.skip(4) { unimplemented!() }
    #[verifier::external_body]
    fn write_u64(s: &mut [u8], v: u64) requires old(s)@.len() >= 8 ensures final(s)@ == enc_be(v as int, 8) + old(s)@.skip(8) { unimplemented!() }
}
'''


# accessors whose contract is exact
BITS = ('client_protocol', 'client_vendorid', 'encryption', 'encryption_mode', 'initial_encryption', 'ivi_reserved', 'negotiated_protocol', 'overlapped', 'prefer_overlap', 'rmt_delivered', 'secure_connection', 'server_vendor_id', 'session_id', 'set_encryption', 'set_encryption_mode', 'set_initial_encryption', 'set_ivi_reserved', 'set_negotiated_protocol', 'set_overlapped', 'set_prefer_overlap', 'set_rmt_delivered', 'set_secure_connection', 'set_server_vendor_id', 'set_session_id', 'set_vendor_specific', 'vendor_specific')


def bitfield_text(f, it, derive=True):
    """a bitfield! invocation -> the struct and its accessors with contracts read off the declared bit ranges (trusted)"""
    T = f.toks
    body = f.src[T[it.body + 1].s:T[f.m[it.body]].s]
    body = re.sub(r"//[^\n]*", "", body)
    m = re.search(r"struct\s+(\w+)\s*\(\s*(u\d+)\s*\)\s*;", body)
    name, base = m.group(1), m.group(2)
    w = int(base[1:])
    out = f"#[derive(Clone, Copy)]\nstruct {name}({base});\n"
    acc = []
    for st in body[m.end():].split(";"):
        st = st.strip()
        if not st or st.startswith("impl"):
            continue
        m2 = re.match(r"pub\s+(?:(u\d+)\s*,\s*)?((?:(?:from|into)\s+)*)(\w+)?\s*,?\s*(.*)$", st, re.S)
        st2 = re.sub(r"^pub\s+", "", st)
        head, rng = st2.rsplit(":", 1)
        parts = [x.strip() for x in head.split(",")]
        ty, conv = None, None
        if re.fullmatch(r"u\d+", parts[0]):
            ty = parts.pop(0)
        if parts[0].startswith(("from", "into")):
            mm = re.match(r"((?:(?:from|into)\s+)+)(\w+)$", parts[0])
            conv = (mm.group(1).split(), mm.group(2))
            parts.pop(0)
        get, st_ = parts[0], parts[1] if len(parts) > 1 else "_"
        r = [int(x) for x in rng.split(",")]
        hi, lo = (r[0], r[-1])
        bits = hi - lo + 1
        mask = (1 << bits) - 1
        if len(r) == 1 and ty is None:
            if get != "_":
                acc.append(f"#[verifier::external_body] fn {get}(&self) -> (r: bool) ensures r == (self.0 & ({1 << lo} as {base}) != 0) {{ unimplemented!() }}")
            if st_ != "_":
                acc.append(f"#[verifier::external_body] fn {st_}(&mut self, v: bool) ensures final(self).0 == (if v {{ old(self).0 | ({1 << lo} as {base}) }} else {{ old(self).0 & ({((1 << w) - 1) ^ (1 << lo)} as {base}) }}) {{ unimplemented!() }}")
            continue
        raw = f"((self.0 >> {lo}{base}) & ({mask} as {base})) as {ty}"
        if get != "_":
            if conv and "into" in conv[0]:
                acc.append(f"#[verifier::external_body] fn {get}(&self) -> (r: {conv[1]}) ensures r == {conv[1]}({raw}) {{ unimplemented!() }}")
            else:
                acc.append(f"#[verifier::external_body] fn {get}(&self) -> (r: {ty}) ensures r == {raw} {{ unimplemented!() }}")
        if st_ != "_":
            vt = conv[1] if conv and "from" in conv[0] else ty
            v = "v.0" if conv and "from" in conv[0] else "v"
            acc.append(f"#[verifier::external_body] fn {st_}(&mut self, v: {vt}) ensures final(self).0 == ((old(self).0 & ({((1 << w) - 1) ^ (mask << lo)} as {base})) | ((({v}) as {base} & ({mask} as {base})) << {lo}{base})) {{ unimplemented!() }}")
    out += f"impl {name} {{\n" + "\n".join(acc) + "\n}\n"
    return out, name


# ---- what the session groups share ---------------------------------------------------------------------------------
SESSION = r'''
struct Msg { t: int, c: u8, p: u32, d: Seq<u8> }
impl Message {
    spec fn msg(&self) -> Msg { Msg { t: type_code(self.message_type), c: self.control_code, p: self.message_parameter, d: self.payload@ } }
    spec fn item(&self) -> Item { Item::M(self.message_type, self.control_code, self.message_parameter, self.payload@) }
}
// what reception delivers: a message or a reception error (fatal?, code)
enum Item { M(MessageType, u8, u32, Seq<u8>), E(bool, int) }
spec fn item(r: Result<Message, Error>) -> Item { match r { Ok(m) => m.item(), Err(e) => err_item(e) } }
spec fn err_item(e: Error) -> Item { match e { Error::Fatal(c, _) => Item::E(true, fatal_code(c)), Error::NonFatal(c, _) => Item::E(false, nonfatal_code(c)) } }
// a connection: what was received and what was sent on it so far; `dead`: writing failed; `eof`: reading failed; limit: the largest payload to accept
struct VxStream { recv: Ghost<Seq<Item>>, sent: Ghost<Seq<Msg>>, dead: Ghost<bool>, eof: Ghost<bool>, limit: Ghost<u64>, extra: Ghost<Seq<Sub>> }
impl VxStream {
    spec fn same(self, o: VxStream) -> bool { self.recv == o.recv && self.sent == o.sent && self.limit == o.limit && self.extra == o.extra && self.dead == o.dead && self.eof == o.eof }
    // flush sends nothing new
    #[verifier::external_body]
    async fn flush(&mut self) -> (r: Result<(), io::Error>)
        ensures final(self).eof == old(self).eof, final(self).recv == old(self).recv, final(self).sent == old(self).sent, final(self).limit == old(self).limit, final(self).extra == old(self).extra,
            r is Ok ==> final(self).dead == old(self).dead, r is Err ==> final(self).dead@ { unimplemented!() }
}
impl Message {
    // contracts of read_from/write_to at the level of messages; the level of bytes is proved in the group hmsg
    #[verifier::external_body]
    async fn read_from(s: &mut VxStream, maxlen: u64) -> (r: Result<Result<Message, Error>, io::Error>)
        requires /*P05*/ maxlen == old(s).limit@
        ensures final(s).sent == old(s).sent, final(s).limit == old(s).limit, final(s).extra == old(s).extra,
            final(s).dead == old(s).dead,
            r is Ok ==> final(s).recv@ == old(s).recv@.push(item(r->Ok_0)),
            r is Ok && r->Ok_0 is Ok ==> match r->Ok_0->Ok_0.message_type { MessageType::VendorSpecific(x) => x >= 128, _ => true },
            r is Ok ==> final(s).eof == old(s).eof,
            r is Err ==> final(s).recv == old(s).recv && final(s).eof@ { unimplemented!() }
    #[verifier::external_body]
    async fn write_to(&self, s: &mut VxStream) -> (r: Result<(), io::Error>)
        ensures final(s).eof == old(s).eof, final(s).recv == old(s).recv, final(s).limit == old(s).limit, final(s).extra == old(s).extra,
            r is Ok ==> final(s).sent@ == old(s).sent@.push(self.msg()) && final(s).dead == old(s).dead,
            r is Err ==> final(s).sent == old(s).sent && final(s).dead@ { unimplemented!() }
}
#[verifier::external_body]
fn vx_string() -> (r: String) { unimplemented!() }
fn vx_empty() -> (r: Vec<u8>) ensures r@ == Seq::<u8>::empty() { Vec::new() }
spec fn fatal_msg(m: Msg, c: int) -> bool { m.t == 2 && m.c == c && m.p == 0 }
spec fn error_msg(m: Msg, c: int) -> bool { m.t == 3 && m.c == c && m.p == 0 }
// the answer to a reception error
spec fn err_msg(m: Msg, i: Item) -> bool { i is E && (if i->E_0 { fatal_msg(m, i->E_1) } else { error_msg(m, i->E_1) }) }
'''
SESSION_TRUST = ["Message::read_from/write_to at message level: what is received is logged, what is sent is logged, a failed write ends the claims about the connection (byte level: group hmsg)"]
STR_RW = [(r'"(?:[^"\\]|\\.)*"\s*\.(?:to_string|into|to_owned)\(\)', "vx_string()", False), (r"String::from\(\s*\"[^\"]*\"\s*\)", "vx_string()", False)]


def fmt_rw(txt):
    """format!(..) -> an arbitrary string"""
    import rx
    f = rx.File("<fmt>", "fn x() " + txt)
    T = f.toks
    ed = []
    for i, t in enumerate(T):
        if t.t == "format" and T[i + 1].t == "!" and T[i + 2].t in "([{":
            ed.append((t.s, T[f.m[i + 2]].e, "vx_string()"))
    return rx.apply(f.src, len("fn x() "), len(f.src), ed)


def mut_bind(txt):
    """names on which .lock() is called are bound as mutable"""
    import rx
    f = rx.File("<mut>", "fn x() " + txt)
    T = f.toks
    names = {T[i - 3].t for i in range(3, len(T)) if T[i].t == "(" and T[i - 1].t == "lock" and T[i - 2].t == "." and T[i - 3].k == "id" and T[i - 4].t != "."}
    ed = []

    def pat(lo, hi):
        for k in range(lo, hi):
            if T[k].k == "id" and T[k].t in names and T[k - 1].t not in ("mut", "ref", ".", "::") and T[k + 1].t not in (".", "::", ":", "(", "{"):
                ed.append((T[k].s, T[k].s, "mut "))
    for i, t in enumerate(T):
        if t.t == "let":
            pat(i + 1, f.skip_to(i, ("=", ";")))
        elif t.t == "=>":
            j = i - 1
            while T[j].t not in (",", "{", "}", ";") or (T[j].t == "}" and False):
                if T[j].t in (")", "]"):
                    j = f.m[j]
                j -= 1
            pat(j + 1, i)
    return rx.apply(f.src, len("fn x() "), len(f.src), ed)


def msg_api(R):
    """types and message-building functions of hislip/src/common, with the contracts that the group hmsg proves"""
    import rx, hmsg
    f = rx.File("hislip/src/common/messages.rs")
    fe = rx.File("hislip/src/common/errors.rs")
    fc = rx.File("hislip/src/common/mod.rs")
    out = []
    for ff in (fc, f):
        for it in ff.items:
            if it.kind == "maccall" and it.name == "bitfield":
                t, n = bitfield_text(ff, it)
                out.append(t)
    out += [hmsg.enum(R, fe, n) for n in ("Error", "FatalErrorCode", "NonFatalErrorCode")]
    out.append(hmsg.enum(R, f, "MessageType"))
    out.append(R.clean(f, f.find("struct", "Message").head, f.find("struct", "Message").hi, []))
    R2 = rx.Render(R.group)
    C, W = hmsg.contracts(), hmsg.words()

    def ext(m, c, q):
        c2 = rx.Contract(c.spec, external=True)
        R.elsewhere[q] = "hmsg"
        R.external.append(q)
        return R2.fn(m, c2, q)
    for ff, hdr, pre in ((f, "impl Message", "Message::"), (fe, "impl Error", "Error::"), (f, "impl MessageType", "MessageType::"), (fe, "impl FatalErrorCode", "FatalErrorCode::"), (fe, "impl NonFatalErrorCode", "NonFatalErrorCode::")):
        im = ff.find("impl", header=hdr)
        b = [ext(m, C[pre + m.name], pre + m.name) for m in im.members if m.kind == "fn" and pre + m.name in C and m.name not in ("read_from", "write_to")]
        out.append(hdr + " {\n" + "\n".join(b) + "}\n")
    im = f.find("impl", header="impl From<Error>for Message")
    m = [x for x in im.members if x.name == "from"][0]
    out.append("impl Message {\n" + ext(m, C["From::from"], "From::from").replace("-> (r: Self)", "-> (r: Message)") + "}\n")
    for n, c in W.items():
        im = f.find("impl", header="impl " + n)
        for m in im.members:
            if m.kind == "fn" and m.name == "new":
                out.append(f"impl {n} {{\n" + ext(m, c, f"{n}::new") + "}\n")
    for it in fc.items:
        if it.kind == "const":
            out.append(R.clean(fc, it.head, it.hi, []))
    return "\n".join(out)

OR_GUARD = (r"(\w+):\s*(MessageType::\w+(?:\s*\|\s*MessageType::\w+)+),([^{}]*)\}\s*if\s+([^{}]*?)\s*=>", r"\1: vx_t,\3} if matches!(vx_t, \2) && (\4) =>", False)
