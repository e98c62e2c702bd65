"""hislip/src/common: P05 framing, P06 code tables, the parameter words of P08."""
import re
from rx import File, Render, Contract, Lost
from vx import Group
import rx
from common import wrap
import hislip as H

STREAM = r'''
// ---- trusted stand-ins for futures' byte streams --------------------------------------------------------------------
// rem: the bytes that are still to come; sent: the bytes written so far; io_ok: the transport itself never fails
struct VxRead { rem: Ghost<Seq<u8>>, io_ok: Ghost<bool> }
struct VxWrite { sent: Ghost<Seq<u8>>, io_ok: Ghost<bool> }
struct Take<'a> { r: &'a mut VxRead, n: u64 }
struct Sink {}
impl VxRead {
    spec fn rem(&self) -> Seq<u8> { self.rem@ }
    spec fn io_ok(&self) -> bool { self.io_ok@ }
    #[verifier::external_body]
    fn take(&mut self, n: u64) -> (t: Take<'_>) ensures *t.r == *old(self), *final(t.r) == *final(self), t.n == n { unimplemented!() }
    #[verifier::external_body]
    async fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), io::Error>)
        ensures r is Ok ==> old(self).rem().len() >= old(buf)@.len() && final(buf)@ == old(self).rem().take(old(buf)@.len() as int)
                    && final(self).rem() == old(self).rem().skip(old(buf)@.len() as int) && final(self).io_ok() == old(self).io_ok(),
                r is Err && old(self).io_ok() ==> old(self).rem().len() < old(buf)@.len() && r->Err_0.k is UnexpectedEof { unimplemented!() }
}
impl<'a> Take<'a> {
    #[verifier::external_body]
    async fn read_to_end(self, buf: &mut Vec<u8>) -> (r: Result<usize, io::Error>)
        ensures r is Ok ==> ({ let s = old(self.r).rem(); let n = if s.len() < self.n { s.len() as int } else { self.n as int };
                    r->Ok_0 == n && final(buf)@ == old(buf)@ + s.take(n) && final(self.r).rem() == s.skip(n)
                    && final(self.r).io_ok() == old(self.r).io_ok() }),
                r is Err ==> !old(self.r).io_ok() { unimplemented!() }
}
#[verifier::external_body]
fn vx_sink() -> (s: Sink) { unimplemented!() }
#[verifier::external_body]
async fn vx_copy<'a>(t: Take<'a>, s: &mut Sink) -> (r: Result<u64, io::Error>)
    ensures r is Ok ==> ({ let s = old(t.r).rem(); let n = if s.len() < t.n { s.len() as int } else { t.n as int };
                r->Ok_0 == n && final(t.r).rem() == s.skip(n) && final(t.r).io_ok() == old(t.r).io_ok() }),
            r is Err ==> !old(t.r).io_ok() { unimplemented!() }
impl VxWrite {
    spec fn sent(&self) -> Seq<u8> { self.sent@ }
    spec fn io_ok(&self) -> bool { self.io_ok@ }
    #[verifier::external_body]
    async fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), io::Error>)
        ensures r is Ok ==> final(self).sent() == old(self).sent() + buf@ && final(self).io_ok() == old(self).io_ok(), r is Err ==> !old(self).io_ok() { unimplemented!() }
    // it may take less than it is given
    #[verifier::external_body]
    async fn write(&mut self, buf: &[u8]) -> (r: Result<usize, io::Error>)
        ensures r is Ok ==> r->Ok_0 <= buf@.len() && final(self).sent() == old(self).sent() + buf@.take(r->Ok_0 as int) && final(self).io_ok() == old(self).io_ok(), r is Err ==> !old(self).io_ok() { unimplemented!() }
    #[verifier::external_body]
    async fn flush(&mut self) -> (r: Result<(), io::Error>) ensures final(self).sent() == old(self).sent(), r is Ok ==> final(self).io_ok() == old(self).io_ok(), r is Err ==> !old(self).io_ok() { unimplemented!() }
}
pub assume_specification<T, A: core::alloc::Allocator> [Vec::<T, A>::try_reserve_exact](v: &mut Vec<T, A>, n: usize) -> (r: Result<(), std::collections::TryReserveError>)
    ensures final(v)@ == old(v)@;
#[verifier::external_body]
fn vx_string() -> (r: String) { unimplemented!() }
pub assume_specification[ String::into_bytes ](s: String) -> (r: Vec<u8>);
'''

SPEC = r'''
struct Msg { t: int, c: u8, p: u32, d: Seq<u8> }
impl Message {
    spec fn msg(&self) -> Msg { Msg { t: type_code(self.message_type), c: self.control_code, p: self.message_parameter, d: self.payload@ } }
}
// IVI-6.1 table 3: the header
spec fn header(m: Msg) -> Seq<u8> {
    seq![72u8, 83u8, m.t as u8, m.c] + enc_be(m.p as int, 4) + enc_be(m.d.len() as int, 8)
}
spec fn enc(m: Msg) -> Seq<u8> { header(m) + m.d }
spec fn h_ok(s: Seq<u8>) -> bool { s.len() >= 16 && s[0] == 72 && s[1] == 83 }
spec fn h_len(s: Seq<u8>) -> int { be(s.subrange(8, 16)) }
// what the receiver must make of the bytes s that are still to come, given its limit
spec fn read_ok(s: Seq<u8>, maxlen: int, m: Msg, rest: Seq<u8>) -> bool {
    &&& h_ok(s) && h_len(s) <= maxlen && s.len() >= 16 + h_len(s)
    &&& m.t == s[2] && type_of(s[2] as int) is Some && m.c == s[3] && m.p == be(s.subrange(4, 8)) && m.d == s.subrange(16, 16 + h_len(s))
    &&& rest == s.skip(16 + h_len(s))
}
spec fn read_err(s: Seq<u8>, maxlen: int, e: Error, rest: Seq<u8>) -> bool {
    if s.len() < 16 { false }
    else if !h_ok(s) { e is Fatal && e->Fatal_0 is PoorlyFormattedMessageHeader }
    else {
        // out of memory
        ||| e is Fatal && e->Fatal_0 is UnidentifiedError && h_len(s) <= maxlen
        ||| e is NonFatal && rest == s.skip(16 + h_len(s)) && s.len() >= 16 + h_len(s)
            && ((e->NonFatal_0 is MessageTooLarge && h_len(s) > maxlen) || (e->NonFatal_0 is UnrecognizedMessageType && type_of(s[2] as int) is None))
    }
}
spec fn cut_short(s: Seq<u8>) -> bool { s.len() < 16 || (h_ok(s) && s.len() < 16 + h_len(s)) }
proof fn lemma_be_bytes(s: Seq<u8>) ensures 0 <= be(s) < pow256(s.len()) decreases s.len()
{
    if s.len() > 0 { lemma_be_bytes(s.drop_last()); assert(pow256(s.len()) == 256 * pow256((s.len() - 1) as nat)); }
}
proof fn lemma_be_inj(s: Seq<u8>) ensures enc_be(be(s), s.len()) == s decreases s.len()
{
    if s.len() > 0 {
        lemma_be_inj(s.drop_last());
        assert(be(s) / 256 == be(s.drop_last()));
        assert(enc_be(be(s), s.len()) =~= s);
    } else { assert(enc_be(be(s), 0) =~= s); }
}
broadcast proof fn lemma_high(x: u8) ensures (#[trigger] (x | 0x80u8)) >= 128, x >= 128 ==> (x | 0x80u8) == x
{
    assert((x | 0x80u8) >= 128 && (x >= 128 ==> (x | 0x80u8) == x)) by(bit_vector);
}
proof fn lemma_types(t: MessageType) ensures /*P06*/ 0 <= type_code(t) < 256, /*P06*/ type_of(type_code(t)) is Some, /*P06*/ type_code(type_of(type_code(t))->0) == type_code(t)
{
    broadcast use lemma_high;
}
proof fn lemma_codes(c: u8) ensures /*P06*/ type_of(c as int) is Some ==> type_code(type_of(c as int)->0) == c,
    /*P06*/ type_of(c as int) is None <==> 38 < c < 128,
    /*P06*/ fatal_code(fatal_of(c as int)) == c, /*P06*/ nonfatal_code(nonfatal_of(c as int)) == c
{
    broadcast use lemma_high;
}
proof fn lemma_header(m: Msg, t: Seq<u8>)
    requires 0 <= m.t < 256, m.d.len() < pow256(8)
    ensures header(m).len() == 16, h_ok(enc(m) + t), (enc(m) + t)[2] == m.t, (enc(m) + t)[3] == m.c, be((enc(m) + t).subrange(4, 8)) == m.p,
        h_len(enc(m) + t) == m.d.len(), (enc(m) + t).subrange(16, 16 + m.d.len() as int) == m.d, (enc(m) + t).skip(16 + m.d.len() as int) == t
{
    lemma_pow();
    lemma_be(m.p as int, 4);
    lemma_be(m.d.len() as int, 8);
    let s = enc(m) + t;
    assert(s.subrange(4, 8) =~= enc_be(m.p as int, 4));
    assert(s.subrange(8, 16) =~= enc_be(m.d.len() as int, 8));
    assert(s.subrange(16, 16 + m.d.len() as int) =~= m.d);
    assert(s.skip(16 + m.d.len() as int) =~= t);
}
// what was written is what is read, and reading stops at the next message
proof fn lemma_round_trip(m: Message, t: Seq<u8>, maxlen: int, m2: Msg, rest: Seq<u8>)
    requires m.payload@.len() < pow256(8), m.payload@.len() <= maxlen, read_ok(enc(m.msg()) + t, maxlen, m2, rest)
    ensures /*P05*/ m2 == m.msg() && rest == t
{
    lemma_types(m.message_type);
    lemma_header(m.msg(), t);
    assert(m2.d == m.msg().d);
}
// no other outcome is possible for a written message within the limit, except running out of memory
proof fn lemma_no_error(m: Message, t: Seq<u8>, maxlen: int, e: Error, rest: Seq<u8>)
    requires m.payload@.len() < pow256(8), m.payload@.len() <= maxlen, read_err(enc(m.msg()) + t, maxlen, e, rest)
    ensures /*P05*/ e is Fatal && e->Fatal_0 is UnidentifiedError, /*P05*/ !cut_short(enc(m.msg()) + t)
{
    lemma_types(m.message_type);
    lemma_header(m.msg(), t);
}
// words of the initialization handshake
spec fn hi16(p: u32) -> int { (p as int) / 0x10000 }
spec fn lo16(p: u32) -> int { (p as int) % 0x10000 }
proof fn lemma_words(p: u32) by(bit_vector) ensures (p >> 16u32) & 0xffffu32 == p / 0x10000, p & 0xffffu32 == p % 0x10000, ((p >> 16u32) & 0xffffu32) as u16 == p / 0x10000,
   (p >> 0u32) & 0xffffu32 == p % 0x10000 {}
proof fn lemma_pack(a: u16, b: u16) by(bit_vector) ensures
    ((((0u32 & 0xffffu32) | ((a as u32 & 0xffffu32) << 16u32)) & 0xffff0000u32) | ((b as u32 & 0xffffu32) << 0u32)) == (a as u32) * 0x10000 + (b as u32),
    ((0u32 & 0xffff0000u32) | ((b as u32 & 0xffffu32) << 0u32)) == b as u32,
    (((a as u32) << 16u32) | (b as u32)) == (a as u32) * 0x10000 + (b as u32) {}
'''

READ = '''ensures
    /*P05*/ r is Ok && r->Ok_0 is Ok ==> read_ok(old(reader).rem(), maxlen as int, r->Ok_0->Ok_0.msg(), final(reader).rem()),
    /*P05*/ r is Ok && r->Ok_0 is Err ==> read_err(old(reader).rem(), maxlen as int, r->Ok_0->Err_0, final(reader).rem()),
    /*P05*/ r is Err && old(reader).io_ok() ==> cut_short(old(reader).rem()),
'''
WRITE = '''ensures
    /*P05*/ r is Ok ==> final(writer).sent() =~= old(writer).sent() + enc(self.msg()), /*P05*/ r is Err ==> !old(writer).io_ok()
'''
RW = [(r"\.ok_or_else\(\s*\|\|", ".ok_or(", False), (r'"(?:[^"\\]|\\.)*"\s*\.(?:to_string|into|to_owned)\(\)', "vx_string()", False),
      (r"futures::io::sink\(\)", "vx_sink()", False), (r"futures::io::copy\(", "vx_copy(", False), (r"String::from\(\s*\"[^\"]*\"\s*\)", "vx_string()", False)]


def enum(R, f, n):
    it = f.find("enum", n)
    copy = any("Copy" in a for a in it.attrs)
    return ("#[derive(Clone, Copy)]\n" if copy else "") + R.clean(f, it.head, it.hi, [])


def derive_eq(n):
    return ""


LOCK_FROM = """ensures /*P12*/ (err is Timeout || err is LockedByShared || err is LockedByExclusive) ==> r is Failure,
        /*P12*/ err is AlreadyLocked ==> r is Error, /*P12*/ !(r is Success)"""


def contracts():
    return {
        "Message::with_payload": Contract("ensures /*P05*/ r.msg() == (Msg { d: payload@, ..self.msg() }), r.message_type == self.message_type"),
        "Message::no_payload": Contract("ensures /*P05*/ r.msg() == (Msg { d: Seq::empty(), ..self.msg() }), r.message_type == self.message_type",
                                        rw=[(r"Vec::new\(\)", "vx_empty()", False)]),
        "Message::read_from": Contract(READ, rw=RW, mono=[("AsyncRead", "VxRead")], pre="""broadcast use {ax_hs, ax_hs2};
        let ghost s0 = reader.rem(); proof { lemma_pow(); if s0.len() >= 16 { lemma_facts(s0); lemma_codes(s0[2]); } }"""),
        "Message::write_to": Contract(WRITE, rw=[], mono=[("AsyncWrite", "VxWrite")], pre="proof { lemma_types(self.message_type); lemma_write(self.msg()); }"),
        "From::from": Contract("""ensures /*P06*/ r.message_type == (if err is Fatal { MessageType::FatalError } else { MessageType::Error }),
            /*P06*/ err is Fatal ==> r.control_code == fatal_code(err->Fatal_0), /*P06*/ err is NonFatal ==> r.control_code == nonfatal_code(err->NonFatal_0), r.message_parameter == 0"""),
        "MessageType::get_message_type": Contract("ensures /*P06*/ r == type_code(*self)", pre="broadcast use lemma_high;", rw=[(r"match self\b", "match *self", False)]),
        "MessageType::from_message_type": Contract("ensures /*P06*/ r == type_of(typ as int)"),
        "MessageType::message_params": Contract("ensures /*P05,P06*/ r.message_type == self && r.control_code == control_code && r.message_parameter == message_parameter && r.payload@ == Seq::<u8>::empty()",
                                                rw=[(r"Vec::new\(\)", "vx_empty()", False)]),
        "FatalErrorCode::error_code": Contract("ensures /*P06*/ r == fatal_code(*self)"),
        "FatalErrorCode::from_error_code": Contract("ensures /*P06*/ r == fatal_of(code as int)"),
        "NonFatalErrorCode::error_code": Contract("ensures /*P06*/ r == nonfatal_code(*self)"),
        "NonFatalErrorCode::from_error_code": Contract("ensures /*P06*/ r == nonfatal_of(code as int)"),
        "Error::is_fatal": Contract("ensures /*P06*/ r == (self is Fatal)"),
    }


def words():
    return {
        "InitializeResponseParameter": Contract("ensures /*P08*/ r.0 as int == (negotiated_protocol.0 as int) * 0x10000 + session_id", pre="proof { lemma_pack(negotiated_protocol.0, session_id); }"),
        "InitializeResponseControl": Contract("ensures /*P08*/ r.0 == (if prefer_overlap { 1u8 } else { 0u8 }) | (if encryption_mode { 2u8 } else { 0u8 }) | (if initial_encryption { 4u8 } else { 0u8 })",
                                              pre="proof { lemma_bits3(); }"),
        "AsyncInitializeResponseParameter": Contract("ensures /*P08*/ r.0 == server_vendor_id", pre="proof { lemma_pack(0, server_vendor_id); }"),
        "AsyncInitializeResponseControl": Contract("ensures /*P08*/ r.0 == (if secure_connection { 1u8 } else { 0u8 })", pre="proof { lemma_bits3(); }"),
        "FeatureBitmap": Contract("ensures /*P11*/ r.0 == (if overlapped { 1u8 } else { 0u8 }) | (if encryption { 2u8 } else { 0u8 }) | (if initial_encryption { 4u8 } else { 0u8 })",
                                  pre="proof { lemma_bits3(); }"),
    }


def build():
    f = File("hislip/src/common/messages.rs")
    fe = File("hislip/src/common/errors.rs")
    fc = File("hislip/src/common/mod.rs")
    R = Render("hmsg")
    out = []
    bf = {}
    for ff in (fc, f):
        for it in ff.items:
            if it.kind == "maccall" and it.name == "bitfield":
                t, n = H.bitfield_text(ff, it)
                bf[n] = t
    out += bf.values()
    out.append(enum(R, fe, "Error"))
    out.append(enum(R, fe, "FatalErrorCode"))
    out.append(enum(R, fe, "NonFatalErrorCode"))
    out.append(enum(R, f, "MessageType"))
    out.append(R.clean(f, f.find("struct", "Message").head, f.find("struct", "Message").hi, []))
    C = contracts()
    a_to = None
    plan = [(f, "impl Message", "Message::", None), (fe, "impl Error", "Error::", None), (fe, "impl FatalErrorCode", "FatalErrorCode::", None),
            (fe, "impl NonFatalErrorCode", "NonFatalErrorCode::", None), (f, "impl MessageType", "MessageType::", None)]
    for ff, hdr, pre, _ in plan:
        im = ff.find("impl", header=hdr)
        body = []
        for m in im.members:
            if m.kind == "const":
                body.append(R.clean(ff, m.head, m.hi, []))
            if m.kind == "fn":
                body.append(R.fn(m, C.get(pre + m.name), pre + m.name))
        out.append(hdr + " {\n" + "\n".join(body) + "}\n")
    # From<Error> for Message, as a function
    im = f.find("impl", header="impl From<Error>for Message")
    m = [x for x in im.members if x.name == "from"][0]
    out.append("impl Message {\n" + R.fn(m, C["From::from"], "From::from").replace("-> (r: Self)", "-> (r: Message)") + "}\n")
    # the initialization words
    P8 = words()
    for n, c in P8.items():
        im = f.find("impl", header="impl " + n)
        for m in im.members:
            if m.kind == "fn":
                out.append(f"impl {n} {{\n" + R.fn(m, c if m.name == "new" else None, f"{n}::{m.name}") + "}\n")
    im = fc.find("impl", header="impl Protocol")
    for m in im.members:
        if m.kind == "fn":
            out.append("impl Protocol {\n" + R.fn(m, {"as_parameter": Contract("ensures /*P08*/ r as int == (self.0 as int) * 0x10000 + session_id", pre="proof { lemma_pack(self.0, session_id); }")}.get(m.name), "Protocol::" + m.name) + "}\n")
    # AsyncLock answers
    fl = File("device/src/lock.rs")
    out.append(enum(R, fl, "SharedLockError"))
    for n in ("RequestLockControl", "ReleaseLockControl"):
        out.append(enum(R, f, n))
    im = f.find("impl", header="impl From<SharedLockError>for RequestLockControl")
    m = [x for x in im.members if x.name == "from"][0]
    out.append("impl RequestLockControl {\n" + R.fn(m, Contract(LOCK_FROM), "RequestLockControl::from") + "}\n")
    out.append("//@fn lock codes\nfn vx_request_codes(f: RequestLockControl) -> (r: u8) ensures /*P12*/ r == (match f { RequestLockControl::Failure => 0u8, RequestLockControl::Success => 1u8, RequestLockControl::Error => 3u8 }) { f as u8 }\n"
               "fn vx_release_codes(f: ReleaseLockControl) -> (r: u8) ensures /*P12*/ r == (match f { ReleaseLockControl::SuccessExclusive => 1u8, ReleaseLockControl::SuccessShared => 2u8, ReleaseLockControl::Error => 3u8 }) { f as u8 }\n//@end\n")
    # negotiated version constants
    consts = []
    for it in fc.items:
        if it.kind == "const":
            consts.append(R.clean(fc, it.head, it.hi, []))
    out += consts
    out.append("proof fn lemma_versions() ensures /*P08*/ SUPPORTED_PROTOCOL.0 == 0x200, /*P08*/ PROTOCOL_1_0.0 == 0x100, /*P08*/ PROTOCOL_1_1.0 == 0x101, /*P08*/ PROTOCOL_2_0.0 == 0x200 {}\n")
    txt = "\n".join(out)
    txt = txt.replace("Message::from(", "Message::from(")
    return Group("hmsg", wrap(H.IO, H.BYTES, H.BYTEORDER, STREAM, H.tables(), SPEC, EXTRA, txt), R, trusted=TRUST,
                 exact=("write", "write_all", "flush") + H.BITS, default_props=["P05", "P06"], panic_props=["P23"])


EXTRA = r'''
#[verifier::external_body]
broadcast proof fn ax_hs2() ensures #[trigger] <[u8] as PartialEqSpec<[u8; 2]>>::obeys_eq_spec() {}
#[verifier::external_body]
broadcast proof fn ax_hs(a: &[u8], b: &[u8; 2]) ensures #[trigger] <[u8] as PartialEqSpec<[u8; 2]>>::eq_spec(a, b) == (a@ == b@) {}
fn vx_empty() -> (r: Vec<u8>) ensures r@ == Seq::<u8>::empty() { Vec::new() }
proof fn lemma_bits3() ensures 0u8 | 0u8 == 0u8, 0u8 | 1u8 == 1u8, 0u8 & 254u8 == 0u8, 0u8 | 2u8 == 2u8, 0u8 & 253u8 == 0u8, 0u8 | 4u8 == 4u8, 0u8 & 251u8 == 0u8, 0u8 | 0u8 == 0u8, 0u8 | 0u8 == 0u8, 1u8 | 1u8 == 1u8, 1u8 & 254u8 == 0u8, 1u8 | 2u8 == 3u8, 1u8 & 253u8 == 1u8, 1u8 | 4u8 == 5u8, 1u8 & 251u8 == 1u8, 1u8 | 0u8 == 1u8, 0u8 | 1u8 == 1u8, 2u8 | 1u8 == 3u8, 2u8 & 254u8 == 2u8, 2u8 | 2u8 == 2u8, 2u8 & 253u8 == 0u8, 2u8 | 4u8 == 6u8, 2u8 & 251u8 == 2u8, 2u8 | 0u8 == 2u8, 0u8 | 2u8 == 2u8, 3u8 | 1u8 == 3u8, 3u8 & 254u8 == 2u8, 3u8 | 2u8 == 3u8, 3u8 & 253u8 == 1u8, 3u8 | 4u8 == 7u8, 3u8 & 251u8 == 3u8, 3u8 | 0u8 == 3u8, 0u8 | 3u8 == 3u8, 4u8 | 1u8 == 5u8, 4u8 & 254u8 == 4u8, 4u8 | 2u8 == 6u8, 4u8 & 253u8 == 4u8, 4u8 | 4u8 == 4u8, 4u8 & 251u8 == 0u8, 4u8 | 0u8 == 4u8, 0u8 | 4u8 == 4u8, 5u8 | 1u8 == 5u8, 5u8 & 254u8 == 4u8, 5u8 | 2u8 == 7u8, 5u8 & 253u8 == 5u8, 5u8 | 4u8 == 5u8, 5u8 & 251u8 == 1u8, 5u8 | 0u8 == 5u8, 0u8 | 5u8 == 5u8, 6u8 | 1u8 == 7u8, 6u8 & 254u8 == 6u8, 6u8 | 2u8 == 6u8, 6u8 & 253u8 == 4u8, 6u8 | 4u8 == 6u8, 6u8 & 251u8 == 2u8, 6u8 | 0u8 == 6u8, 0u8 | 6u8 == 6u8, 7u8 | 1u8 == 7u8, 7u8 & 254u8 == 6u8, 7u8 | 2u8 == 7u8, 7u8 & 253u8 == 5u8, 7u8 | 4u8 == 7u8, 7u8 & 251u8 == 3u8, 7u8 | 0u8 == 7u8, 0u8 | 7u8 == 7u8 {
    assert((0u8 | 0u8 == 0u8) && (0u8 | 1u8 == 1u8) && (0u8 & 254u8 == 0u8) && (0u8 | 2u8 == 2u8) && (0u8 & 253u8 == 0u8) && (0u8 | 4u8 == 4u8) && (0u8 & 251u8 == 0u8) && (0u8 | 0u8 == 0u8) && (0u8 | 0u8 == 0u8) && (1u8 | 1u8 == 1u8) && (1u8 & 254u8 == 0u8) && (1u8 | 2u8 == 3u8) && (1u8 & 253u8 == 1u8) && (1u8 | 4u8 == 5u8) && (1u8 & 251u8 == 1u8) && (1u8 | 0u8 == 1u8) && (0u8 | 1u8 == 1u8) && (2u8 | 1u8 == 3u8) && (2u8 & 254u8 == 2u8) && (2u8 | 2u8 == 2u8) && (2u8 & 253u8 == 0u8) && (2u8 | 4u8 == 6u8) && (2u8 & 251u8 == 2u8) && (2u8 | 0u8 == 2u8) && (0u8 | 2u8 == 2u8) && (3u8 | 1u8 == 3u8) && (3u8 & 254u8 == 2u8) && (3u8 | 2u8 == 3u8) && (3u8 & 253u8 == 1u8) && (3u8 | 4u8 == 7u8) && (3u8 & 251u8 == 3u8) && (3u8 | 0u8 == 3u8) && (0u8 | 3u8 == 3u8) && (4u8 | 1u8 == 5u8) && (4u8 & 254u8 == 4u8) && (4u8 | 2u8 == 6u8) && (4u8 & 253u8 == 4u8) && (4u8 | 4u8 == 4u8) && (4u8 & 251u8 == 0u8) && (4u8 | 0u8 == 4u8) && (0u8 | 4u8 == 4u8) && (5u8 | 1u8 == 5u8) && (5u8 & 254u8 == 4u8) && (5u8 | 2u8 == 7u8) && (5u8 & 253u8 == 5u8) && (5u8 | 4u8 == 5u8) && (5u8 & 251u8 == 1u8) && (5u8 | 0u8 == 5u8) && (0u8 | 5u8 == 5u8) && (6u8 | 1u8 == 7u8) && (6u8 & 254u8 == 6u8) && (6u8 | 2u8 == 6u8) && (6u8 & 253u8 == 4u8) && (6u8 | 4u8 == 6u8) && (6u8 & 251u8 == 2u8) && (6u8 | 0u8 == 6u8) && (0u8 | 6u8 == 6u8) && (7u8 | 1u8 == 7u8) && (7u8 & 254u8 == 6u8) && (7u8 | 2u8 == 7u8) && (7u8 & 253u8 == 5u8) && (7u8 | 4u8 == 7u8) && (7u8 & 251u8 == 3u8) && (7u8 | 0u8 == 7u8) && (0u8 | 7u8 == 7u8)) by(bit_vector);
}
proof fn lemma_facts(s: Seq<u8>)
    requires s.len() >= 16
    ensures (s.take(16).subrange(0, 2) == seq![72u8, 83u8]) == (s[0] == 72 && s[1] == 83),
        s.take(16).subrange(4, 8).take(4) == s.subrange(4, 8), s.take(16).subrange(8, 16).take(8) == s.subrange(8, 16),
        s.take(16)[2] == s[2], s.take(16)[3] == s[3],
        forall|n: int| 0 <= n && 16 + n <= s.len() ==> #[trigger] s.skip(16).take(n) == s.subrange(16, 16 + n),
        forall|n: int| 0 <= n && 16 + n <= s.len() ==> #[trigger] s.skip(16).skip(n) == s.skip(16 + n),
        forall|a: Seq<u8>| #[trigger] (Seq::<u8>::empty() + a) == a,
        0 <= h_len(s) < 0x1_0000_0000_0000_0000,
{
    assert(s.take(16).subrange(0, 2)[0] == s[0] && s.take(16).subrange(0, 2)[1] == s[1]);
    assert((s[0] == 72 && s[1] == 83) ==> s.take(16).subrange(0, 2) =~= seq![72u8, 83u8]);
    assert(s.take(16).subrange(4, 8).take(4) =~= s.subrange(4, 8));
    assert(s.take(16).subrange(8, 16).take(8) =~= s.subrange(8, 16));
    assert forall|n: int| 0 <= n && 16 + n <= s.len() implies #[trigger] s.skip(16).take(n) == s.subrange(16, 16 + n) by { assert(s.skip(16).take(n) =~= s.subrange(16, 16 + n)); }
    assert forall|n: int| 0 <= n && 16 + n <= s.len() implies #[trigger] s.skip(16).skip(n) == s.skip(16 + n) by { assert(s.skip(16).skip(n) =~= s.skip(16 + n)); }
    assert forall|a: Seq<u8>| #[trigger] (Seq::<u8>::empty() + a) == a by { assert((Seq::<u8>::empty() + a) =~= a); }
    lemma_pow();
    lemma_be_bytes(s.subrange(8, 16));
}
proof fn lemma_write(m: Msg) ensures true {}
'''
TRUST = ["futures AsyncRead/AsyncWrite: read_exact, take+read_to_end, io::copy to a sink and write_all transfer exactly the bytes they report; they fail only at end of stream or when the transport fails",
         "byteorder reads and writes big-endian", "bitfield! accessors move exactly the declared bits",
         "Vec::try_reserve_exact changes no content", "strings in error messages are arbitrary"]
