"""telnet: P22 what process_client does with the events of the telnet decoder."""
import re
from rx import File, Render, Contract, Lost
from vx import Group
from common import wrap
import rx
import raw

TEL = "telnet/src/server/mod.rs"
ITEMS = r'''
// ---- trusted stand-ins: libtelnet-rs ---------------------------------------------------------------------------------------
mod options { use super::*; verus! { pub(crate) const BINARY: u8 = 0; pub(crate) const ECHO: u8 = 1; pub(crate) const SGA: u8 = 3; pub(crate) const MCCP2: u8 = 86; pub(crate) const MCCP3: u8 = 87; } }
type Bytes = Vec<u8>;
struct TelnetIAC { command: u8 }
struct TelnetNegotiation { command: u8, option: u8 }
struct TelnetSubnegotiation { option: u8, buffer: Bytes }
enum TelnetEvents { IAC(TelnetIAC), Negotiation(TelnetNegotiation), Subnegotiation(TelnetSubnegotiation), DataReceive(Bytes), DataSend(Bytes), DecompressImmediate(Bytes) }
struct CompatibilityEntry { local: bool, remote: bool, local_state: bool, remote_state: bool }
// local: the options that this side may enable
struct CompatibilityTable { local: Ghost<Set<u8>> }
impl CompatibilityTable {
    #[verifier::external_body]
    fn support_local(&mut self, o: u8) ensures final(self).local@ == old(self).local@.insert(o) { unimplemented!() }
    #[verifier::external_body]
    fn get_option(&self, o: u8) -> (r: CompatibilityEntry) { unimplemented!() }
}
// what the decoder makes of the pieces of the stream it is given
uninterp spec fn vx_decode(c: Seq<Seq<u8>>) -> Seq<TelnetEvents>;
struct Parser { options: CompatibilityTable, fed: Ghost<Seq<Seq<u8>>> }
impl Parser {
    #[verifier::external_body]
    fn new() -> (r: Parser) ensures r.fed@.len() == 0, vx_decode(r.fed@).len() == 0, r.options.local@ == Set::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn receive(&mut self, d: &[u8]) -> (r: Vec<TelnetEvents>)
        ensures final(self).fed@ == old(self).fed@.push(d@), vx_decode(final(self).fed@) == vx_decode(old(self).fed@) + r@, final(self).options.local == old(self).options.local,
            // compressed data follows only on an option that this side has enabled
            !old(self).options.local@.contains(86) && !old(self).options.local@.contains(87) ==> forall|i: int| 0 <= i < r@.len() ==> !(#[trigger] r@[i] is DecompressImmediate) { unimplemented!() }
    #[verifier::external_body]
    fn escape_iac<B: VxB>(d: B) -> (r: Bytes) ensures r@ == esc(d.bs()) { unimplemented!() }
}
spec fn esc(d: Seq<u8>) -> Seq<u8> decreases d.len() { if d.len() == 0 { d } else { esc(d.drop_last()) + (if d.last() == 255 { seq![255u8, 255u8] } else { seq![d.last()] }) } }
#[verifier::external_body]
fn vx_unreachable() -> (r: !) requires /*P22*/ false { unimplemented!() }
// ---- trusted stand-in: the connection --------------------------------------------------------------------------------------
// got: the pieces that were read; cmds: what the device has executed; due: what must be sent before anything else; other: what else was sent
struct VxStream { got: Ghost<Seq<Seq<u8>>>, cmds: Ghost<Seq<Seq<u8>>>, due: Ghost<Seq<u8>>, other: Ghost<Seq<u8>>, failed: Ghost<bool>, closed: Ghost<bool> }
impl VxStream {
    #[verifier::external_body]
    fn read<const N: usize>(&mut self, b: &mut [u8; N]) -> (r: Result<usize, Error>)
        requires N > 0, /*P22*/ old(self).due@.len() == 0
        ensures final(self).cmds == old(self).cmds, final(self).due == old(self).due, final(self).other == old(self).other,
            r is Err ==> final(self).failed@,
            r is Ok ==> grew(*old(self), *final(self)) && r->Ok_0 <= N && final(self).failed == old(self).failed && final(self).closed@ == (r->Ok_0 == 0)
                && final(self).got@ == (if r->Ok_0 == 0 { old(self).got@ } else { old(self).got@.push(final(b)@.take(r->Ok_0 as int)) }) { unimplemented!() }
    #[verifier::external_body]
    fn write_all<B: VxB + ?Sized>(&mut self, d: &B) -> (r: Result<(), Error>)
        requires /*P22*/ old(self).due@.len() == 0 || prefix(d.bs(), old(self).due@)
        ensures final(self).cmds == old(self).cmds, final(self).got == old(self).got, final(self).closed == old(self).closed,
            r is Err ==> final(self).failed@,
            r is Ok ==> grew(*old(self), *final(self)) && final(self).failed == old(self).failed && final(self).due@ == old(self).due@.skip(if old(self).due@.len() == 0 { 0 } else { d.bs().len() as int })
                && final(self).other@ == (if old(self).due@.len() == 0 { old(self).other@ + d.bs() } else { old(self).other@ }) { unimplemented!() }
    #[verifier::external_body]
    fn write<B: VxB + ?Sized>(&mut self, d: &B) -> (r: Result<usize, Error>)
        requires /*P22*/ old(self).due@.len() == 0 || prefix(d.bs(), old(self).due@)
        ensures final(self).cmds == old(self).cmds, final(self).got == old(self).got, final(self).closed == old(self).closed,
            r is Err ==> final(self).failed@,
            r is Ok ==> grew(*old(self), *final(self)) && r->Ok_0 <= d.bs().len() && final(self).failed == old(self).failed && final(self).due@ == old(self).due@.skip(if old(self).due@.len() == 0 { 0 } else { r->Ok_0 as int })
                && final(self).other@ == (if old(self).due@.len() == 0 { old(self).other@ + d.bs().take(r->Ok_0 as int) } else { old(self).other@ }) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), Error>)
        ensures final(self).cmds == old(self).cmds, final(self).got == old(self).got, final(self).closed == old(self).closed, final(self).due == old(self).due, final(self).other == old(self).other,
            r is Err ==> final(self).failed@, r is Ok ==> grew(*old(self), *final(self)) && final(self).failed == old(self).failed { unimplemented!() }
}
spec fn crlf() -> Seq<u8> { seq![13u8, 10u8] }
spec fn answer(r: Option<Vec<u8>>) -> Seq<u8> { match r { None => Seq::empty(), Some(d) => esc(d@) + crlf() } }
impl VxDev {
    #[verifier::external_body]
    fn execute<B: VxB + ?Sized>(&mut self, cmd: &B, w: &mut VxStream) -> (r: Option<Vec<u8>>)
        requires /*P02,P22*/ old(self).granted@, /*P22*/ old(w).due@.len() == 0
        ensures final(w).failed == old(w).failed, final(w).got == old(w).got, final(w).closed == old(w).closed, final(w).other == old(w).other,
            ran(*old(w), *final(w), cmd.bs()), final(w).due@ == answer(r) { unimplemented!() }
}
// ---- what the commands of a sequence of events are -----------------------------------------------------------------------
// line: what has been typed of the current line; cmds: the lines before it; send: what the decoder wants to be sent
struct Tel { line: Seq<u8>, cmds: Seq<Seq<u8>>, send: Seq<u8> }
spec fn cr(l: Seq<u8>) -> Seq<u8> { if l.len() > 0 && l.last() == 13 { l.drop_last() } else { l } }
spec fn typed(t: Tel, b: u8) -> Tel { if b == 10 { Tel { line: Seq::empty(), cmds: t.cmds.push(cr(t.line)), send: t.send } } else { Tel { line: t.line.push(b), ..t } } }
spec fn text(t: Tel, d: Seq<u8>) -> Tel decreases d.len() { if d.len() == 0 { t } else { typed(text(t, d.drop_last()), d.last()) } }
spec fn event(t: Tel, e: TelnetEvents) -> Tel {
    match e {
        TelnetEvents::IAC(i) => if i.command == 247 { if t.line.len() > 0 { Tel { line: t.line.drop_last(), ..t } } else { t } } else if i.command == 248 { Tel { line: Seq::empty(), ..t } } else { t },
        TelnetEvents::DataReceive(d) => text(t, d@),
        TelnetEvents::DataSend(d) => Tel { send: t.send + d@, ..t },
        _ => t,
    }
}
spec fn run(e: Seq<TelnetEvents>) -> Tel decreases e.len() { if e.len() == 0 { Tel { line: Seq::empty(), cmds: Seq::empty(), send: Seq::empty() } } else { event(run(e.drop_last()), e.last()) } }
// the bytes a appear in b in this order
spec fn within(a: Seq<u8>, b: Seq<u8>) -> bool decreases b.len() { a.len() == 0 || (b.len() > 0 && (within(a, b.drop_last()) || (a.last() == b.last() && within(a.drop_last(), b.drop_last())))) }
// after the events e and the first bytes d of the text that follows them
#[verifier::opaque]
spec fn at(e: Seq<TelnetEvents>, d: Seq<u8>, line: Seq<u8>, s: VxStream) -> bool { let t = text(run(e), d); t.line == line && t.cmds == s.cmds@ && within(t.send, s.other@) }
// what may happen to the connection besides
#[verifier::opaque]
spec fn grew(s: VxStream, s2: VxStream) -> bool { s2.cmds == s.cmds && exists|x: Seq<u8>| s2.other@ == s.other@ + x }
#[verifier::opaque]
spec fn ran(s: VxStream, s2: VxStream, c: Seq<u8>) -> bool { s2.cmds@ == s.cmds@.push(c) && s2.other == s.other }
proof fn lemma_within(a: Seq<u8>, b: Seq<u8>, x: Seq<u8>) requires within(a, b) ensures within(a, b + x) decreases x.len() {
    if x.len() == 0 { assert(b + x =~= b); } else { lemma_within(a, b, x.drop_last()); assert((b + x).drop_last() =~= b + x.drop_last()); }
}
proof fn lemma_within2(a: Seq<u8>, b: Seq<u8>, x: Seq<u8>) requires within(a, b) ensures within(a + x, b + x) decreases x.len() {
    if x.len() == 0 { assert(b + x =~= b); assert(a + x =~= a); } else { lemma_within2(a, b, x.drop_last()); assert((b + x).drop_last() =~= b + x.drop_last()); assert((a + x).drop_last() =~= a + x.drop_last()); }
}
'''
LEM = r'''//RAW
mod vxl { use super::*; verus! {
pub(crate) broadcast proof fn l_start(s: VxStream, l: Seq<u8>, e: Seq<TelnetEvents>) requires s.cmds@.len() == 0, l.len() == 0, e.len() == 0 ensures #[trigger] at(e, Seq::empty(), l, s)
    { reveal(at); assert(l =~= Seq::empty()); assert(s.cmds@ =~= Seq::<Seq<u8>>::empty()); }
// other things that happen to the connection
pub(crate) broadcast proof fn l_other(e: Seq<TelnetEvents>, d: Seq<u8>, l: Seq<u8>, s: VxStream, s2: VxStream)
    requires #[trigger] at(e, d, l, s), #[trigger] grew(s, s2) ensures at(e, d, l, s2)
    { reveal(at); reveal(grew); let x = choose|x: Seq<u8>| s2.other@ == s.other@ + x; lemma_within(text(run(e), d).send, s.other@, x); }
pub(crate) broadcast proof fn l_same(a: Seq<u8>) ensures #[trigger] a.take(a.len() as int) == a { assert(a.take(a.len() as int) =~= a); }
pub(crate) broadcast proof fn l_byte(e: Seq<TelnetEvents>, d: Seq<u8>, l: Seq<u8>, s: VxStream, b: u8) requires #[trigger] at(e, d, l, s), b != 10 ensures at(e, #[trigger] d.push(b), l.push(b), s)
    { reveal(at); assert(d.push(b).drop_last() =~= d); }
pub(crate) broadcast proof fn l_line(e: Seq<TelnetEvents>, d: Seq<u8>, l: Seq<u8>, s: VxStream, s2: VxStream, c: Seq<u8>)
    requires #[trigger] at(e, d, l, s), #[trigger] ran(s, s2, c), c == cr(l) ensures at(e, d.push(10), Seq::empty(), s2)
    { reveal(at); reveal(ran); assert(d.push(10).drop_last() =~= d); }
pub(crate) broadcast proof fn l_end(e: Seq<TelnetEvents>, d: Seq<u8>, l: Seq<u8>, s: VxStream, x: TelnetEvents)
    requires #[trigger] at(e, d, l, s), x is DataReceive, x->DataReceive_0@ == d ensures at(#[trigger] e.push(x), Seq::empty(), l, s)
    { reveal(at); assert(e.push(x).drop_last() =~= e); }
pub(crate) broadcast proof fn l_send(e: Seq<TelnetEvents>, l: Seq<u8>, s: VxStream, s2: VxStream, x: TelnetEvents)
    requires #[trigger] at(e, Seq::empty(), l, s), x is DataSend, s2.cmds == s.cmds, s2.other@ == s.other@ + x->DataSend_0@ ensures #[trigger] at(e.push(x), Seq::empty(), l, s2)
    { reveal(at); assert(e.push(x).drop_last() =~= e); lemma_within2(run(e).send, s.other@, x->DataSend_0@); }
pub(crate) broadcast proof fn l_none(e: Seq<TelnetEvents>, l: Seq<u8>, s: VxStream, x: TelnetEvents)
    requires #[trigger] at(e, Seq::empty(), l, s), x is Negotiation || x is Subnegotiation || x is DecompressImmediate || (x is IAC && x->IAC_0.command != 247 && x->IAC_0.command != 248) ensures at(#[trigger] e.push(x), Seq::empty(), l, s)
    { reveal(at); assert(e.push(x).drop_last() =~= e); }
pub(crate) broadcast proof fn l_ec(e: Seq<TelnetEvents>, l: Seq<u8>, s: VxStream, x: TelnetEvents)
    requires #[trigger] at(e, Seq::empty(), l, s), x is IAC, x->IAC_0.command == 247 ensures at(#[trigger] e.push(x), Seq::empty(), if l.len() > 0 { l.drop_last() } else { l }, s)
    { reveal(at); assert(e.push(x).drop_last() =~= e); }
pub(crate) broadcast proof fn l_el(e: Seq<TelnetEvents>, l: Seq<u8>, s: VxStream, x: TelnetEvents, l2: Seq<u8>)
    requires #[trigger] at(e, Seq::empty(), l, s), x is IAC, x->IAC_0.command == 248, l2.len() == 0 ensures #[trigger] at(e.push(x), Seq::empty(), l2, s)
    { reveal(at); assert(e.push(x).drop_last() =~= e); assert(l2 =~= Seq::empty()); }
pub(crate) broadcast proof fn l_done(e: Seq<TelnetEvents>, l: Seq<u8>, s: VxStream) requires #[trigger] at(e, Seq::empty(), l, s) ensures s.cmds@ == run(e).cmds, within(run(e).send, s.other@) { reveal(at); }
// the loops
pub(crate) proof fn l_next(p: Seq<TelnetEvents>, e: Seq<TelnetEvents>, i: int) requires 0 <= i < e.len() ensures p + e.take(i + 1) == (p + e.take(i)).push(e[i]) { assert(p + e.take(i + 1) =~= (p + e.take(i)).push(e[i])); }
pub(crate) proof fn l_nextb(e: Seq<u8>, i: int) requires 0 <= i < e.len() ensures e.take(i + 1) == e.take(i).push(e[i]) { assert(e.take(i + 1) =~= e.take(i).push(e[i])); }
pub(crate) broadcast proof fn l_first(p: Seq<TelnetEvents>, e: Seq<TelnetEvents>) ensures #[trigger] (p + e.take(0)) == p { assert(p + e.take(0) =~= p); }
pub(crate) broadcast proof fn l_firstb(e: Seq<u8>) ensures #[trigger] e.take(0) == Seq::<u8>::empty() { assert(e.take(0) =~= Seq::<u8>::empty()); }
pub(crate) broadcast proof fn l_last(e: Seq<TelnetEvents>) ensures #[trigger] e.take(e.len() as int) == e { assert(e.take(e.len() as int) =~= e); }
// answers
pub(crate) broadcast proof fn l_pre(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] prefix(a, a + b), (a + b).skip(a.len() as int) == b, prefix(a, a) { assert((a + b).take(a.len() as int) =~= a); assert((a + b).skip(a.len() as int) =~= b); assert(a.take(a.len() as int) =~= a); }
pub(crate) broadcast proof fn l_skip(a: Seq<u8>, b: Seq<u8>, n: int) requires n == a.len() ensures #[trigger] (a + b).skip(n) == b { assert((a + b).skip(n) =~= b); }
pub(crate) broadcast proof fn l_crlf(a: Seq<u8>) requires a.len() == 2, a[0] == 13, a[1] == 10 ensures #[trigger] prefix(a, crlf()), a == crlf() { assert(a =~= crlf()); assert(a.take(2) =~= a); }
pub(crate) broadcast proof fn l_eskip(a: Seq<u8>, n: int) requires 0 <= n <= a.len() ensures n == a.len() ==> #[trigger] a.skip(n) == Seq::<u8>::empty(), n == 0 ==> a.skip(n) == a { if n == a.len() { assert(a.skip(n) =~= Seq::<u8>::empty()); } if n == 0 { assert(a.skip(n) =~= a); } }
pub(crate) broadcast proof fn l_cr(a: Seq<u8>) requires a.len() > 0, a.last() == 13 ensures #[trigger] cr(a) == a.drop_last() { }
pub(crate) broadcast group all { l_start, l_other, l_same, l_byte, l_line, l_end, l_send, l_none, l_ec, l_el, l_done, l_first, l_firstb, l_last, l_pre, l_skip, l_crlf, l_eskip, l_cr }
} }
fn vx_ends(v: &Vec<u8>, b: u8) -> (r: bool) ensures r == (v@.len() > 0 && v@.last() == b) { if v.len() > 0 { v[v.len() - 1] == b } else { false } }
'''


def arrays(txt):
    """byte strings and one-element arrays as what they are"""
    txt = re.sub(r'&?\bb"((?:[^"\\]|\\.)*)"(?:\[\.\.\])?', lambda m: rx.bytestr(m)[1:] + '.as_slice()', txt)
    txt = re.sub(r'&(\[[\w, ]+\])(?=\))', r'\1.as_slice()', txt)
    return txt


def loops(txt):
    """for X in E {  ->  with the ghost sequence that it goes through"""
    n = [0]

    def sub(m):
        n[0] += 1
        return f"let vx_it{n[0]} = {m.group(3)};\nlet ghost vx_s{n[0]} = vx_it{n[0]}@;\nfor {m.group(1)} in {m.group(2) or ''}vx_it{n[0]}\n{m.group(4)}"
    return re.sub(r"\bfor (\w+) in (it\d: )?([^{}]*?)\s*(invariant\b|\{)", sub, txt)


def build():
    f = File(TEL)
    R = Render("telnet")
    cfg = raw.config(R, f, ("read_buffer", "limit"), {"read_buffer": ("read_buffer", "read_buffer"), "backpressure": ("limit", "limit")})
    cfg = re.sub(r"#\[cfg_attr[^\n]*\]\n", "", cfg)
    sig = [(r"self\s*:\s*Arc<Self>", "&self"), (r"(?:io::)?Result<\(\),\s*io::Error>|io::Result<\(\)>", "Result<(), Error>"), (r"Arc<SpinMutex<SharedLock>>", "VxLock"), (r"Arc<Mutex<DEV>>", "VxArc"),
           (r"<DEV,\s*IO,\s*SA>", ""), (r"\bmut stream:\s*IO\b", "stream: &mut VxStream"), (r"\b(_?peer):\s*SA\b", r"\1: VxPeer"), (r"(?s)\bwhere\b.*$", "")]
    rw = [(r"\s*\.await\b", "", False), (r"\blet handle = ", "let mut handle = ", False), rx.add_arg("execute", "stream"), arrays,
          (r"(\w+)\.last\(\) == Some\(&([\w.']+|b'[^']*')\)", r"vx_ends(&\1, \2)", False), (r"\blet mut (cmd) = Vec::with_capacity", r"let mut \1: Vec<u8> = Vec::with_capacity", False),
          (r"\bunreachable!\([^()]*\)", "vx_unreachable()", False), loops]
    NOW = "stream.due@.len() == 0, !stream.failed@, !instance.options.local@.contains(86), !instance.options.local@.contains(87)"
    spec = """requires old(stream).cmds@.len() == 0, old(stream).due@.len() == 0, !old(stream).failed@, old(stream).got@.len() == 0, old(stream).other@.len() == 0, !old(stream).closed@
        ensures /*P22*/ r is Ok ==> final(stream).cmds@ == run(vx_decode(final(stream).got@)).cmds,
            /*P22*/ r is Ok ==> within(run(vx_decode(final(stream).got@)).send, final(stream).other@),
            /*P22*/ r is Ok ==> final(stream).due@.len() == 0 && final(stream).closed@, /*P22*/ r is Err ==> final(stream).failed@"""
    inv = f"invariant {NOW}, instance.fed@ == stream.got@, at(vx_decode(instance.fed@), Seq::empty(), cmd@, *stream)\n            ensures stream.closed@\n"
    B = "broadcast use {vxl::all, vx_question};"
    inv1 = f"invariant {NOW}, instance.fed@ == stream.got@, it1.seq() == vx_s1, vx_decode(instance.fed@) == vx_old + vx_s1, forall|i: int| 0 <= i < vx_s1.len() ==> !(#[trigger] vx_s1[i] is DecompressImmediate), at(vx_old + vx_s1.take(it1.index@ as int), Seq::empty(), cmd@, *stream),\n"
    inv2 = f"invariant {NOW}, instance.fed@ == stream.got@, it2.seq() == vx_s2, at(vx_e, vx_s2.take(it2.index@ as int), cmd@, *stream),\n"
    C = Contract(spec, sig=sig, rw=rw, attrs="#[verifier::exec_allows_no_decreases_clause]", pre=B,
                 loops=[("loop", inv, "", B + " let ghost vx_old = vx_decode(instance.fed@);", ""),
                        ("for", inv1, "it1", B + " let ghost vx_e = vx_old + vx_s1.take(it1.index@ as int); proof { vxl::l_next(vx_old, vx_s1, it1.index@ as int); }", ""),
                        ("for", inv2, "it2", B + " proof { vxl::l_nextb(vx_s2, it2.index@ as int); }", "")])
    body = []
    for i in f.items:
        if i.kind == "impl" and not i.is_test() and re.match(r"impl Server$", i.header):
            for m in i.members:
                if m.kind == "fn" and m.name == "process_client":
                    body.append(re.sub(r"\basync fn\b", "fn", R.fn(m, C, "Server::process_client")))
    if not body:
        raise Lost("Server::process_client")
    return Group("telnet", wrap(raw.DEVICE, ITEMS, LEM, "struct Server(ServerConfig);\n", cfg, "impl Server {\n" + "\n".join(body) + "}\n"), R,
                 trusted=["libtelnet-rs: what its parser makes of the bytes (an uninterpreted function of the pieces it is given), escape_iac doubles IAC bytes, DecompressImmediate only with MCCP2/3 enabled",
                          "write_all sends exactly the bytes it is given, read returns 0 exactly at the end of the stream",
                          "LockHandle::async_lock (group lock) grants access to the device and never fails", "Device::execute does what the device does"], exact=("execute", "async_lock", "inner_lock", "try_lock", "write", "write_all", "flush"), default_props=["P22"], panic_props=["P22"])
