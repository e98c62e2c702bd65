"""raw socket: P21 what process_client does with the byte stream of a connection."""
import re
from rx import File, Render, Contract, Lost
from vx import Group
from common import wrap
import rx

RAW = "raw/src/server/mod.rs"

# the device behind its lock, shared with group telnet
DEVICE = r'''
struct Error { kind: u8 }
broadcast axiom fn vx_question<T, S: vstd::std_specs::convert::FromSpec<T>>(e: T, r: S) ensures #[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(e, r) && S::obeys_from_spec() ==> r == S::from_spec(e);
struct VxLock { id: Ghost<int> }
struct VxArc { id: Ghost<int> }
struct VxPeer;
#[derive(Debug)]
enum SharedLockError { AlreadyUnlocked, AlreadyLocked, LockedByShared, LockedByExclusive, Timeout, Aborted, Busy }
// the device while it is held; granted: through the lock
struct VxDev { granted: Ghost<bool> }
struct LockHandle { id: Ghost<int> }
impl LockHandle {
    #[verifier::external_body]
    fn new(l: VxLock, d: VxArc) -> (r: LockHandle) { unimplemented!() }
    // waits until the lock admits this client: never an error (group lock)
    #[verifier::external_body]
    fn async_lock(&mut self) -> (r: Result<&mut VxDev, SharedLockError>) ensures r is Ok, (*(r->Ok_0)).granted@ { unimplemented!() }
    #[verifier::external_body]
    fn try_lock(&mut self) -> (r: Result<&mut VxDev, SharedLockError>) ensures r is Ok ==> (*(r->Ok_0)).granted@ { unimplemented!() }
    #[verifier::external_body]
    fn inner_lock(&mut self) -> (r: &mut VxDev) ensures !(*r).granted@ { unimplemented!() }
}
// byte strings, however they are held
trait VxB { spec fn bs(&self) -> Seq<u8>; }
impl VxB for Vec<u8> { spec fn bs(&self) -> Seq<u8> { self@ } }
impl VxB for [u8] { spec fn bs(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VxB for [u8; N] { spec fn bs(&self) -> Seq<u8> { self@ } }
impl<T: VxB + ?Sized> VxB for &T { spec fn bs(&self) -> Seq<u8> { (**self).bs() } }
spec fn prefix<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
'''
ITEMS = r'''
// ---- trusted stand-ins: the two halves of a connection -------------------------------------------------------------------
// rest: what the client has not yet been read of what it will have sent when it closes the connection
struct VxRd { rest: Ghost<Seq<u8>> }
// a read has failed
uninterp spec fn vx_rfail() -> bool;
// cmds: what the device has executed; due: what must be sent before anything else; term: the write terminator
struct VxWr { cmds: Ghost<Seq<Seq<u8>>>, due: Ghost<Seq<u8>>, term: Ghost<u8>, failed: Ghost<bool> }
spec fn llen(s: Seq<u8>, t: u8) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] == t { 1 } else { 1 + llen(s.skip(1), t) } }
struct BufReader;
impl BufReader {
    #[verifier::external_body]
    fn with_capacity(n: usize, r: VxRd) -> (o: VxRd) ensures o == r { unimplemented!() }
    #[verifier::external_body]
    fn new(r: VxRd) -> (o: VxRd) ensures o == r { unimplemented!() }
}
impl VxRd {
    // up to and including the next delimiter, or to the end of the stream
    #[verifier::external_body]
    fn read_until(&mut self, t: u8, b: &mut Vec<u8>) -> (r: Result<usize, Error>)
        ensures r is Ok ==> r->Ok_0 == llen(old(self).rest@, t) && final(self).rest@ == old(self).rest@.skip(llen(old(self).rest@, t))
                && final(b)@ == old(b)@ + old(self).rest@.take(llen(old(self).rest@, t)),
            r is Err ==> vx_rfail() { unimplemented!() }
}
impl VxWr {
    #[verifier::external_body]
    fn write_all<B: VxB + ?Sized>(&mut self, d: &B) -> (r: Result<(), Error>)
        requires /*P21*/ prefix(d.bs(), old(self).due@)
        ensures final(self).cmds == old(self).cmds, final(self).term == old(self).term, r is Ok ==> final(self).failed == old(self).failed && final(self).due@ == old(self).due@.skip(d.bs().len() as int),
            r is Err ==> final(self).failed@ && final(self).due == old(self).due { unimplemented!() }
    #[verifier::external_body]
    fn write<B: VxB + ?Sized>(&mut self, d: &B) -> (r: Result<usize, Error>)
        requires /*P21*/ prefix(d.bs(), old(self).due@)
        ensures final(self).cmds == old(self).cmds, final(self).term == old(self).term, r is Ok ==> r->Ok_0 <= d.bs().len() && final(self).failed == old(self).failed && final(self).due@ == old(self).due@.skip(r->Ok_0 as int),
            r is Err ==> final(self).failed@ && final(self).due == old(self).due { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), Error>)
        ensures final(self).cmds == old(self).cmds, final(self).term == old(self).term, final(self).due == old(self).due, r is Ok ==> final(self).failed == old(self).failed, r is Err ==> final(self).failed@ { unimplemented!() }
}
spec fn answer(r: Option<Vec<u8>>, t: u8) -> Seq<u8> { match r { None => Seq::empty(), Some(d) => d@.push(t) } }
impl VxDev {
    #[verifier::external_body]
    fn execute<B: VxB + ?Sized>(&mut self, cmd: &B, w: &mut VxWr) -> (r: Option<Vec<u8>>)
        requires /*P02,P21*/ old(self).granted@, /*P21*/ old(w).due@.len() == 0
        ensures final(w).failed == old(w).failed, final(w).term == old(w).term, final(w).cmds@ == old(w).cmds@.push(cmd.bs()), final(w).due@ == answer(r, old(w).term@) { unimplemented!() }
}
// ---- what the commands of a byte stream are -------------------------------------------------------------------------------
spec fn line(s: Seq<u8>, t: u8) -> Seq<u8> { let l = s.take(llen(s, t)); if l.len() > 0 && l.last() == t { l.drop_last() } else { l } }
spec fn lines(s: Seq<u8>, t: u8) -> Seq<Seq<u8>> decreases s.len() {
    if !(0 < llen(s, t) <= s.len()) { Seq::empty() } else { seq![line(s, t)] + lines(s.skip(llen(s, t)), t) }
}
proof fn lemma_llen(s: Seq<u8>, t: u8)
    ensures 0 <= llen(s, t) <= s.len(), s.len() > 0 ==> llen(s, t) > 0, forall|i: int| 0 <= i < llen(s, t) - 1 ==> s[i] != t,
        llen(s, t) < s.len() ==> s[llen(s, t) - 1] == t
    decreases s.len()
{ if s.len() > 0 && s[0] != t { lemma_llen(s.skip(1), t); assert forall|i: int| 0 <= i < llen(s, t) - 1 implies s[i] != t by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } } } }
// c has been executed, s is still to be read
#[verifier::opaque]
spec fn done(c: Seq<Seq<u8>>, s: Seq<u8>, t: u8, all: Seq<Seq<u8>>) -> bool { c + lines(s, t) == all }
// no command contains the terminator, and the commands and terminators are the whole stream
proof fn lemma_line(s: Seq<u8>, t: u8) ensures /*P21*/ !line(s, t).contains(t), /*P21*/ line(s, t) == s.take(line(s, t).len() as int), line(s, t).len() <= llen(s, t)
{
    lemma_llen(s, t);
    let l = s.take(llen(s, t));
    let k = line(s, t);
    assert(k =~= s.take(k.len() as int));
    if l.len() > 0 { assert(l.last() == s[llen(s, t) - 1]); }
    assert forall|i: int| 0 <= i < k.len() implies k[i] != t by { if i < llen(s, t) - 1 { } }
}
'''
LEM = r'''//RAW
mod vxl { use super::*; verus! {
pub(crate) broadcast proof fn l_llen(s: Seq<u8>, t: u8) ensures 0 <= #[trigger] llen(s, t) <= s.len(), s.len() > 0 ==> llen(s, t) > 0 { lemma_llen(s, t); }
pub(crate) broadcast proof fn l_next(c: Seq<Seq<u8>>, s: Seq<u8>, t: u8, all: Seq<Seq<u8>>, x: Seq<u8>) requires #[trigger] done(c, s, t, all), s.len() > 0, x == line(s, t) ensures done(#[trigger] c.push(x), s.skip(llen(s, t)), t, all)
{ reveal(done); lemma_llen(s, t); assert(c + lines(s, t) =~= c.push(x) + lines(s.skip(llen(s, t)), t)); }
pub(crate) broadcast proof fn l_end(c: Seq<Seq<u8>>, s: Seq<u8>, t: u8, all: Seq<Seq<u8>>) requires #[trigger] done(c, s, t, all), s.len() == 0 ensures c == all
{ reveal(done); assert(lines(s, t) =~= Seq::<Seq<u8>>::empty()); assert(c + lines(s, t) =~= c); }
pub(crate) broadcast proof fn l_start(c: Seq<Seq<u8>>, s: Seq<u8>, t: u8) requires c.len() == 0 ensures #[trigger] done(c, s, t, lines(s, t))
{ reveal(done); assert(c + lines(s, t) =~= lines(s, t)); }
pub(crate) broadcast proof fn l_pre(a: Seq<u8>) ensures #[trigger] prefix(a, a) { assert(a.take(a.len() as int) =~= a); }
pub(crate) broadcast proof fn l_empty(a: Seq<u8>, b: Seq<u8>) requires a.len() == 0 ensures #[trigger] (a + b) == b { assert(a + b =~= b); }
pub(crate) broadcast proof fn l_eskip(a: Seq<u8>, n: int) requires 0 <= n <= a.len() ensures n == a.len() ==> #[trigger] a.skip(n) == Seq::<u8>::empty(), n == 0 ==> a.skip(n) == a { if n == a.len() { assert(a.skip(n) =~= Seq::<u8>::empty()); } if n == 0 { assert(a.skip(n) =~= a); } }
pub(crate) broadcast proof fn l_pushp(a: Seq<u8>, t: u8) ensures #![trigger a.push(t)] prefix(a, a.push(t)), a.push(t).skip(a.len() as int) == seq![t], a.push(t).skip(a.len() as int).take(1) == seq![t] { assert(a.push(t).take(a.len() as int) =~= a); assert(a.push(t).skip(a.len() as int) =~= seq![t]); assert(seq![t].take(1) =~= seq![t]); }
pub(crate) broadcast proof fn l_one(a: [u8; 1]) ensures #[trigger] a@ == seq![a@[0]] { assert(a@ =~= seq![a@[0]]); }
pub(crate) broadcast group all { l_llen, l_next, l_end, l_start, l_pre, l_empty, l_eskip, l_pushp, l_one }
} }
'''
SETTERS = {"read_buffer": ("read_buffer", "read_buffer"), "read_termination": ("read_termination", "read_termination"), "write_termination": ("write_termination", "write_termination"), "backpressure": ("limit", "limit")}
FIELDS = ("read_buffer", "limit", "read_termination", "write_termination")


def config(R, f, fields, setters):
    """the configuration builder"""
    st = f.find("struct", "ServerConfig")
    out = [R.clean(f, st.head, st.hi, [])]
    def keep(x):
        return ", ".join(f"r.{y} == self.{y}" for y in fields if y != x)
    for i in f.items:
        if i.kind != "impl" or i.is_test() or not re.search(r"\bServerConfig$", i.header):
            continue
        ms = []
        for m in i.members:
            if m.kind != "fn":
                continue
            q = "ServerConfig::" + m.name
            rw = [(r"\.\.Default::default\(\)", "..ServerConfig::default()", False), (r"\bArc::new\(", "(", False)]
            if m.name in setters:
                fl, a = setters[m.name]
                ms.append(R.fn(m, Contract(("requires " + a + ".is_ascii_control()\n" if "termination" in m.name else "") + f"ensures /*P21,P22*/ r.{fl} == {a}, {keep(fl)}", rw=rw + [(r"\b\w+\.is_ascii_control\(\)", "true", False)]), q))
            elif m.name == "new":
                term = "/*P21*/ r.read_termination == termination_char && r.write_termination == termination_char" if "read_termination" in fields else "true"
                ms.append(R.fn(m, Contract("ensures r.read_buffer == read_buffer, " + term, rw=rw), q))
            elif m.name == "default":
                term = "/*P21*/ r.read_termination == 10 && r.write_termination == 10" if "read_termination" in fields else "true"
                t = R.fn(m, Contract("ensures " + term, rw=rw), q)
                ms.append(t)
            elif m.name == "build":
                ms.append(R.fn(m, Contract("ensures /*P21,P22*/ r.0 == self", rw=rw, sig=[(r"Arc<Server>", "Server")]), q))
            else:
                raise Lost(q)
        out.append("impl ServerConfig {\n" + "\n".join(ms) + "}\n")
    return "\n".join(out)


def build():
    f = File(RAW)
    R = Render("raw")
    cfg = config(R, f, FIELDS, SETTERS)
    cfg = re.sub(r"requires (\w+)\.is_ascii_control\(\)", r"requires (\1 < 32 || \1 == 127)", cfg)
    sig = [(r"self\s*:\s*Arc<Self>", "&self"), (r"(?:io::)?Result<\(\),\s*io::Error>|io::Result<\(\)>", "Result<(), Error>"), (r"Arc<SpinMutex<SharedLock>>", "VxLock"), (r"Arc<Mutex<DEV>>", "VxArc"),
           (r"<DEV,\s*RD,\s*WR,\s*SA>", ""), (r"\breader:\s*RD\b", "reader: VxRd"), (r"\bmut writer:\s*WR\b", "writer: &mut VxWr"), (r"\bpeer:\s*SA\b", "peer: VxPeer"), (r"(?s)\bwhere\b.*$", "")]
    rw = [(r"\s*\.await\b", "", False), (r"\blet handle = ", "let mut handle = ", False), rx.add_arg("execute", "writer"),
          (r"(\w+)\.last\(\) == Some\(&([\w.]+)\)", r"vx_ends(&\1, \2)", False), (r"\blet mut (cmd) = Vec::with_capacity", r"let mut \1: Vec<u8> = Vec::with_capacity", False)]
    spec = """requires old(writer).cmds@.len() == 0, old(writer).due@.len() == 0, !old(writer).failed@, old(writer).term@ == self.0.write_termination
        ensures /*P21*/ r is Ok ==> final(writer).cmds@ == lines(reader.rest@, self.0.read_termination),
            /*P21*/ r is Ok ==> final(writer).due@.len() == 0, /*P21*/ r is Err ==> vx_rfail() || final(writer).failed@"""
    inv = """invariant_except_break cmd@.len() == 0, writer.due@.len() == 0,
            invariant !writer.failed@, writer.term@ == self.0.write_termination, done(writer.cmds@, reader.rest@, self.0.read_termination, lines(vx_all, self.0.read_termination))
            ensures writer.due@.len() == 0, reader.rest@.len() == 0, !writer.failed@,
"""
    C = Contract(spec, sig=sig, rw=rw, attrs="#[verifier::exec_allows_no_decreases_clause]", pre="broadcast use {vxl::all, vx_question}; let ghost vx_all = reader.rest@;", loops=[("loop", inv, "", "broadcast use {vxl::all, vx_question};", "")])
    body = []
    for i in f.items:
        if i.kind == "impl" and not i.is_test() and re.match(r"impl Server$", i.header):
            for m in i.members:
                if m.kind == "fn" and m.name == "process_client":
                    body.append(re.sub(r"\basync fn\b", "fn", R.fn(m, C, "Server::process_client")))
    if not body:
        raise Lost("Server::process_client")
    ends = '''
fn vx_ends(v: &Vec<u8>, b: u8) -> (r: bool) ensures r == (v@.len() > 0 && v@.last() == b) { if v.len() > 0 { v[v.len() - 1] == b } else { false } }
struct Server(ServerConfig);
'''
    return Group("raw", wrap(DEVICE, ITEMS, LEM, ends, cfg, "impl Server {\n" + "\n".join(body) + "}\n"), R,
                 trusted=["async-std BufReader::read_until appends everything up to and including the next delimiter (or to the end of the stream), however the stream arrives", "write_all sends exactly the bytes it is given",
                          "LockHandle::async_lock (group lock) grants access to the device and never fails", "Device::execute does what the device does"], exact=("execute", "async_lock", "inner_lock", "try_lock", "write", "write_all", "flush"), default_props=["P21"], panic_props=["P21"])
