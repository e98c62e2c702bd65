"""hislip/src/server/session/synchronous.rs: P09 data and trigger, P10 responses, P11 device clear (synchronous half)."""
import re
from rx import File, XFile, Render, Contract, Lost, break_to_return, select_arms
from vx import Group
from common import wrap
import hislip as H
import hmsg

DEVICE = r'''
// ---- trusted stand-ins: the device behind its lock -------------------------------------------------------------------
enum Call { Exec(Seq<u8>, Option<Seq<u8>>), Trig(Source), Clear, Remote(bool, bool), Lockout(bool), Status(Result<u8, DeviceError>) }
// the device while it is locked: `calls` is what was done to it in this critical section
// ok: the lock admits this client
struct VxDev { calls: Ghost<Seq<Call>>, ok: Ghost<bool> }
impl VxDev {
    #[verifier::external_body]
    fn execute(&mut self, cmd: &[u8]) -> (r: Option<Vec<u8>>)
        requires /*P02*/ old(self).ok@ ensures final(self).ok == old(self).ok, final(self).calls@ == old(self).calls@.push(Call::Exec(cmd@, match r { Some(v) => Some(v@), None => None })) { unimplemented!() }
    #[verifier::external_body]
    fn trigger(&mut self, s: Source) -> (r: Result<(), DeviceError>) requires /*P02*/ old(self).ok@ ensures final(self).ok == old(self).ok, final(self).calls@ == old(self).calls@.push(Call::Trig(s)) { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self) -> (r: Result<(), DeviceError>) requires /*P02*/ old(self).ok@ ensures final(self).ok == old(self).ok, final(self).calls@ == old(self).calls@.push(Call::Clear) { unimplemented!() }
    #[verifier::external_body]
    fn set_remote(&mut self, b: bool) -> (r: Result<(), DeviceError>) ensures final(self).ok == old(self).ok, final(self).calls@ == old(self).calls@.push(Call::Remote(b, r is Ok)) { unimplemented!() }
    #[verifier::external_body]
    fn set_local_lockout(&mut self, b: bool) ensures final(self).ok == old(self).ok, final(self).calls@ == old(self).calls@.push(Call::Lockout(b)) { unimplemented!() }
    #[verifier::external_body]
    fn get_status(&mut self) -> (r: Result<u8, DeviceError>) ensures final(self).ok == old(self).ok, final(self).calls@ == old(self).calls@.push(Call::Status(r)) { unimplemented!() }
}
// one critical section on the device: granted through the lock (true), or taken regardless of it (false)
struct Sec { locked: bool, calls: Seq<Call> }
// RemoteLockHandle (group lock)
struct VxRemote { log: Ghost<Seq<Sec>>, can: Ghost<Seq<bool>>, acq: Ghost<Seq<Acq>>, id: Ghost<int> }
struct Acq { wait: bool, key: Seq<u8>, ok: bool }
impl VxRemote {
    spec fn same(self, o: Self) -> bool { self.log == o.log && self.can == o.can && self.acq == o.acq && self.id == o.id }
    #[verifier::external_body]
    fn async_lock(&mut self) -> (r: Result<&mut VxDev, SharedLockError>)
        ensures r is Ok, (*(r->Ok_0)).ok@, (*(r->Ok_0)).calls@ == Seq::<Call>::empty(), final(self).log@ == old(self).log@.push(Sec { locked: true, calls: final(r->Ok_0).calls@ }),
            final(self).can == old(self).can, final(self).acq == old(self).acq, final(self).id == old(self).id { unimplemented!() }
    #[verifier::external_body]
    fn try_lock(&mut self) -> (r: Result<&mut VxDev, SharedLockError>)
        ensures r is Ok ==> (*(r->Ok_0)).ok@ && (*(r->Ok_0)).calls@ == Seq::<Call>::empty() && final(self).log@ == old(self).log@.push(Sec { locked: true, calls: final(r->Ok_0).calls@ }), r is Err ==> final(self).log == old(self).log,
            final(self).can == old(self).can, final(self).acq == old(self).acq, final(self).id == old(self).id { unimplemented!() }
    #[verifier::external_body]
    fn inner_lock(&mut self) -> (g: &mut VxDev)
        ensures (*g).ok@ == (old(self).can@.len() > 0 && old(self).can@.last()), (*g).calls@ == Seq::<Call>::empty(), final(self).log@ == old(self).log@.push(Sec { locked: false, calls: final(g).calls@ }),
            final(self).can == old(self).can, final(self).acq == old(self).acq, final(self).id == old(self).id { unimplemented!() }
    #[verifier::external_body]
    fn can_lock(&mut self) -> (r: Result<(), SharedLockError>)
        ensures final(self).can@ == old(self).can@.push(r is Ok), final(self).log == old(self).log, final(self).acq == old(self).acq, final(self).id == old(self).id { unimplemented!() }
}
'''
PRELUDE = r'''
enum Sub { None }
struct VxClears { id: Ghost<int> }
// receiving end of the clear signal: `taken` counts the signals consumed, `seen` how often one was found waiting
struct VxClear { taken: Ghost<int>, seen: Ghost<int> }
impl VxClear {
    #[verifier::external_body]
    fn try_recv(&mut self) -> (r: Result<(), ()>)
        ensures final(self).seen == old(self).seen, final(self).taken@ == old(self).taken@ + (if r is Ok { 1int } else { 0 }) { unimplemented!() }
    #[verifier::external_body]
    fn recv(&mut self) -> (r: Result<(), ()>)
        ensures final(self).seen == old(self).seen, final(self).taken@ == old(self).taken@ + 1 { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&mut self) -> (r: bool)
        ensures final(self).taken == old(self).taken, final(self).seen@ == old(self).seen@ + (if r { 0int } else { 1 }) { unimplemented!() }
}
// Arc<Mutex<SharedSession>>
struct VxShared { log: Ghost<Seq<(SharedSession, SharedSession)>> }
impl VxShared {
    #[verifier::external_body]
    fn lock(&mut self) -> (g: &mut SharedSession) ensures final(self).log@ == old(self).log@.push((*g, *final(g))) { unimplemented!() }
}
#[verifier::external_body]
fn vx_choose() -> (r: u8) { unimplemented!() }
impl Clone for ServerConfig {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
fn vx_clone_opt(v: &Option<Vec<u8>>) -> (r: Option<Vec<u8>>) ensures r == *v { unimplemented!() }
pub assume_specification<T, A: core::alloc::Allocator> [Vec::<T, A>::try_reserve_exact](v: &mut Vec<T, A>, n: usize) -> (r: Result<(), std::collections::TryReserveError>)
    ensures final(v)@ == old(v)@;
fn vx_extend(v: &mut Vec<u8>, d: &[u8]) ensures final(v)@ == old(v)@ + d@ { let ghost o = v@; v.extend_from_slice(d); proof { assert(v@ =~= o + d@); } }
fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
// <[u8]>::chunks(n).peekable()
struct VxChunks<'a> { v: &'a Vec<u8>, pos: Ghost<int>, n: Ghost<int> }
#[verifier::external_body]
fn vx_chunks(v: &Vec<u8>, n: usize) -> (r: VxChunks<'_>) requires /*P10,P23*/ n > 0 ensures r.v == v, r.pos@ == 0, r.n@ == n { unimplemented!() }
impl<'a> VxChunks<'a> {
    spec fn wf(&self) -> bool { 0 <= self.pos@ <= self.v@.len() && self.n@ > 0 }
    spec fn end(&self) -> int { if self.pos@ + self.n@ <= self.v@.len() { self.pos@ + self.n@ } else { self.v@.len() as int } }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a [u8]>) requires old(self).wf()
        ensures final(self).wf(), final(self).v == old(self).v, final(self).n == old(self).n,
            r is None <==> old(self).pos@ == old(self).v@.len(), r is None ==> final(self).pos == old(self).pos,
            r is Some ==> (r->0)@ == old(self).v@.subrange(old(self).pos@, old(self).end()) && final(self).pos@ == old(self).end() { unimplemented!() }
    #[verifier::external_body]
    fn peek(&mut self) -> (r: Option<&&'a [u8]>) requires old(self).wf()
        ensures *final(self) == *old(self), r is None <==> old(self).pos@ == old(self).v@.len() { unimplemented!() }
}
'''
SPEC = r'''
// ---- P11: what happens between an asynchronous and a synchronous clear -----------------------------------------------
// messages are dropped, non-fatal reception errors are reported
spec fn dropped(r: Seq<Item>, s: Seq<Msg>) -> bool decreases r.len() {
    if r.len() == 0 { s.len() == 0 } else { match r.last() {
        Item::E(f, c) => !f && s.len() > 0 && error_msg(s.last(), c) && dropped(r.drop_last(), s.drop_last()),
        Item::M(t, _, _, _) => !(t is DeviceClearComplete) && dropped(r.drop_last(), s),
    } }
}
spec fn clear_end(r: Seq<Item>, s: Seq<Msg>, hl: Seq<Sec>, can: Seq<bool>, ok: bool) -> bool {
    r.len() > 0 && s.len() > 0 && dropped(r.drop_last(), s.drop_last()) && match r.last() {
        Item::M(t, c, _, _) => {
            &&& ok && t is DeviceClearComplete
            &&& s.last().t == 9 && s.last().d.len() == 0 && s.last().c == (if c & 1u8 != 0 { 1u8 } else { 0u8 })
            &&& can.len() == 1 && if can[0] { hl.len() == 1 && hl[0].calls == seq![Call::Clear] } else { hl.len() == 0 }
        },
        Item::E(f, c) => !ok && f && fatal_msg(s.last(), c) && hl.len() == 0,
    }
}
// ---- P09, P10: one message -------------------------------------------------------------------------------------------------
struct Snap { recv: Seq<Item>, sent: Seq<Msg>, hlog: Seq<Sec>, can: Seq<bool>, sh: Seq<(SharedSession, SharedSession)>, buf: Seq<u8>, taken: int, seen: int }
spec fn grew<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
spec fn news<T>(a: Seq<T>, b: Seq<T>) -> Seq<T> { b.skip(a.len() as int) }
spec fn idn() -> Seq<u8> { seq![42u8, 105u8, 100u8, 110u8, 63u8] }
spec fn short(cfg: ServerConfig, all: Seq<u8>) -> bool { cfg.short_idn is Some && ieq(all, idn()) }
spec fn plain(a: Snap, b: Snap) -> bool {
    &&& b.taken == a.taken && b.recv.len() == a.recv.len() + 1 && b.recv.drop_last() == a.recv
    &&& b.hlog.len() == a.hlog.len() + 1 && b.hlog.drop_last() == a.hlog && b.hlog.last().locked
    &&& grew(a.sent, b.sent)
}
// data and trigger messages reach the device as they should; `ended`: the session ends here
spec fn exec_ok(a: Snap, b: Snap, cfg: ServerConfig, ended: bool) -> bool {
    plain(a, b) && {
        let calls = b.hlog.last().calls;
        let m = news(a.sent, b.sent);
        let st = b.sh.last().0.state;
        match b.recv.last() {
            Item::M(t, _, p, d) => match t {
                MessageType::Data | MessageType::DataEnd => {
                    &&& b.sh.len() == a.sh.len() + 1
                    &&& if st is Handshake { ended && calls.len() == 0 && m.len() == 1 && fatal_msg(m[0], 2) }
                        else if ended { calls.len() == 0 && m.len() == 1 && fatal_msg(m[0], 0) /* out of memory */ }
                        else if t is Data { calls.len() == 0 && b.buf == a.buf + d }
                        else {
                            &&& b.buf.len() == 0
                            &&& if short(cfg, a.buf + d) { calls.len() == 0 } else { calls.len() == 1 && calls[0] is Exec && calls[0]->Exec_0 == a.buf + d }
                        }
                },
                MessageType::Trigger => {
                    &&& b.sh.len() == a.sh.len() + 1
                    &&& if st is Handshake { ended && calls.len() == 0 && m.len() == 1 && fatal_msg(m[0], 2) }
                        else { !ended && calls == seq![Call::Trig(Source::Bus)] && m.len() == 0 && b.buf == a.buf }
                },
                _ => calls.len() == 0 && (ended || b.buf == a.buf),
            },
            Item::E(f, c) => calls.len() == 0 && ended == f && m.len() == 1 && err_msg(m[0], b.recv.last()) && (ended || b.buf == a.buf),
        }
    }
}
// m carries r, in pieces of at most n bytes
spec fn pieces(m: Seq<Msg>, r: Seq<u8>, n: int, id: u32) -> bool decreases m.len() {
    if m.len() == 0 { r.len() == 0 } else {
        let l = m.last();
        &&& l.p == id && 0 < l.d.len() <= n && l.d.len() <= r.len()
        &&& r.skip(r.len() - l.d.len()) == l.d
        &&& pieces(m.drop_last(), r.take(r.len() - l.d.len()), n, id)
    }
}
// all are Data messages; the last one is DataEnd if that completes the response
spec fn types_ok(m: Seq<Msg>, complete: bool) -> bool {
    forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).t == (if complete && i == m.len() - 1 { 7int } else { 6int })
}
spec fn sends(m: Seq<Msg>, r: Seq<u8>, n: int, id: u32, whole: bool) -> bool {
    exists|k: int| 0 <= k <= r.len() && pieces(m, #[trigger] r.take(k), n, id) && types_ok(m, k == r.len()) && (whole ==> k == r.len())
}
spec fn limit(s: SharedSession) -> int { if s.max_message_size >= 1 { s.max_message_size as int } else { 1 } }
spec fn response(a: Snap, b: Snap, cfg: ServerConfig, d: Seq<u8>) -> Option<Seq<u8>> {
    if short(cfg, a.buf + d) { Some(cfg.short_idn->0@) } else { b.hlog.last().calls[0]->Exec_1 }
}
spec fn resp_ok(a: Snap, b: Snap, cfg: ServerConfig) -> bool {
    b.recv.len() > 0 && grew(a.sent, b.sent) && match b.recv.last() {
        Item::M(t, _, p, d) => (t is Data ==> b.sent == a.sent)
            && (t is DataEnd ==> match response(a, b, cfg, d) {
                None => b.sent == a.sent,
                Some(r) => sends(news(a.sent, b.sent), r, limit(b.sh.last().0), p, b.seen == a.seen),
            }),
        _ => true,
    }
}
spec fn clear_ok(a: Snap, b: Snap, ok: bool) -> bool {
    &&& grew(a.recv, b.recv) && grew(a.sent, b.sent) && grew(a.hlog, b.hlog) && grew(a.can, b.can)
    &&& clear_end(news(a.recv, b.recv), news(a.sent, b.sent), news(a.hlog, b.hlog), news(a.can, b.can), ok)
    &&& ok ==> b.buf.len() == 0
}
// a DeviceClearComplete out of the blue
spec fn blue_ok(a: Snap, b: Snap, ended: bool) -> bool {
    b.recv.len() > 0 && b.recv.last() is M && b.recv.last()->M_0 is DeviceClearComplete ==> {
        let m = news(a.sent, b.sent);
        !ended && m.len() == 1 && m[0].t == 3
    }
}
'''
TRUST = ["Receiver<()> of the clear channel: try_recv/recv consume one signal, is_empty tells whether one waits",
         "futures Mutex/RemoteLockHandle: exclusive access for each critical section; async_lock returns Ok only with access granted (group lock)",
         "<[u8]>::chunks(n).peekable() delivers consecutive pieces of n bytes and panics for n == 0", "eq_ignore_ascii_case", "Vec::try_reserve_exact changes no content",
         "Device methods do what the device does; they are logged with their arguments and results", "select! completes with one of its branches"]
LEM = r'''//RAW
mod vxl { use super::*; verus! {
pub(crate) broadcast proof fn lemma_skip_push<T>(s: Seq<T>, x: T, n: int) requires 0 <= n <= s.len() ensures #[trigger] s.push(x).skip(n) == s.skip(n).push(x) { assert(s.push(x).skip(n) =~= s.skip(n).push(x)); }
pub(crate) broadcast proof fn lemma_skip_all<T>(s: Seq<T>) ensures #[trigger] s.skip(s.len() as int) == Seq::<T>::empty() { assert(s.skip(s.len() as int) =~= Seq::<T>::empty()); }
pub(crate) broadcast proof fn lemma_push_drop<T>(s: Seq<T>, x: T) ensures #[trigger] s.push(x).drop_last() == s { assert(s.push(x).drop_last() =~= s); }
pub(crate) broadcast proof fn lemma_grew<T>(a: Seq<T>, b: Seq<T>, x: T) requires #[trigger] grew(a, b) ensures #[trigger] grew(a, b.push(x)) { assert(b.push(x).take(a.len() as int) =~= b.take(a.len() as int)); }
pub(crate) broadcast proof fn lemma_grew1<T>(a: Seq<T>, x: T) ensures #[trigger] grew(a, a.push(x)) { assert(a.push(x).take(a.len() as int) =~= a); }
pub(crate) broadcast proof fn lemma_grew2<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>) requires #[trigger] grew(a, b), #[trigger] grew(b, c) ensures grew(a, c) { assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int)); }
pub(crate) broadcast proof fn lemma_grew3<T>(a: Seq<T>, b: Seq<T>) requires a.len() > 0, grew(a, b) ensures #[trigger] grew(a.drop_last(), b) { assert(b.take(a.len() - 1) =~= b.take(a.len() as int).drop_last()); }
pub(crate) broadcast proof fn lemma_idn(a: Seq<u8>, b: Seq<u8>) requires b.len() == 5, b[0] == 42, b[1] == 105, b[2] == 100, b[3] == 110, b[4] == 63 ensures #[trigger] ieq(a, b) == ieq(a, idn()) { assert(b =~= idn()); }
pub(crate) broadcast proof fn lemma_grew0<T>(a: Seq<T>) ensures #[trigger] grew(a, a) { assert(a.take(a.len() as int) =~= a); }
pub(crate) broadcast proof fn lemma_eskip<T>(x: T) ensures #[trigger] Seq::<T>::empty().push(x).drop_last() == Seq::<T>::empty() { assert(Seq::<T>::empty().push(x).drop_last() =~= Seq::<T>::empty()); }
pub(crate) broadcast proof fn lemma_or0(p: u8) ensures #[trigger] (p | 0u8) == p { assert(p | 0u8 == p) by(bit_vector); }
pub(crate) broadcast proof fn lemma_or00() ensures #[trigger] (0u8 | 0u8) == 0u8 { assert(0u8 | 0u8 == 0u8) by(bit_vector); }
pub(crate) broadcast proof fn lemma_pieces(m: Seq<Msg>, r: Seq<u8>, n: int, id: u32, x: Msg, k: int, k2: int)
    requires 0 <= k < k2 <= r.len(), #[trigger] pieces(m, r.take(k), n, id), x.p == id, x.d == r.subrange(k, k2), k2 - k <= n
    ensures #[trigger] pieces(m.push(x), r.take(k2), n, id)
{
    assert(m.push(x).drop_last() =~= m);
    assert(r.take(k2).skip(k) =~= x.d);
    assert(r.take(k2).take(k) =~= r.take(k));
}
pub(crate) broadcast proof fn lemma_nopieces(r: Seq<u8>, n: int, id: u32)
    ensures #[trigger] pieces(Seq::<Msg>::empty(), r.take(0), n, id) { assert(r.take(0).len() == 0); }
pub(crate) broadcast group all { lemma_skip_push, lemma_skip_all, lemma_push_drop, lemma_grew, lemma_grew0, lemma_idn, lemma_grew1, lemma_grew2, lemma_grew3, lemma_or0, lemma_or00, lemma_pieces, lemma_nopieces, lemma_eskip }
} }
'''
RW = [(r"\bdrop\(\w+\);", "", False), H.fmt_rw, (r"&mut stream\b", "stream", False), (r"\.lock\(\)\s*\.await", ".lock()", False),
      (r"\.inner_lock\(\)\s*\.await", ".inner_lock()", False), (r"\.(async|try)_lock\(\)\s*\.await", r".\1_lock()", False), (r"peer\.(clone|to_string)\(\)", "vx_string()", False)]
SELF = "old(self)"
SIG = [(r"&self\b|\bself(?=,)", "&mut self"), (r"<S>", ""), (r"mut stream: S", "stream: &mut VxStream"), (r"(?s)where\s+S:.*$", "")]
SAMEF = "final(self).config == old(self).config, final(self).id == old(self).id"


def snap(st, se, buf):
    return f"Snap {{ recv: {st}.recv@, sent: {st}.sent@, hlog: {se}.handle.log@, can: {se}.handle.can@, sh: {se}.shared.log@, buf: {buf}, taken: {se}.clear.taken@, seen: {se}.clear.seen@ }}"


def enum2(R, f, n):
    it = f.find("enum", n)
    return "#[derive(Clone, Copy, Debug)]\n" + R.clean(f, it.head, it.hi, [])


def shared_items(R):
    f = File("hislip/src/server/session/mod.rs")
    out = [hmsg.enum(R, f, "SessionMode"), hmsg.enum(R, f, "SessionState")]
    st = f.find("struct", "SharedSession")
    out.append(re.sub(r"clear:\s*\(Sender<\(\)>,\s*Receiver<\(\)>\)", "clear: VxClears", R.clean(f, st.head, st.hi, [])))
    im = f.find("impl", header="impl SharedSession")
    C = {"state": Contract("ensures /*P09*/ r == self.state"),
         "set_state": Contract("ensures *final(self) == (SharedSession { state, ..*old(self) })")}
    b = [R.fn(m, C[m.name], "SharedSession::" + m.name) for m in im.members if m.kind == "fn" and m.name in C]
    out.append("impl SharedSession {\n" + "\n".join(b) + "}\n")
    fd, ft, fl = File("device/src/lib.rs"), File("device/src/trigger.rs"), File("device/src/lock.rs")
    out += [enum2(R, fd, "DeviceError"), enum2(R, ft, "Source"), enum2(R, fl, "SharedLockError"), enum2(R, fl, "SharedLockMode")]
    fs = File("hislip/src/server/mod.rs")
    cfg = fs.find("struct", "ServerConfig")
    out.append(R.clean(fs, cfg.head, cfg.hi, []))
    return "\n".join(out)


def sess():
    return H.SESSION.replace("limit: Ghost<u64>, extra", "limit: Ghost<u64>, mark: Ghost<Snap>, extra").replace("final(self).eof == old(self).eof,", "final(self).eof == old(self).eof, final(self).mark == old(self).mark,") \
        .replace("ensures final(s).eof == old(s).eof,", "ensures final(s).mark == old(s).mark, final(s).eof == old(s).eof,").replace("ensures final(s).sent == old(s).sent, final(s).limit", "ensures final(s).mark == old(s).mark, final(s).sent == old(s).sent, final(s).limit")


def unfuse(txt):
    """(FUTURE.fuse()).await in a select! arm -> FUTURE"""
    return re.sub(r"\(((?:[\w.]|\(\))+?)\s*\.fuse\(\)\)\s*\.await", r"\1", txt)


def build():
    fm = File("hislip/src/common/messages.rs")
    f = XFile("hislip/src/server/session/synchronous.rs", ("send_fatal", "send_nonfatal"), extra=(fm,))
    R = Render("hsync")
    api = H.msg_api(R)
    st = f.find("struct", "SyncSession")
    s = R.clean(f, st.head, st.hi, [])
    s = re.sub(r"<DEV>\s*where\s*DEV:\s*Device,?", "", s, count=1)
    s = s.replace("RemoteLockHandle<DEV>", "VxRemote").replace("Arc<Mutex<SharedSession>>", "VxShared").replace("Receiver<()>", "VxClear")
    CLR = f"""clear_end(final(stream).recv@.skip(old(stream).recv@.len() - 1), news(old(stream).sent@, final(stream).sent@), news(old(self).handle.log@, final(self).handle.log@), news(old(self).handle.can@, final(self).handle.can@), r is Ok)"""
    lbl = "P11"
    C = {
        "new": Contract("ensures /*P09*/ r.handle == handle && r.shared == shared && r.clear == clear && r.config == config && r.id == id",
                        sig=[(r"RemoteLockHandle<DEV>", "VxRemote"), (r"Arc<Mutex<SharedSession>>", "VxShared"), (r"Receiver<\(\)>", "VxClear")]),
        "acknowledge_device_clear": Contract(f"""requires !old(stream).dead@
            ensures {SAMEF}, final(self).clear == old(self).clear, final(self).handle.same(old(self).handle), final(stream).recv == old(stream).recv, final(stream).limit == old(stream).limit, final(stream).extra == old(stream).extra, final(stream).mark == old(stream).mark,
            final(stream).eof == old(stream).eof, r is Ok ==> !final(stream).dead@, r is Err ==> final(stream).dead@ && final(stream).sent == old(stream).sent,
            /*P11*/ r is Ok ==> final(stream).sent@ == old(stream).sent@.push(final(stream).sent@.last()),
            /*P11*/ r is Ok ==> ({{ let m = final(stream).sent@.last(); m.t == 9 && m.d.len() == 0 && m.c == (if control_code & 1u8 != 0 {{ 1u8 }} else {{ 0u8 }}) }}),
            /*P11*/ final(self).shared.log@.len() == old(self).shared.log@.len() + 1 && ({{ let g = final(self).shared.log@.last().1; (g.mode is Overlapped) == (control_code & 1u8 != 0) && (g.state is Normal || g.state == final(self).shared.log@.last().0.state) }})""",
                                             sig=SIG, rw=RW, pre="broadcast use vxl::all;"),
        "clear_buffer": Contract(f"""requires !old(stream).dead@, !old(stream).eof@, old(stream).recv@.len() > 0, old(stream).recv@.last() == item(msg), old(stream).limit@ == old(self).config.max_message_size
            ensures {SAMEF}, final(self).clear == old(self).clear, final(stream).limit == old(stream).limit, final(stream).extra == old(stream).extra, final(stream).mark == old(stream).mark,
            r is Ok ==> !final(stream).dead@ && !final(stream).eof@,
            /*P11*/ grew(old(stream).recv@, final(stream).recv@), /*P11*/ grew(old(stream).recv@.drop_last(), final(stream).recv@), /*P11*/ grew(old(stream).sent@, final(stream).sent@), /*P11*/ grew(old(self).handle.log@, final(self).handle.log@),
            /*P11*/ grew(old(self).handle.can@, final(self).handle.can@),
            /*P11*/ final(stream).eof@ ==> final(self).handle.log == old(self).handle.log,
            /*P11*/ final(stream).dead@ || final(stream).eof@ || {CLR}""",
                                 sig=SIG, rw=[break_to_return] + RW, pre="broadcast use vxl::all;", attrs="#[verifier::exec_allows_no_decreases_clause]",
                                 loops=[("loop", """invariant !stream.dead@, !stream.eof@, stream.recv@.len() >= old(stream).recv@.len() > 0, stream.recv@.last() == item(msg), self.config == old(self).config, self.id == old(self).id, self.clear == old(self).clear,
                stream.limit == old(stream).limit, stream.extra == old(stream).extra, stream.mark == old(stream).mark, stream.limit@ == self.config.max_message_size,
                self.handle.same(old(self).handle), grew(old(stream).recv@, stream.recv@), grew(old(stream).sent@, stream.sent@),
                dropped(stream.recv@.skip(old(stream).recv@.len() - 1).drop_last(), news(old(stream).sent@, stream.sent@))""", "", "broadcast use vxl::all;")]),
        "handle_session": Contract(f"""requires !old(stream).dead@, !old(stream).eof@, old(stream).limit@ == old(self).config.max_message_size
            ensures
            /*P09*/ final(stream).eof@ ==> final(self).handle.log@ == MARK.hlog || final(self).clear.taken@ > MARK.taken,
            /*P09*/ final(stream).dead@ || final(stream).eof@ || final(self).clear.taken@ > MARK.taken || exec_ok(MARK, NOW, old(self).config, true),
            /*P11*/ final(stream).dead@ || final(stream).eof@ || final(self).clear.taken@ > MARK.taken || blue_ok(MARK, NOW, true),
            /*P11*/ final(stream).dead@ || final(stream).eof@ || final(self).clear.taken@ <= MARK.taken || clear_ok(MARK, NOW, false)"""
                                   .replace("MARK", "final(stream).mark@").replace("NOW", snap("final(stream)", "final(self)", "Seq::empty()")),
                                   sig=SIG,
                                   rw=[select_arms(), unfuse, H.OR_GUARD] + RW + [(r"([\w.]+short_idn)\.clone\(\)", r"vx_clone_opt(&\1)", False),
                                       (r"\b(\w+)\.extend_from_slice\(", r"vx_extend(&mut \1, ", False), (r"(\w+)\s*\.chunks\((.*?)\)\s*\.peekable\(\)", r"vx_chunks(&\1, \2)", False), (r"\(([\w.]+ as usize)\)\.max\((\w+)\)", r"vx_max(\1, \2)", False),
                                       (r"protocol (>=|<|>|<=|==) (PROTOCOL_\w+)", r"protocol.0 \1 \2.0", False)],
                                   pre="broadcast use vxl::all; let ghost mut vx_first = true;", attrs="#[verifier::exec_allows_no_decreases_clause]",
                                   loops=[("loop", f"""invariant !stream.dead@, !stream.eof@, self.config == old(self).config, self.id == old(self).id, stream.limit@ == self.config.max_message_size,
                vx_first ==> buffer@.len() == 0,
                /*P09*/ vx_first || NOW.taken > MARK.taken || exec_ok(MARK, NOW, self.config, false),
                /*P10*/ vx_first || NOW.taken > MARK.taken || resp_ok(MARK, NOW, self.config),
                /*P11*/ vx_first || NOW.taken > MARK.taken || blue_ok(MARK, NOW, false),
                /*P11*/ vx_first || NOW.taken <= MARK.taken || clear_ok(MARK, NOW, true)""".replace("MARK", "stream.mark@").replace("NOW", "(" + snap("stream", "self", "buffer@") + ")"), "",
                                           f"broadcast use vxl::all; proof {{ vx_first = false; stream.mark@ = {snap('stream', 'self', 'buffer@')}; }}"),
                                          ("while", f"""invariant_except_break
                self.clear.seen@ == vx_b.seen,
                /*P10*/ pieces(news(vx_b.sent, stream.sent@), chunks.v@.take(chunks.pos@), chunks.n@, message_id),
                /*P10*/ types_ok(news(vx_b.sent, stream.sent@), chunks.pos@ == chunks.v@.len()),
            invariant chunks.wf(), chunks.v@ == vx_v, chunks.n@ == limit(vx_b.sh.last().0), !stream.dead@, !stream.eof@, stream.limit == vx_l, vx_b.sent == vx_m.sent, vx_b.taken == vx_m.taken,
                stream.recv@ == vx_b.recv, stream.mark@ == vx_m, grew(vx_b.sent, stream.sent@), self.handle.log@ == vx_b.hlog, self.handle.can@ == vx_b.can, self.shared.log@ == vx_b.sh,
                self.clear.taken@ == vx_b.taken, self.clear.seen@ >= vx_b.seen, buffer@ == vx_b.buf, self.config == old(self).config, self.id == old(self).id,
            ensures /*P10*/ sends(news(vx_b.sent, stream.sent@), chunks.v@, chunks.n@, message_id, self.clear.seen@ == vx_b.seen)
            """.replace(" complete(chunks),", ""), f"let ghost vx_b = {snap('stream', 'self', 'buffer@')}; let ghost vx_m = stream.mark@; let ghost vx_v = chunks.v@; let ghost vx_l = stream.limit;", "broadcast use vxl::all;")]),
    }
    im = f.impls(lambda h: h.startswith("impl<DEV>SyncSession<DEV>"))
    if not im:
        raise Lost("impl SyncSession")
    body = []
    for m in im[0].members:
        if m.kind == "fn":
            body.append(R.fn(m, C.get(m.name), "SyncSession::" + m.name))
    return Group("hsync", wrap(H.IO, H.tables(), sess(), DEVICE, PRELUDE, SPEC, LEM, api, s, shared_items(R), "impl SyncSession {\n" + "\n".join(body) + "}\n"), R,
                 trusted=TRUST + H.SESSION_TRUST, exact=("execute", "trigger", "get_status", "set_remote", "set_local_lockout", "inner_lock", "async_lock", "try_lock", "can_lock") + H.BITS, default_props=["P09", "P10", "P11"], panic_props=["P23", "P10"])
