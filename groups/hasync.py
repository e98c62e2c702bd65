"""hislip/src/server/session/asynchronous.rs: P12 the asynchronous channel, P11 device clear (asynchronous half)."""
import re
from rx import File, XFile, Render, Contract, Lost, break_to_return, combinators
from vx import Group
from common import wrap
import hislip as H
import hmsg, hsync

REMOTE = r'''
// ---- trusted stand-ins: the session's lock handle and its waiting front -------------------------------------------------
enum HOp { Release(Result<SharedLockMode, SharedLockError>), Info(bool, u32) }
struct VxHandle { ops: Ghost<Seq<HOp>> }
impl VxHandle {
    #[verifier::external_body]
    fn try_release(&mut self) -> (r: Result<SharedLockMode, SharedLockError>) ensures final(self).ops@ == old(self).ops@.push(HOp::Release(r)) { unimplemented!() }
    #[verifier::external_body]
    fn lock_info(&mut self) -> (r: (bool, u32)) ensures final(self).ops@ == old(self).ops@.push(HOp::Info(r.0, r.1)) { unimplemented!() }
}
// Arc<SpinMutex<LockHandle>>: one entry per critical section
struct VxSpin { log: Ghost<Seq<Seq<HOp>>> }
impl VxSpin {
    #[verifier::external_body]
    fn lock(&mut self) -> (g: &mut VxHandle) ensures (*g).ops@ == Seq::<HOp>::empty(), final(self).log@ == old(self).log@.push(final(g).ops@) { unimplemented!() }
}
impl VxRemote {
    #[verifier::external_body]
    fn new(h: &VxSpin) -> (r: VxRemote) ensures r.log@ == Seq::<Sec>::empty(), r.acq@ == Seq::<Acq>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn try_acquire(&mut self, key: &[u8]) -> (r: Result<(), SharedLockError>)
        ensures final(self).acq@ == old(self).acq@.push(Acq { ms: None, key: key@, r }), final(self).log == old(self).log, final(self).can == old(self).can { unimplemented!() }
}
// future::timeout around RemoteLockHandle::async_acquire
struct TimeoutError;
#[verifier::external_body]
fn vx_timeout(d: Duration, h: &mut VxRemote, key: &[u8]) -> (r: Result<Result<(), SharedLockError>, TimeoutError>)
    ensures final(h).acq@ == old(h).acq@.push(Acq { ms: Some(d.ms as int), key: key@, r: match r { Ok(x) => x, Err(_) => Err(SharedLockError::Timeout) } }), final(h).log == old(h).log, final(h).can == old(h).can { unimplemented!() }
struct Duration { ms: u64 }
impl Duration {
    fn from_millis(n: u64) -> (r: Duration) ensures r.ms == n { Duration { ms: n } }
    #[verifier::external_body]
    fn from_secs(n: u64) -> (r: Duration) ensures r.ms as int == n as int * 1000 { unimplemented!() }
}
'''
PRELUDE = r'''
enum Sub { None }
struct VxClears { id: Ghost<int> }
// sending end of the clear signal
struct VxClearTx { n: Ghost<int> }
impl VxClearTx {
    #[verifier::external_body]
    fn try_send(&mut self, x: ()) -> (r: Result<(), ()>) ensures final(self).n@ == old(self).n@ + 1 { unimplemented!() }
}
// Arc<Mutex<SharedSession>>
struct VxShared { log: Ghost<Seq<(SharedSession, SharedSession)>> }
impl VxShared {
    #[verifier::external_body]
    fn lock(&mut self) -> (g: &mut SharedSession) ensures final(self).log@ == old(self).log@.push((*g, *final(g))) { unimplemented!() }
}
// stream of status changes
struct VxSrq { got: Ghost<Seq<Option<u8>>> }
// a pending reception
struct VxRead { max: u64 }
fn vx_read(max: u64) -> (r: VxRead) ensures r.max == max { VxRead { max } }
enum Either<A, B> { Left(A), Right(B) }
impl VxRead {
    #[verifier::external_body]
    fn run(self, s: &mut VxStream) -> (r: Result<Result<Message, Error>, io::Error>)
        requires /*P05*/ self.max == old(s).limit@
        ensures final(s).mark == old(s).mark, final(s).case == old(s).case, r is Ok ==> in_case(old(s).case@, item(r->Ok_0)), final(s).at@ == old(s).sent@, final(s).sent == old(s).sent, final(s).limit == old(s).limit, final(s).extra == old(s).extra, final(s).dead == old(s).dead,
            r is Ok ==> final(s).recv@ == old(s).recv@.push(item(r->Ok_0)) && final(s).eof == old(s).eof,
            r is Ok && r->Ok_0 is Ok ==> match r->Ok_0->Ok_0.message_type { MessageType::VendorSpecific(x) => x >= 128, _ => true },
            r is Err ==> final(s).recv == old(s).recv && final(s).eof@ { unimplemented!() }
}
// futures::future::select of a reception and the next status change
#[verifier::external_body]
fn vx_select(s: &mut VxStream, m: VxRead, q: &mut VxSrq) -> (r: Either<(Result<Result<Message, Error>, io::Error>, ()), (Option<u8>, VxRead)>)
    requires /*P05*/ m.max == old(s).limit@
    ensures final(s).mark == old(s).mark, final(s).case == old(s).case, final(s).sent == old(s).sent, final(s).limit == old(s).limit, final(s).extra == old(s).extra, final(s).dead == old(s).dead,
        match r {
            Either::Left((x, _)) => (x is Ok ==> in_case(old(s).case@, item(x->Ok_0))) && final(s).at@ == old(s).sent@ && final(q).got == old(q).got && (x is Ok ==> final(s).recv@ == old(s).recv@.push(item(x->Ok_0)) && final(s).eof == old(s).eof)
                && (x is Ok && x->Ok_0 is Ok ==> match x->Ok_0->Ok_0.message_type { MessageType::VendorSpecific(y) => y >= 128, _ => true })
                && (x is Err ==> final(s).recv == old(s).recv && final(s).eof@),
            Either::Right((v, m2)) => final(s).at == old(s).at && final(q).got@ == old(q).got@.push(v) && m2.max == m.max && final(s).recv == old(s).recv && final(s).eof == old(s).eof,
        } { unimplemented!() }
// &str
spec fn trim0(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 0 && s.last() == 0u8 { trim0(s.drop_last()) } else { s } }
uninterp spec fn utf8(s: Seq<u8>) -> bool;
struct VxStr { b: Ghost<Seq<u8>> }
#[verifier::external_body]
fn from_utf8(v: &Vec<u8>) -> (r: Result<VxStr, ()>) ensures r is Ok <==> utf8(v@), r is Ok ==> (r->Ok_0).b@ == v@ { unimplemented!() }
impl VxStr {
    #[verifier::external_body]
    fn ends_with(&self, c: char) -> (r: bool) ensures c == '\0' ==> r == (self.b@.len() > 0 && self.b@.last() == 0u8) { unimplemented!() }
    #[verifier::external_body]
    fn trim_end_matches(&self, c: char) -> (r: VxStr) ensures c == '\0' ==> r.b@ == trim0(self.b@) { unimplemented!() }
    #[verifier::external_body]
    fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.b@ { unimplemented!() }
}
fn vx_stop() requires false {}
#[verifier::external_body]
fn vx_arr8(a: &[u8; 8]) -> (r: Vec<u8>) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
fn vx_write8(a: &mut [u8; 8], v: u64) ensures final(a)@ == enc_be(v as int, 8) { unimplemented!() }
'''
SPEC = r'''
struct Snap { recv: Seq<Item>, sent: Seq<Msg>, got: Seq<Option<u8>>, hlog: Seq<Sec>, acq: Seq<Acq>, ops: Seq<Seq<HOp>>, sh: Seq<(SharedSession, SharedSession)>, clr: int, bit: bool }
spec fn keeps(a: SharedSession, b: SharedSession, en: bool, mx: bool) -> bool {
    a.protocol == b.protocol && a.state == b.state && a.mode == b.mode && a.clear == b.clear && a.read_message_id == b.read_message_id && a.sent_message_id == b.sent_message_id
        && (en || a.enable_remote == b.enable_remote) && (mx || a.max_message_size == b.max_message_size)
}
spec fn kept(a: Snap, b: Snap, en: bool, mx: bool) -> bool { forall|i: int| a.sh.len() <= i < b.sh.len() ==> keeps((#[trigger] b.sh[i]).0, b.sh[i].1, en, mx) }
spec fn nodev(a: Snap, b: Snap) -> bool { b.hlog == a.hlog }
spec fn nolock(a: Snap, b: Snap) -> bool { b.acq == a.acq && b.ops == a.ops }
// exactly one more entry
spec fn one<T>(a: Seq<T>, b: Seq<T>) -> bool { b == a.push(b.last()) }
// remote/local: the calls of one request
spec fn local(c: Seq<Call>) -> bool { c.len() == 2 && ((c[0] == Call::Lockout(false) && c[1] is Remote && !c[1]->Remote_0) || (c[1] == Call::Lockout(false) && c[0] is Remote && !c[0]->Remote_0)) }
spec fn lockout(c: Seq<Call>) -> bool { c.len() == 2 && ((c[0] == Call::Lockout(true) && c[1] is Remote && c[1]->Remote_0) || (c[1] == Call::Lockout(true) && c[0] is Remote && c[0]->Remote_0)) }
spec fn went(c: Seq<Call>) -> Result<(), DeviceError> { if c.len() == 0 { Ok(()) } else if c.last() is Remote { c.last()->Remote_1 } else if c.len() == 2 && c[0] is Remote { c[0]->Remote_1 } else { Ok(()) } }
spec fn rl_calls(code: u8, c: Seq<Call>) -> bool {
    if code == 0 || code == 2 { local(c) } else if code == 3 { c.len() == 1 && c[0] is Remote && c[0]->Remote_0 } else if code == 4 { c == seq![Call::Lockout(true)] }
    else if code == 5 { lockout(c) } else if code == 6 { c.len() == 1 && c[0] is Remote && !c[0]->Remote_0 } else { c.len() == 0 }
}
spec fn rl_ok(a: Snap, b: Snap, code: u8, m: Msg) -> bool {
    &&& nolock(a, b) && b.clr == a.clr && b.bit == a.bit && kept(a, b, code <= 5, false)
    &&& code <= 5 ==> b.sh.len() > a.sh.len() && b.sh.last().1.enable_remote == (code != 0 && code != 2)
    &&& if code > 6 { nodev(a, b) && m.t == 3 } else {
        &&& if code == 1 { nodev(a, b) && m.t == 11 } else { one(a.hlog, b.hlog) && b.hlog.last().locked && rl_calls(code, b.hlog.last().calls) && m.t == (if went(b.hlog.last().calls) is Ok { 11int } else { 3 }) }
    }
}
spec fn lock_ok(a: Snap, b: Snap, c: u8, p: u32, d: Seq<u8>, m: Msg) -> bool {
    &&& nodev(a, b) && b.clr == a.clr && b.bit == a.bit && kept(a, b, false, false) && m.t == 5
    &&& if c == 0 {
        &&& b.acq == a.acq && one(a.ops, b.ops) && b.ops.last().len() == 1 && b.ops.last()[0] is Release
        &&& m.c == (match b.ops.last()[0]->Release_0 { Ok(SharedLockMode::Exclusive) => 1u8, Ok(SharedLockMode::Shared) => 2u8, Err(_) => 3u8 })
    } else if utf8(d) {
        &&& b.ops == a.ops && one(a.acq, b.acq) && b.acq.last().key == trim0(d) && b.acq.last().ms == (if p == 0 { None } else { Some(p as int) })
        &&& match b.acq.last().r { Ok(_) => m.c == 1, Err(e) => if e is Timeout || e is LockedByShared || e is LockedByExclusive { m.c == 0 } else if e is AlreadyLocked { m.c == 3 } else { m.c != 1 } }
    } else { nolock(a, b) && m.c == 3 }
}
spec fn status_ok(a: Snap, b: Snap, m: Msg) -> bool {
    &&& nolock(a, b) && b.clr == a.clr && !b.bit && kept(a, b, false, false) && m.t == 22
    &&& b.sh.len() > a.sh.len() && one(a.hlog, b.hlog)
    &&& ({
        let en = b.sh.last().0.enable_remote;
        let c = b.hlog.last().calls;
        &&& c.len() == (if en { 2int } else { 1 }) && (en ==> c[0] is Remote && c[0]->Remote_0) && c.last() is Status
        &&& c.last()->Status_0 is Ok ==> m.c & 0xefu8 == (c.last()->Status_0->Ok_0) & 0xefu8
    })
}
// the step after the service request: what was received, what was answered (m: the messages sent for it)
spec fn answer_ok(a: Snap, b: Snap, cfg: ServerConfig, pr: Protocol, i: Item, at: Seq<Msg>) -> bool {
    let m = b.sent.last();
    match i {
        Item::E(f, c) => nodev(a, b) && nolock(a, b) && b.clr == a.clr && kept(a, b, false, false) && !f && one(at, b.sent) && err_msg(m, i),
        Item::M(t, c, p, d) => match t {
            MessageType::FatalError | MessageType::Error => quiet(a, b) && b.sent == at,
            MessageType::AsyncLock => one(at, b.sent) && lock_ok(a, b, c, p, d, m),
            MessageType::AsyncRemoteLocalControl => one(at, b.sent) && rl_ok(a, b, c, m),
            MessageType::AsyncMaximumMessageSize => one(at, b.sent) && d.len() == 8 && {
                &&& nodev(a, b) && nolock(a, b) && b.clr == a.clr && b.bit == a.bit && kept(a, b, false, true)
                &&& b.sh.len() > a.sh.len() && b.sh.last().1.max_message_size as int == be(d)
                &&& m.t == 16 && m.d == enc_be(cfg.max_message_size as int, 8)
            },
            MessageType::AsyncDeviceClear => one(at, b.sent) && nodev(a, b) && nolock(a, b) && b.clr == a.clr + 1 && b.bit == a.bit && kept(a, b, false, false)
                && m.t == 23 && (m.c & 1u8 != 0) == cfg.prefer_overlap,
            MessageType::AsyncStatusQuery => one(at, b.sent) && status_ok(a, b, m),
            MessageType::AsyncLockInfo => {
                &&& one(at, b.sent) && nodev(a, b) && b.acq == a.acq && b.clr == a.clr && b.bit == a.bit && kept(a, b, false, false)
                &&& one(a.ops, b.ops) && b.ops.last().len() == 1 && b.ops.last()[0] is Info
                &&& m.t == 25 && m.c == (if b.ops.last()[0]->Info_0 { 1u8 } else { 0u8 }) && m.p == b.ops.last()[0]->Info_1
            },
            MessageType::AsyncStartTLS | MessageType::AsyncEndTLS => quiet(a, b) && one(at, b.sent) && pr.0 < 0x200 && m.t == 3,
            _ => quiet(a, b) && one(at, b.sent) && m.t == 3,
        },
    }
}
// the function is proved once for each case of the message received next; together the cases are all messages
spec fn in_case(k: int, i: Item) -> bool {
    if k == 0 { i is E || i->M_0 is FatalError || i->M_0 is Error || i->M_0 is VendorSpecific } else {
        i is M && match i->M_0 {
            MessageType::AsyncLock => k == 1,
            MessageType::AsyncRemoteLocalControl => k == 2,
            MessageType::AsyncMaximumMessageSize => k == 3,
            MessageType::AsyncStatusQuery => k == 4,
            MessageType::AsyncLockInfo => k == 5,
            MessageType::AsyncDeviceClear => k == 8,
            MessageType::AsyncStartTLS | MessageType::AsyncEndTLS => k == 6,
            MessageType::FatalError | MessageType::Error | MessageType::VendorSpecific(_) => false,
            _ => k == 7,
        }
    }
}
proof fn lemma_cases(i: Item) ensures in_case(0, i) || in_case(1, i) || in_case(2, i) || in_case(3, i) || in_case(4, i) || in_case(5, i) || in_case(6, i) || in_case(7, i) || in_case(8, i) {}
spec fn quiet(a: Snap, b: Snap) -> bool { nodev(a, b) && nolock(a, b) && b.clr == a.clr && b.bit == a.bit && kept(a, b, false, false) }
// one turn of the loop: a status change may be announced, then at most one message is received and answered
// at: what was sent before that message was received
spec fn srq_ok(a: Snap, b: Snap, at: Seq<Msg>) -> bool {
    let before = if b.recv == a.recv { b.sent } else { at };
    &&& b.recv == a.recv || one(a.recv, b.recv)
    &&& if b.got == a.got { before == a.sent } else {
        one(a.got, b.got) && b.got.last() is Some && if a.bit { before == a.sent } else {
            one(a.sent, before) && before.last().t == 20 && before.last().c == b.got.last()->0 && before.last().p == 0 && before.last().d.len() == 0
        }
    }
}
// (opaque: what is known of the turn before does not burden the proof of the next one)
#[verifier::opaque]
spec fn turn(a: Snap, b: Snap, cfg: ServerConfig, pr: Protocol, at: Seq<Msg>) -> bool { srq_ok(a, b, at) && step_ok(a, b, cfg, pr, at) }
spec fn step_ok(a: Snap, b: Snap, cfg: ServerConfig, pr: Protocol, at: Seq<Msg>) -> bool {
    let a2 = Snap { bit: a.bit || b.got != a.got, ..a };
    if b.recv == a.recv { quiet(a2, b) } else { answer_ok(a2, b, cfg, pr, b.recv.last(), at) }
}
'''
LEM = r'''//RAW
mod vxl { use super::*; verus! {
pub(crate) broadcast proof fn lemma_turn(a: Snap, b: Snap, cfg: ServerConfig, pr: Protocol, at: Seq<Msg>) requires srq_ok(a, b, at), step_ok(a, b, cfg, pr, at) ensures #[trigger] turn(a, b, cfg, pr, at) { reveal(turn); }
pub(crate) broadcast proof fn lemma_all8(s: Seq<u8>) requires s.len() == 8 ensures #[trigger] s.take(8) == s { assert(s.take(8) =~= s); }
pub(crate) broadcast proof fn lemma_seq1(c: Call) ensures #[trigger] Seq::<Call>::empty().push(c) == seq![c] { assert(Seq::<Call>::empty().push(c) =~= seq![c]); }
pub(crate) broadcast proof fn lemma_status(s: u8, m: u8) requires m == 0 || m == 0x10 ensures #[trigger] (((s & 0xefu8) | m)) & 0xefu8 == s & 0xefu8 { assert(m == 0 || m == 0x10 ==> ((s & 0xefu8) | m) & 0xefu8 == s & 0xefu8) by(bit_vector); }
pub(crate) broadcast proof fn lemma_feat(a: u8) requires a <= 1 ensures #[trigger] ((a | 0u8)) == a { assert(a | 0u8 == a) by(bit_vector); }
pub(crate) broadcast proof fn lemma_bit1() ensures #[trigger] (1u8 & 1u8) == 1u8, 0u8 & 1u8 == 0u8 { assert(1u8 & 1u8 == 1u8) by(bit_vector); assert(0u8 & 1u8 == 0u8) by(bit_vector); }
pub(crate) broadcast group all { lemma_turn, lemma_all8, lemma_seq1, lemma_status, lemma_feat, lemma_bit1 }
} }
'''


CASES = [("FatalError", "Error", "VendorSpecific", "Err"), ("AsyncLock",), ("AsyncRemoteLocalControl",), ("AsyncMaximumMessageSize",), ("AsyncStatusQuery",), ("AsyncLockInfo",), ("AsyncStartTLS", "AsyncEndTLS", "_"), ("_",), ("AsyncDeviceClear",)]


def only(k):
    def rw(txt):
        """in the copy for one case, the arms for other message types are replaced by a call that requires false"""
        import rx
        f = rx.File("<only>", "fn x() " + txt)
        T = f.toks
        ed = []
        for i, t in enumerate(T):
            if t.t != "=>" or T[i + 1].t != "{":
                continue
            j = i - 1
            while T[j].t not in (",", "{", "}", ";"):
                j = f.m[j] - 1 if T[j].t in (")", "]") else j - 1
            if T[j].t == "}":
                if T[f.m[j] - 1].t != "Message":
                    continue
                names = re.findall(r"MessageType::(\w+)", rx.src_of(f, f.m[j], i))
            elif rx.src_of(f, j + 1, i).startswith("Err(err"):
                names = ["Err"] if "is_fatal" in rx.src_of(f, i + 1, f.m[i + 1]) else None
            else:
                continue
            if names and not set(names) & set(CASES[k]):
                ed.append((T[i + 1].s, T[f.m[i + 1]].e, "{ vx_stop(); }"))
        # the last arm of the match over messages
        for i, t in enumerate(T):
            if t.t == "_" and T[i + 1].t == "=>" and T[i + 2].t == "{" and "_" not in CASES[k]:
                j = i - 1
                if T[j].t == ",":
                    j -= 1
                if T[j].t == "}" and T[f.m[j] - 1].t == "=>" and T[f.m[j] - 2].k == "id" and "UnrecognizedMessageType" in rx.src_of(f, i + 2, f.m[i + 2]):
                    ed.append((T[i + 2].s, T[f.m[i + 2]].e, "{ vx_stop(); }"))
        return rx.apply(f.src, len("fn x() "), len(f.src), ed)
    return rw


def snap(st, se, rem, srq, bit):
    return f"Snap {{ recv: {st}.recv@, sent: {st}.sent@, got: {srq}.got@, hlog: {rem}.log@, acq: {rem}.acq@, ops: {se}.handle.log@, sh: {se}.shared.log@, clr: {se}.clear.n@, bit: {bit} }}"


TRUST = ["futures::future::select completes with the message or with the next status change", "RemoteLockHandle/LockHandle operations and their results are logged, one entry per critical section",
         "async_std::future::timeout runs async_acquire for at most the given time", "from_utf8, str::ends_with, str::trim_end_matches as documented for '\\0'", "Device methods do what the device does; they are logged with arguments and results"]


def build():
    fm = File("hislip/src/common/messages.rs")
    f = XFile("hislip/src/server/session/asynchronous.rs", ("send_fatal", "send_nonfatal"), extra=(fm,))
    R = Render("hasync")
    api = H.msg_api(R)
    for n in ("RequestLockControl", "ReleaseLockControl"):
        api += hmsg.enum(R, fm, n)
    im = fm.find("impl", header="impl From<SharedLockError>for RequestLockControl")
    m = [x for x in im.members if x.name == "from"][0]
    api += "impl RequestLockControl {\n" + Render("hasync").fn(m, Contract(hmsg.LOCK_FROM, external=True), "RequestLockControl::from") + "}\n"
    R.elsewhere["RequestLockControl::from"] = "hmsg"
    R.external.append("RequestLockControl::from")
    st = f.find("struct", "AsyncSession")
    s = R.clean(f, st.head, st.hi, [])
    s = re.sub(r"<DEV>\s*where\s*DEV:\s*Device,?", "", s, count=1)
    s = s.replace("Arc<SpinMutex<LockHandle<DEV>>>", "VxSpin").replace("Arc<Mutex<SharedSession>>", "VxShared").replace("Sender<()>", "VxClearTx")
    MARK, END = "final(stream).mark@", "STEP"
    RW = [break_to_return, (r"let \(mut rd, mut wr\) = stream\.split\(\);", ""), (r"Message::read_from\(&mut rd,\s*([^()]*?)\)\s*\.fuse\(\)", r"vx_read(\1)"), (r"&mut (rd|wr)\b", "stream", False),
          (r"pin_mut!\(\w+\);", "", False), (r"futures::future::select\((\w+),\s*(\w+)\.next\(\)\)\s*\.await", r"vx_select(stream, \1, \2)"), (r"\bread_msg\s*\.await", "read_msg.run(stream)"),
          (r"let (?:mut )?remote = RemoteLockHandle::new\(([\w.]+)\.clone\(\)\);", r"let mut remote = VxRemote::new(&\1);"),
          (r"future::timeout\(\s*(.*?),\s*remote\s*\.async_acquire\((.*?)\),?\s*\)\s*\.await", r"vx_timeout(\1, &mut remote, \2)", False),
          combinators, (r"Err\(err\) => err\.into\(\)", "Err(err) => RequestLockControl::from(err)", False), (r"\.message_params\((\w+)\.into\(\)", r".message_params(\1 as u8", False),
          (r"self\.shared\.lock\(\)(?:\s*\.await)?\s*\.(\w+)\s*=\s*([^;]+);", r"{ let vx_g = self.shared.lock(); vx_g.\1 = \2; }", False),
          (r"(\w+)\.to_vec\(\)", r"vx_arr8(&\1)", False), (r"NetworkEndian::write_u64\(&mut (\w+),", r"vx_write8(&mut \1,", False),
          (r"protocol (>=|<|>|<=|==) (PROTOCOL_\w+)", r"protocol.0 \1 \2.0", False)] + hsync.RW
    NOW = snap("stream", "self", "remote", "srq", "srq_bit")
    C = {
        "new": Contract("ensures /*P12*/ r.handle == handle && r.shared == shared && r.clear == clear && r.config == config && r.id == id",
                        sig=[(r"Arc<SpinMutex<LockHandle<DEV>>>", "VxSpin"), (r"Arc<Mutex<SharedSession>>", "VxShared"), (r"Sender<\(\)>", "VxClearTx")]),
        "handle_session": Contract(f"""requires !old(stream).dead@, !old(stream).eof@, old(stream).limit@ == old(self).config.max_message_size
            ensures r is Err,
            /*P12*/ final(stream).dead@ || final(stream).eof@ || ended_ok(final(stream).mark@, final(stream).sent@, final(stream).recv@, final(srq).got@, protocol, final(stream).at@)""",
                                   sig=[(r"\bself(?=,)", "&mut self"), (r"<S, SRQ>", ""), (r"stream: S\b", "stream: &mut VxStream"), (r"mut srq: SRQ\b", "srq: &mut VxSrq"), (r"(?s)where\s+S:.*$", "")],
                                   rw=RW, pre="broadcast use vxl::all; let ghost mut vx_first = true;", attrs="#[verifier::exec_allows_no_decreases_clause]",
                                   loops=[("loop", f"""invariant !stream.dead@, !stream.eof@, self.config == old(self).config, self.id == old(self).id, stream.limit@ == self.config.max_message_size, stream.case@ == VXCASE,
                /*P12*/ vx_first ==> !srq_bit,
                /*VXLABEL*/ vx_first || turn(stream.mark@, {NOW}, self.config, protocol, stream.at@)""", "",
                                           f"broadcast use vxl::all; proof {{ vx_first = false; stream.mark@ = {NOW}; stream.at@ = stream.sent@; }}")]),
    }
    im = f.impls(lambda h: h.startswith("impl<DEV>AsyncSession<DEV>"))
    if not im:
        raise Lost("impl AsyncSession")
    body = []
    for m in im[0].members:
        if m.kind == "fn" and m.name == "handle_session":
            import copy
            for k in range(len(CASES)):
                c = copy.copy(C[m.name])
                c.spec = c.spec.replace("requires ", f"requires old(stream).case@ == {k}, ", 1)
                c.loops = [(a, b.replace('VXCASE', str(k)).replace('VXLABEL', 'P12, P11' if k == 8 else 'P12'), x, y) for a, b, x, y in c.loops]
                c.rw = c.rw[:1] + [only(k)] + c.rw[1:]
                t = R.fn(m, c, f"AsyncSession::{m.name} [case {k}]")
                body.append(re.sub(r"\bfn handle_session\b", f"fn handle_session_{k}", t, count=1))
        elif m.kind == "fn":
            body.append(R.fn(m, C.get(m.name), "AsyncSession::" + m.name))
    sess = hsync.sess().replace("mark: Ghost<Snap>,", "mark: Ghost<Snap>, at: Ghost<Seq<Msg>>, case: Ghost<int>,").replace("final(self).mark == old(self).mark,", "final(self).mark == old(self).mark, final(self).at == old(self).at, final(self).case == old(self).case,").replace("final(s).mark == old(s).mark,", "final(s).mark == old(s).mark, final(s).at == old(s).at, final(s).case == old(s).case,")
    dev = hsync.DEVICE.replace("struct Acq { wait: bool, key: Seq<u8>, ok: bool }", "struct Acq { ms: Option<int>, key: Seq<u8>, r: Result<(), SharedLockError> }") \
        .replace("Remote(bool, bool)", "Remote(bool, Result<(), DeviceError>)").replace("Call::Remote(b, r is Ok)", "Call::Remote(b, r)")
    return Group("hasync", wrap(H.IO, H.tables(), H.BYTES, H.BYTEORDER, sess, dev, REMOTE, PRELUDE, SPEC, ENDED, LEM, api, s, hsync.shared_items(R), "impl AsyncSession {\n" + "\n".join(body) + "}\n"), R,
                 trusted=TRUST + H.SESSION_TRUST, exact=("execute", "trigger", "get_status", "set_remote", "set_local_lockout", "inner_lock", "async_lock", "try_lock", "can_lock") + H.BITS, default_props=["P12"], panic_props=["P23"])


ENDED = r'''
// the last turn, when the session ends by itself: a fatal message closes it
spec fn ended_ok(a: Snap, sent: Seq<Msg>, recv: Seq<Item>, got: Seq<Option<u8>>, pr: Protocol, at: Seq<Msg>) -> bool {
    one(at, sent) && sent.last().t == 2 && if recv == a.recv { at == a.sent && one(a.got, got) && got.last() is None } else {
            one(a.recv, recv) && match recv.last() {
                Item::E(f, c) => f && fatal_msg(sent.last(), c),
                Item::M(t, _, _, d) => (t is AsyncMaximumMessageSize && d.len() != 8) || ((t is AsyncStartTLS || t is AsyncEndTLS) && pr.0 >= 0x200),
            }
        }
}
'''
