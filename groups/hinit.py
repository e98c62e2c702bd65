"""hislip/src/server/mod.rs handle_session: P08 initialization."""
import ast
import re
from rx import File, XFile, Render, Contract, Lost, break_to_return
from vx import Group
from common import wrap
import hislip as H
import hmsg

PRELUDE = r'''
// ---- trusted stand-ins ---------------------------------------------------------------------------------------------
// a session that a connection was handed over to
enum Sub { Sync { id: u16, sid: int, did: int, rdid: int, proto: Protocol, proto2: Protocol, clr: int, vendor: u16, overlap: bool },
           Async { id: u16, sid: int, did: int, proto: Protocol, clr: int, slog: Seq<(SharedSession, SharedSession)>, vendor: u16 } }
fn min(a: Protocol, b: Protocol) -> (r: Protocol) ensures r.0 == (if a.0 <= b.0 { a.0 } else { b.0 }) { if a.0 <= b.0 { a } else { b } }
fn max(a: Protocol, b: Protocol) -> (r: Protocol) ensures r.0 == (if a.0 <= b.0 { b.0 } else { a.0 }) { if a.0 <= b.0 { b } else { a } }
// String as its bytes
struct VxStr { b: Ghost<Seq<u8>> }
impl VxStr {
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self.b@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.b@.len() { unimplemented!() }
}
uninterp spec fn utf8(s: Seq<u8>) -> bool;
#[verifier::external_body]
fn vx_utf8(v: Vec<u8>) -> (r: Result<VxStr, ()>) ensures r is Ok <==> utf8(v@), r is Ok ==> r->Ok_0.b@ == v@ { unimplemented!() }
#[verifier::external_body]
fn vx_default() -> (r: VxStr) ensures r.b@ == default_subaddr() { unimplemented!() }
spec fn subaddr(d: Seq<u8>) -> Seq<u8> { if d.len() == 0 { default_subaddr() } else { d } }
// Arc of a device or of its lock
struct VxArc { id: Ghost<int> }
impl VxArc {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.id == self.id { unimplemented!() }
}
struct LockHandle { lock: Ghost<int>, dev: Ghost<int> }
impl LockHandle {
    #[verifier::external_body]
    fn new(parent: VxArc, device: VxArc) -> (r: Self) ensures r.lock == parent.id, r.dev == device.id { unimplemented!() }
}
// Arc<SpinMutex<LockHandle>>: the session's lock handle
struct VxHandle { id: Ghost<int> }
struct RemoteLockHandle { id: Ghost<int> }
impl RemoteLockHandle {
    #[verifier::external_body]
    fn new(h: VxHandle) -> (r: Self) ensures r.id == h.id { unimplemented!() }
}
struct Devices { m: Ghost<Map<Seq<u8>, (int, int)>> }
impl Devices {
    #[verifier::external_body]
    fn get(&self, s: &VxStr) -> (r: Option<&(VxArc, VxArc)>)
        ensures r is Some <==> self.m@.contains_key(s.b@), r is Some ==> ((*r->0).0.id@, (*r->0).1.id@) == self.m@[s.b@] { unimplemented!() }
}
struct VxClear { id: Ghost<int> }
// Arc<Mutex<SharedSession>>; `already`: whether the session has joined, the one time it is asked here
struct VxShared { id: Ghost<int>, already: Ghost<bool>, log: Ghost<Seq<(SharedSession, SharedSession)>> }
impl VxShared {
    #[verifier::external_body]
    fn lock(&mut self) -> (g: &mut SharedSession)
        ensures final(self).log@ == old(self).log@.push((*g, *final(g))), final(self).id == old(self).id, final(self).already == old(self).already,
            g.clear.id == old(self).id,
            old(self).log@.len() == 0 ==> (g.state is Normal) == old(self).already@ { unimplemented!() }
}
struct VxClears { id: Ghost<int> }
impl SharedSession {
    #[verifier::external_body]
    fn get_clear_receiver(&self) -> (r: VxClear) ensures r.id == self.clear.id { unimplemented!() }
    #[verifier::external_body]
    fn get_clear_sender(&self) -> (r: VxClear) ensures r.id == self.clear.id { unimplemented!() }
}
struct Looked { id: u16, found: bool, sid: int, did: int, already: bool }
struct Created { proto: Protocol, lock: int, dev: int, ok: bool, id: u16, sid: int, did: int, code: int }
struct InnerServer { created: Ghost<Seq<Created>>, looked: Ghost<Seq<Looked>> }
impl InnerServer {
    // see the group registry; an Err is a fatal error
    #[verifier::external_body]
    fn create_session(&mut self, protocol: Protocol, handle: LockHandle) -> (r: Result<(u16, VxShared, VxHandle), Error>)
        ensures final(self).looked == old(self).looked, r is Err ==> r->Err_0 is Fatal && r->Err_0->Fatal_0 is MaximumClientsExceeded,
            r is Ok ==> (r->Ok_0).1.log@.len() == 0,
            final(self).created@ == old(self).created@.push(Created { proto: protocol, lock: handle.lock@, dev: handle.dev@, ok: r is Ok,
                id: (r->Ok_0).0, sid: (r->Ok_0).1.id@, did: (r->Ok_0).2.id@, code: fatal_code(r->Err_0->Fatal_0) }) { unimplemented!() }
    #[verifier::external_body]
    fn get_session(&mut self, id: u16) -> (r: Option<(VxShared, VxHandle)>)
        ensures final(self).created == old(self).created, r is Some ==> (r->0).0.log@.len() == 0,
            final(self).looked@ == old(self).looked@.push(Looked { id, found: r is Some, sid: (r->0).0.id@, did: (r->0).1.id@, already: (r->0).0.already@ }) { unimplemented!() }
}
struct Mutex<T> { x: Ghost<Option<T>>, log: Ghost<Seq<(T, T)>> }
impl<T> Mutex<T> {
    #[verifier::external_body]
    fn lock(&mut self) -> (g: &mut T) ensures final(self).log@ == old(self).log@.push((*g, *final(g))) { unimplemented!() }
}
struct Server { inner: Mutex<InnerServer>, devices: Devices, config: ServerConfig }
impl Clone for ServerConfig {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[derive(Clone, Copy)]
struct Srq {}
struct SyncSession { id: Ghost<u16>, sid: Ghost<int>, did: Ghost<int>, clr: Ghost<int>, slog: Ghost<Seq<(SharedSession, SharedSession)>>, cfg: Ghost<ServerConfig> }
impl SyncSession {
    #[verifier::external_body]
    fn new(id: u16, config: ServerConfig, shared: VxShared, handle: RemoteLockHandle, receiver: VxClear) -> (r: Self)
        ensures r.id@ == id, r.sid == shared.id, r.did == handle.id, r.clr == receiver.id, r.cfg@ == config { unimplemented!() }
    #[verifier::external_body]
    async fn handle_session(self, s: &mut VxStream, peer: String, protocol: Protocol) -> (r: Result<(), io::Error>)
        ensures final(s).recv == old(s).recv, final(s).sent == old(s).sent, final(s).limit == old(s).limit, final(s).dead == old(s).dead, final(s).eof == old(s).eof,
            final(s).extra@ == old(s).extra@.push(Sub::Sync { id: self.id@, sid: self.sid@, did: self.did@, rdid: self.did@, proto: protocol, proto2: protocol, clr: self.clr@,
                vendor: self.cfg@.vendor_id, overlap: self.cfg@.prefer_overlap }) { unimplemented!() }
}
struct AsyncSession { id: Ghost<u16>, sid: Ghost<int>, did: Ghost<int>, clr: Ghost<int>, slog: Ghost<Seq<(SharedSession, SharedSession)>>, cfg: Ghost<ServerConfig> }
impl AsyncSession {
    #[verifier::external_body]
    fn new(id: u16, config: ServerConfig, shared: VxShared, handle: VxHandle, sender: VxClear) -> (r: Self)
        ensures r.id@ == id, r.sid == shared.id, r.did == handle.id, r.clr == sender.id, r.slog == shared.log, r.cfg@ == config { unimplemented!() }
    #[verifier::external_body]
    async fn handle_session(self, s: &mut VxStream, peer: String, srq: Srq, protocol: Protocol) -> (r: Result<(), io::Error>)
        ensures final(s).recv == old(s).recv, final(s).sent == old(s).sent, final(s).limit == old(s).limit, final(s).dead == old(s).dead, final(s).eof == old(s).eof,
            final(s).extra@ == old(s).extra@.push(Sub::Async { id: self.id@, sid: self.sid@, did: self.did@, proto: protocol, clr: self.clr@, slog: self.slog@, vendor: self.cfg@.vendor_id }) { unimplemented!() }
}
'''
SPEC = r'''
// ---- P08 ---------------------------------------------------------------------------------------------------------------
// items after which initialization goes on
spec fn goes_on(i: Item) -> bool { match i { Item::E(f, _) => !f, Item::M(t, _, _, _) => t is VendorSpecific || t is FatalError || t is Error } }
// how many messages answer them
spec fn n_replies(r: Seq<Item>) -> int decreases r.len() {
    if r.len() == 0 { 0 } else { n_replies(r.drop_last()) + (match r.last() { Item::E(_, _) => 1int, Item::M(t, _, _, _) => if t is VendorSpecific { 1int } else { 0 } }) }
}
// s answers r
spec fn waiting(r: Seq<Item>, s: Seq<Msg>) -> bool decreases r.len() {
    r.len() == 0 && s.len() == 0 || r.len() > 0 && goes_on(r.last()) && match r.last() {
        Item::E(_, c) => s.len() > 0 && err_msg(s.last(), r.last()) && waiting(r.drop_last(), s.drop_last()),
        Item::M(t, _, _, _) => if t is VendorSpecific { s.len() > 0 && error_msg(s.last(), 3) && waiting(r.drop_last(), s.drop_last()) } else { waiting(r.drop_last(), s) },
    }
}
struct Env { sent: Seq<Msg>, subs: Seq<Sub>, reg: Seq<(InnerServer, InnerServer)> }
spec fn refused(s: Seq<Msg>, subs: Seq<Sub>, code: int) -> bool { s.len() == 1 && fatal_msg(s[0], code) && subs.len() == 0 }
spec fn touched(reg: Seq<(InnerServer, InnerServer)>) -> bool { reg.len() == 1 }
// no session was created or looked up
spec fn untouched(reg: Seq<(InnerServer, InnerServer)>) -> bool { forall|i: int| 0 <= i < reg.len() ==> (#[trigger] reg[i]).0.created == reg[i].1.created }
spec fn ended(x: Item, s: Seq<Msg>, subs: Seq<Sub>, reg: Seq<(InnerServer, InnerServer)>, dv: Map<Seq<u8>, (int, int)>, cfg: ServerConfig) -> bool {
    match x {
        Item::E(f, _) => f && s.len() == 1 && err_msg(s[0], x) && subs.len() == 0 && untouched(reg),
        Item::M(t, c, p, d) => match t {
            MessageType::Initialize => {
                if !utf8(d) || !dv.contains_key(subaddr(d)) { refused(s, subs, 3) && untouched(reg) }
                else {
                    &&& reg.len() == 1 && reg[0].1.created@.len() == reg[0].0.created@.len() + 1
                    &&& { let k = reg[0].1.created@.last();
                        &&& k.lock == dv[subaddr(d)].0 && k.dev == dv[subaddr(d)].1
                        &&& k.proto.0 as int == (if p / 0x10000 <= 0x200 { (p / 0x10000) as int } else { 0x200 })
                        &&& if k.ok {
                            &&& s.len() == 1 && s[0] == (Msg { t: 1, c: if cfg.prefer_overlap { 1u8 } else { 0u8 }, p: (k.proto.0 * 0x10000 + k.id) as u32, d: Seq::empty() })
                            &&& subs.len() == 1 && subs[0] is Sync && subs[0]->Sync_id == k.id && subs[0]->Sync_sid == k.sid && subs[0]->Sync_did == k.did
                                && subs[0]->Sync_proto == k.proto && subs[0]->Sync_clr == k.sid
                        } else { refused(s, subs, k.code) }
                    }
                }
            },
            MessageType::AsyncInitialize => {
                &&& reg.len() == 1 && reg[0].1.looked@.len() == reg[0].0.looked@.len() + 1 && untouched(reg)
                &&& { let k = reg[0].1.looked@.last();
                    &&& k.id == p % 0x10000
                    &&& if k.found && !k.already {
                        &&& s.len() == 1 && s[0] == (Msg { t: 18, c: 0, p: cfg.vendor_id as u32, d: Seq::empty() })
                        &&& subs.len() == 1 && subs[0] is Async && subs[0]->Async_id == k.id && subs[0]->Async_sid == k.sid && subs[0]->Async_did == k.did && subs[0]->Async_clr == k.sid
                        &&& { let l = subs[0]->Async_slog; l.len() == 1 && l[0].0.state is Handshake && l[0].1.state is Normal && subs[0]->Async_proto == l[0].0.protocol }
                    } else { refused(s, subs, 3) }
                }
            },
            _ => !goes_on(x) && refused(s, subs, 3) && untouched(reg),
        },
    }
}
// what may be visible when the function returns
spec fn outcome(eof: bool, recv: Seq<Item>, sent: Seq<Msg>, subs: Seq<Sub>, reg: Seq<(InnerServer, InnerServer)>, dv: Map<Seq<u8>, (int, int)>, cfg: ServerConfig) -> bool {
    ||| eof && waiting(recv, sent) && subs.len() == 0 && untouched(reg)
    ||| recv.len() > 0 && exists|n: int| 0 <= n <= sent.len() && waiting(recv.drop_last(), #[trigger] sent.take(n)) && ended(recv.last(), sent.skip(n), subs, reg, dv, cfg)
}
'''
TRUST = ["String::from_utf8 succeeds exactly on valid UTF-8 and keeps the bytes", "futures Mutex: exclusive access for each critical section",
         "HashMap::get finds the entry with the key", "LockHandle::new and RemoteLockHandle::new keep the device and lock they are given",
         "SyncSession::new/AsyncSession::new store their arguments; the sessions' own messages are logged separately",
         "create_session/get_session are observed through a log (their contracts: group registry)"]


def shared_items(R):
    f = File("hislip/src/server/session/mod.rs")
    out = [hmsg.enum(R, f, "SessionMode"), hmsg.enum(R, f, "SessionState")]
    st = f.find("struct", "SharedSession")
    t = R.clean(f, st.head, st.hi, [])
    t = re.sub(r"clear:\s*\(Sender<\(\)>,\s*Receiver<\(\)>\)", "clear: VxClears", t)
    out.append(t)
    C = {
        "state": Contract("ensures r == self.state"),
        "is_initialized": Contract("ensures /*P08*/ r == (self.state is Normal)"),
        "protocol": Contract("ensures /*P08*/ r == self.protocol"),
        "set_state": Contract("requires /*P08*/ state is Normal && old(self).state is Handshake ensures /*P08*/ *final(self) == (SharedSession { state, ..*old(self) })"),
    }
    im = f.find("impl", header="impl SharedSession")
    b = [R.fn(m, C.get(m.name), "SharedSession::" + m.name) for m in im.members if m.kind == "fn" and m.name in C]
    out.append("impl SharedSession {\n" + "\n".join(b) + "}\n")
    return "\n".join(out)


def strconst(f, name):
    it = f.find("const", name)
    m = re.search(r'=\s*("(?:[^"\\]|\\.)*")', it.text())
    if not m:
        raise Lost("const " + name)
    return list(ast.literal_eval(m.group(1)).encode())


def build():
    fm = File("hislip/src/common/messages.rs")
    f = XFile("hislip/src/server/mod.rs", ("send_fatal", "send_nonfatal"), extra=(fm,))
    R = Render("hinit")
    api = H.msg_api(R)
    d = strconst(File("hislip/src/lib.rs"), "DEFAULT_DEVICE_SUBADRESS")
    consts = "spec fn default_subaddr() -> Seq<u8> { seq![" + ", ".join(f"{x}u8" for x in d) + "] }\n"
    consts += "proof fn lemma_default() ensures /*P08*/ default_subaddr() =~= seq![104u8, 105u8, 115u8, 108u8, 105u8, 112u8, 48u8] {}\n"
    cfg = f.find("struct", "ServerConfig")
    items = R.clean(f, cfg.head, cfg.hi, [])
    im = [x for x in f.items if x.kind == "impl" and re.match(r"impl<DEV>Server<DEV>", x.header)][0]
    m = [x for x in im.members if x.kind == "fn" and x.name == "handle_session"]
    if not m:
        raise Lost("Server::handle_session")
    OUT = "outcome(final(stream).eof@, final(stream).recv@, final(stream).sent@, final(stream).extra@, final(self).inner.log@, old(self).devices.m@, old(self).config)"
    c = Contract(f"""requires old(stream).recv@.len() == 0, old(stream).sent@.len() == 0, old(stream).extra@.len() == 0, old(self).inner.log@.len() == 0, !old(stream).dead@, !old(stream).eof@,
            old(stream).limit@ == old(self).config.max_message_size
        ensures /*P08*/ final(stream).dead@ || {OUT}""",
                 sig=[(r"&self\b", "&mut self"), (r"<S,\s*SRQ>", ""), (r"mut stream: S", "stream: &mut VxStream"), (r"srq: SRQ", "srq: Srq"), (r"(?s)where\s+S:.*$", "")],
                 loops=[("loop", """invariant !stream.dead@, self.inner.log@.len() == 0, stream.extra@.len() == 0, waiting(stream.recv@, stream.sent@), self.devices == old(self).devices, self.config == old(self).config,
                    stream.limit@ == self.config.max_message_size,""", "", "broadcast use vxl::vx_lemmas; let ghost vx_r = stream.recv@; let ghost vx_s = stream.sent@; proof { assert(vx_s.take(vx_s.len() as int) =~= vx_s); }")],
                 rw=[(r"\bdrop\(\w+\);", "", False), H.fmt_rw, (r"String::from_utf8\(", "vx_utf8(", False), (r"DEFAULT_DEVICE_SUBADRESS\s*\.\s*(?:to_string|to_owned|into)\(\)", "vx_default()", False),
                     (r"&mut stream\b", "stream", False), (r"\.lock\(\)\s*\.await", ".lock()", False), (r"session::(?:a?synchronous)::", "", False),
                     (r"peer\.(clone|to_string)\(\)", "vx_string()", False), break_to_return, H.mut_bind, (r"session\.clone\(\)", "session", False), vx_witness],
                 attrs="#[verifier::exec_allows_no_decreases_clause]", pre="proof { lemma_default(); }")
    body = R.fn(m[0], c, "Server::handle_session")
    return Group("hinit", wrap(H.IO, H.tables(), H.SESSION, PRELUDE, consts, SPEC, LEMMAS, EXTRA, api, items, shared_items(R), "impl Server {\n" + body + "}\n"), R,
                 exact=("kind",) + H.BITS, trusted=TRUST + H.SESSION_TRUST, default_props=["P08"], panic_props=["P08", "P23"])


def vx_witness(txt):
    """proof hints before each return"""
    return txt


LEMMAS = r'''//RAW
mod vxl { use super::*; verus! {
pub(crate) broadcast proof fn lemma_waiting_push(r: Seq<Item>, s: Seq<Msg>, i: Item)
    requires waiting(r, s), goes_on(i), !(i is E), !(i->M_0 is VendorSpecific)
    ensures #[trigger] waiting(r.push(i), s)
{
    assert(r.push(i).drop_last() =~= r);
}
pub(crate) broadcast proof fn lemma_waiting_push1(r: Seq<Item>, s: Seq<Msg>, i: Item, m: Msg)
    requires waiting(r, s), goes_on(i), (i is E && err_msg(m, i)) || (i is M && i->M_0 is VendorSpecific && error_msg(m, 3))
    ensures #[trigger] waiting(r.push(i), s.push(m))
{
    assert(r.push(i).drop_last() =~= r);
    assert(s.push(m).drop_last() =~= s);
}
pub(crate) broadcast proof fn lemma_outcome(eof: bool, r: Seq<Item>, i: Item, s: Seq<Msg>, m: Msg, subs: Seq<Sub>, reg: Seq<(InnerServer, InnerServer)>, dv: Map<Seq<u8>, (int, int)>, cfg: ServerConfig)
    requires waiting(r, s), ended(i, seq![m], subs, reg, dv, cfg)
    ensures #[trigger] outcome(eof, r.push(i), s.push(m), subs, reg, dv, cfg)
{
    let sent = s.push(m);
    let n = s.len() as int;
    assert(sent.take(n) =~= s);
    assert(sent.skip(n) =~= seq![m]);
    assert(r.push(i).drop_last() =~= r);
}
pub(crate) broadcast proof fn lemma_hi(p: u32) ensures (#[trigger] (p >> 16u32) & 0xffffu32) == p / 0x10000 { assert((p >> 16u32) & 0xffffu32 == p / 0x10000) by(bit_vector); }
pub(crate) broadcast proof fn lemma_lo(p: u32) ensures #[trigger] (p & 0xffffu32) == p % 0x10000 { assert(p & 0xffffu32 == p % 0x10000) by(bit_vector); }
pub(crate) broadcast proof fn lemma_or0(p: u8) ensures #[trigger] (p | 0u8) == p { assert(p | 0u8 == p) by(bit_vector); }
pub(crate) broadcast group vx_lemmas { lemma_or0, lemma_hi, lemma_lo, lemma_waiting_push, lemma_waiting_push1, lemma_outcome }
} }
'''
EXTRA = r'''
proof fn lemma_words(p: u32) by(bit_vector) ensures (p >> 16u32) & 0xffffu32 == p / 0x10000, p & 0xffffu32 == p % 0x10000, ((p >> 16u32) & 0xffffu32) as u16 == p / 0x10000,
   (p >> 0u32) & 0xffffu32 == p % 0x10000, (p & 0xffffu32) as u16 == p % 0x10000 {}
'''
