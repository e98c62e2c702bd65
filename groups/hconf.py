"""hislip: what a server is configured with (P07, P08, P12), and what a new session starts with (P08, P10, P11, P12)."""
import re
from rx import File, Render, Contract, Lost
from vx import Group
from common import wrap

ITEMS = r'''
// ---- trusted stand-ins -----------------------------------------------------------------------------------------------------
// an Arc, by its allocation
struct VxArc { id: Ghost<int> }
// (lock, device) by sub-address
struct DeviceMap { m: Ghost<Map<Seq<char>, (int, int)>> }
impl DeviceMap {
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.m@ == Map::<Seq<char>, (int, int)>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.m@ == Map::<Seq<char>, (int, int)>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, s: String, x: (VxArc, VxArc)) -> (r: Option<(VxArc, VxArc)>) ensures final(self).m@ == old(self).m@.insert(s@, (x.0.id@, x.1.id@)) { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self.m@ == Map::<Seq<char>, (int, int)>::empty()) { unimplemented!() }
}
// see the group registry
struct VxInner { max: Ghost<int> }
struct InnerServer;
impl InnerServer {
    #[verifier::external_body]
    fn new(max_num_sessions: usize) -> (r: VxInner) ensures r.max@ == max_num_sessions { unimplemented!() }
}
// a panic that the documentation announces
fn vx_check(b: bool) requires b {}
// async_std's bounded channel
struct Sender { id: Ghost<int>, cap: Ghost<int> }
struct Receiver { id: Ghost<int>, cap: Ghost<int> }
#[verifier::external_body]
fn bounded(n: usize) -> (r: (Sender, Receiver)) requires n > 0 ensures r.0.id == r.1.id, r.0.cap@ == n { unimplemented!() }
impl Sender {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.id == self.id, r.cap == self.cap { unimplemented!() }
}
impl Receiver {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.id == self.id, r.cap == self.cap { unimplemented!() }
}
'''
TRUST = ["HashMap: insert, is_empty as documented", "async_std::channel::bounded connects its two ends", "the number of bits of Protocol (bitfield!)"]
REG = "r.m@ == "


def build():
    f = File("hislip/src/server/mod.rs")
    fs = File("hislip/src/server/session/mod.rs")
    fc = File("hislip/src/common/mod.rs")
    R = Render("hconf")
    out = []
    ty = [(r"\bDeviceMap<DEV>", "DeviceMap"), (r"<DEV>", ""), (r"\bArc<Mutex<InnerServer>>", "VxInner"), (r"\bArc<(?:Mutex<DEV>|SpinMutex<SharedLock>)>", "VxArc"), (r"\(Sender<\(\)>,\s*Receiver<\(\)>\)", "(Sender, Receiver)"), (r"(?s)\bwhere\b[^{]*", "")]

    def struct(g, kind, n):
        it = g.find(kind, n)
        t = R.clean(g, it.head, it.hi, [])
        for a, b in ty:
            t = re.sub(a, b, t)
        out.append(t)
    for n in ("ServerConfig", "ServerBuilder", "Server"):
        struct(f, "struct", n)
    for n in ("SessionMode", "SessionState"):
        struct(fs, "enum", n)
    struct(fs, "struct", "SharedSession")
    sig = [(r"\bArc<(?:Mutex<DEV>|SpinMutex<SharedLock>)>", "VxArc", False), (r"\bDeviceMap<DEV>", "DeviceMap", False), (r"\bArc<Server<DEV>>", "Server", False), (r"\bArc<Self>", "Self", False),
           (r"\b(Sender|Receiver)<\(\)>", r"\1", False)]
    rw = [(r"\bHashMap::", "DeviceMap::", False), (r"\bArc::new\(", "(", False), (r"\bchannel::bounded\(", "bounded(", False), (r"\bdevices: Default::default\(\)", "devices: DeviceMap::default()", False),
          (r"\bconfig: Default::default\(\)", "config: ServerConfig::default()", False), (r"\bassert!\((.*?),\s*\"[^\"]*\"\s*,?\s*\)", r"vx_check(\1)", False), (r"\bassert!\(", "vx_check(", False)]
    K = lambda spec: Contract(spec, sig=sig, rw=rw)
    EMPTY = "Map::<Seq<char>, (int, int)>::empty()"
    C = {
        "ServerConfig": {
            "vendor_id": K("ensures /*P08*/ r == (ServerConfig { vendor_id, ..self })\n"),
            "max_message_size": K("ensures /*P12*/ r == (ServerConfig { max_message_size, ..self })\n"),
            "short_idn": K("ensures /*P09*/ r.short_idn is Some && (r.short_idn->0)@ == short_idn@, /*P09*/ r == (ServerConfig { short_idn: r.short_idn, ..self })\n"),
            "max_num_sessions": K("ensures /*P07*/ r == (ServerConfig { max_num_sessions, ..self })\n"),
            "prefer_overlap": K("ensures /*P08*/ r == (ServerConfig { prefer_overlap: true, ..self })\n"),
            "prefer_synchronized": K("ensures /*P08*/ r == (ServerConfig { prefer_overlap: false, ..self })\n"),
            "default": K("ensures /*P07*/ r.max_num_sessions > 0, /*P09*/ r.short_idn is None\n"),
        },
        "ServerBuilder": {
            "default": K(f"ensures /*P08*/ r.devices.m@ == {EMPTY}\n"),
            "new": K(f"ensures /*P08*/ r.devices.m@ == {EMPTY}, /*P07,P08,P12*/ r.config == config\n"),
            "new_with_device": K(f"ensures /*P08*/ r.devices.m@ == {EMPTY}.insert(subaddr@, (shared_lock.id@, dev.id@)), /*P07,P08,P12*/ r.config == config\n"),
            "device": K("ensures /*P08*/ r.devices.m@ == self.devices.m@.insert(subaddr@, (shared_lock.id@, dev.id@)), /*P07,P08,P12*/ r.config == self.config\n"),
            "build": K(f"requires self.devices.m@ != {EMPTY} ensures /*P08*/ r.devices == self.devices, /*P07,P08,P12*/ r.config == self.config, /*P07*/ r.inner.max@ == self.config.max_num_sessions\n"),
        },
        "Server": {
            "new": K("ensures /*P08*/ r.devices == devices, /*P07*/ r.inner.max@ == r.config.max_num_sessions, r.config.max_num_sessions > 0\n"),
            "with_config": K("ensures /*P08*/ r.devices == devices, /*P07,P08,P12*/ r.config == config, /*P07*/ r.inner.max@ == config.max_num_sessions\n"),
        },
        "SharedSession": {
            "new": K("ensures /*P08*/ r.protocol == protocol, /*P08*/ r.state is Handshake, /*P10*/ r.max_message_size == 256, /*P12*/ r.enable_remote, /*P11*/ r.clear.0.id == r.clear.1.id && r.clear.0.cap@ >= 1\n"),
            "state": K("ensures /*P08*/ r == self.state\n"),
            "is_initialized": K("ensures /*P08*/ r == (self.state is Normal)\n"),
            "protocol": K("ensures /*P08*/ r == self.protocol\n"),
            "set_state": K("ensures /*P08*/ *final(self) == (SharedSession { state, ..*old(self) })\n"),
            "get_clear_receiver": K("ensures /*P11*/ r.id == self.clear.1.id\n"),
            "get_clear_sender": K("ensures /*P11*/ r.id == self.clear.0.id\n"),
        },
    }
    src = {"SharedSession": fs}
    other = {"Server": ("accept", "handle_session")}
    for n, cs in C.items():
        g = src.get(n, f)
        body = []
        left = dict(cs)
        for i in g.items:
            if i.kind == "impl" and not i.is_test() and re.match(r"impl(<DEV>)?(\w+for)?%s(<DEV>)?$" % n, i.header.split("where")[0].replace(" ", "")):
                for m in i.members:
                    if m.kind == "fn" and m.name not in other.get(n, ()):
                        body.append(R.fn(m, left.pop(m.name, None), f"{n}::{m.name}"))
        for q in left:
            R.flag(f"{n}::{q} is gone")
        t = f"impl {n} {{\n" + "\n".join(body) + "}\n"
        out.append(t)
    # u16 <-> Protocol
    im = [i for i in fc.items if i.kind == "impl" and re.match(r"implFrom<(u16|Protocol)>for", i.header.replace(" ", ""))]
    for i in im:
        h = i.header.replace(" ", "")
        pr = "From<u16>::Protocol" if "<u16>" in h else "From<Protocol>::u16"
        hd = "impl From<u16> for Protocol" if "<u16>" in h else "impl From<Protocol> for u16"
        out.append(hd + " {\n" + R.fn(i.members[0], Contract(""), pr) + "}\n")
    if len(im) != 2:
        raise Lost("the conversions between Protocol and u16")
    raw = ("""//RAW
#[derive(Clone, Copy)]
pub struct Protocol(pub u16);
impl vstd::std_specs::convert::FromSpecImpl<u16> for Protocol { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: u16) -> Self { Protocol(x) } }
impl vstd::std_specs::convert::FromSpecImpl<Protocol> for u16 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(p: Protocol) -> Self { p.0 } }
""")
    txt = "\n".join(out)
    txt = re.sub(r"\benum (SessionMode|SessionState)\b", r"#[derive(Clone, Copy)]\nenum \1", txt)
    return Group("hconf", wrap(ITEMS, raw, txt), R, trusted=TRUST, default_props=["P08"], panic_props=["P08"])
