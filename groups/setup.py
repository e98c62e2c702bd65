"""vxi11: P27 the accept loops, P25 what a server listens on and what a session starts with."""
import re
from rx import File, Render, Contract, Lost
from vx import Group
from common import wrap
import rx
import hislip as H
import onc
import accept as A
import core

ITEMS = r'''
struct IpAddr { v: Ghost<int> }
spec fn sock(a: IpAddr, port: u16) -> int { vx_sock(a.v@, port) }
uninterp spec fn vx_sock(a: int, port: u16) -> int;
impl TcpListener {
    #[verifier::external_body]
    fn bind(a: (IpAddr, u16)) -> (r: Result<TcpListener, Error>) ensures r is Ok ==> r->Ok_0.at@ == sock(a.0, a.1), r is Err ==> vx_no_bind() { unimplemented!() }
}
struct VxInner { id: Ghost<int> }
impl VxInner {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
struct Link;
struct VxiSrqClient;
struct HashMap<K, V> { m: Ghost<Map<K, V>> }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.m@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.m@ == Map::<K, V>::empty() { unimplemented!() }
}
// hist: what happened to the session that holds it: 1 its connection was served, 2 its links were ended (group core)
struct Mutex<T> { v: T, hist: Ghost<Seq<int>> }
impl<T> Mutex<T> { fn new(v: T) -> (r: Self) ensures r.v == v, r.hist@ == Seq::<int>::empty() { Mutex { v, hist: Ghost(Seq::empty()) } } }
'''
SPEC = r'''
// what the session of a connection starts with, and that it ends properly
spec fn session(o: VxiCoreServer, s: VxiCoreSession) -> bool {
    s.inner == o.inner && s.async_port == o.async_port && s.max_recv_size == o.max_recv_size
}
impl VxiCoreSession {
    #[verifier::external_body]
    fn vx_serve_tcp_stream(&mut self, s: TcpStream) -> (r: Result<(), Error>)
        requires /*P16,P25*/ old(self).links.v.m@ == Map::<u32, Link>::empty(), /*P26*/ old(self).srq.v is None, old(self).links.hist@.len() == 0
        ensures final(self).inner == old(self).inner, final(self).async_port == old(self).async_port, final(self).max_recv_size == old(self).max_recv_size, final(self).links.hist@ == seq![1int] { unimplemented!() }
    // serving a client in the loop keeps the next one waiting
    #[verifier::external_body]
    fn serve_tcp_stream(&mut self, s: TcpStream) -> (r: Result<(), Error>) requires /*P27*/ false { unimplemented!() }
    #[verifier::external_body]
    fn close_links(&mut self)
        ensures final(self).inner == old(self).inner, final(self).async_port == old(self).async_port, final(self).max_recv_size == old(self).max_recv_size, final(self).links.hist@ == old(self).links.hist@.push(2) { unimplemented!() }
}
'''
PLAIN = r'''
impl %s {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    fn vx_serve_tcp_stream(&mut self, s: TcpStream) -> (r: Result<(), Error>) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    fn serve_tcp_stream(&mut self, s: TcpStream) -> (r: Result<(), Error>) requires /*P27*/ false { unimplemented!() }
}
'''
LOOP = [("while", "invariant_except_break incoming.l@ == vx_l\n            ensures /*P27*/ vx_ended(vx_l)\n", "")]
SERVE = "ensures /*P27*/ r is Ok ==> vx_ended(listener), /*P27*/ r is Err ==> vx_no_local()\n"
BIND = "ensures /*P25*/ r is Ok ==> exists|l: TcpListener| #[trigger] vx_ended(l) && l.at@ == sock(addrs, self.{p}), /*P27*/ r is Err ==> vx_no_bind() || vx_no_local()\n"


def server(R, path, name, serve, bind, end, header):
    f = File(path)
    out = []
    im = [i for i in f.items if i.kind == "impl" and not i.is_test() and re.match(header, i.header)]
    C = {}
    sig = [(r"self\s*:\s*Arc<Self>", "&self"), (r"io::Result<\(\)>", "Result<(), Error>")]
    rw = [A.drop_call("log_warnings"), A.tasks(("serve_tcp_stream",), end), A.NOAWAIT, (r"\blet s\b", "let mut s", False), (r"\bArc::new\(", "(", False),
          (r"\bs\.clone\(\)\.", "s.", False), (r"\blet (?:mut )?incoming\b", "let ghost vx_l = listener;\n let mut incoming", False)]
    at = "#[verifier::exec_allows_no_decreases_clause]"
    C[serve] = Contract(SERVE, sig=sig, rw=rw, loops=LOOP, attrs=at, pre="broadcast use vx_question;")
    if bind:
        C["bind"] = Contract(BIND.format(p=bind), sig=sig, rw=[A.NOAWAIT], pre="broadcast use vx_question;")
    body = []
    for i in im:
        for m in i.members:
            if m.kind == "fn" and m.name in C:
                t = R.fn(m, C.pop(m.name), f"{name}::{m.name}")
                body.append(re.sub(r"\basync fn\b", "fn", t))
    if C:
        raise Lost(f"{name}: {', '.join(C)}")
    return f"impl {name} {{\n" + "\n".join(body) + "}\n"


PMAP = r'''
struct VxAddrs { v: Ghost<int> }
impl VxAddrs {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
// the socket has stopped for good / an operation on it failed
uninterp spec fn vx_uended(u: UdpSocket) -> bool;
uninterp spec fn vx_ufailed(u: UdpSocket) -> bool;
struct UdpSocket { at: Ghost<int> }
impl UdpSocket {
    #[verifier::external_body]
    fn bind(a: VxAddrs) -> (r: Result<UdpSocket, Error>) ensures r is Ok ==> r->Ok_0.at@ == a.v@, r is Err ==> vx_no_bind() { unimplemented!() }
    #[verifier::external_body]
    fn local_addr(&self) -> (r: Result<VxPeer, Error>) ensures r is Err ==> vx_no_local() { unimplemented!() }
}
#[verifier::external_body]
fn vx_bind_tcp(a: VxAddrs) -> (r: Result<TcpListener, Error>) ensures r is Ok ==> r->Ok_0.at@ == a.v@, r is Err ==> vx_no_bind() { unimplemented!() }
// what has not been run yet: serving a socket
struct VxUdpTask { u: Ghost<UdpSocket> }
struct VxTcpTask { l: Ghost<TcpListener> }
impl StaticPortMap {
    #[verifier::external_body]
    fn vx_later_udp(&self, u: UdpSocket) -> (r: VxUdpTask) ensures r.u@ == u { unimplemented!() }
    #[verifier::external_body]
    fn vx_later_tcp(&self, l: TcpListener) -> (r: VxTcpTask) ensures r.l@ == l { unimplemented!() }
    // group rpc
    #[verifier::external_body]
    fn serve_udp_socket(&self, u: UdpSocket) -> (r: Result<(), Error>) ensures r is Ok ==> vx_uended(u), r is Err ==> vx_ufailed(u) { unimplemented!() }
}
// futures::try_join!: both at a time, up to the first error (contracts of serve_udp and serve_tcp)
trait VxTask { spec fn ok(&self) -> bool; spec fn err(&self) -> bool; }
impl VxTask for VxUdpTask { spec fn ok(&self) -> bool { vx_uended(self.u@) } spec fn err(&self) -> bool { vx_no_local() || vx_ufailed(self.u@) } }
impl VxTask for VxTcpTask { spec fn ok(&self) -> bool { vx_ended(self.l@) } spec fn err(&self) -> bool { vx_no_local() } }
#[verifier::external_body]
fn vx_try_join<A: VxTask, B: VxTask>(a: A, b: B) -> (r: Result<((), ()), Error>) ensures r is Ok ==> a.ok() && b.ok(), r is Err ==> a.err() || b.err() { unimplemented!() }
'''


def pmap_bind(R):
    """bind and serve_udp of the port mapper: both sockets are at the given address and both are served"""
    f = File("vxi11/src/server/portmapper.rs")
    sig = [(r"self\s*:\s*Arc<Self>", "&self"), (r"io::Result<\(\)>", "Result<(), Error>"), (r"impl ToSocketAddrs(\s*\+\s*Clone)?", "VxAddrs", False)]
    at = "#[verifier::exec_allows_no_decreases_clause]"
    C = {"bind": Contract("ensures /*P19*/ r is Ok ==> exists|l: TcpListener, u: UdpSocket| #![trigger vx_ended(l), vx_uended(u)] vx_ended(l) && vx_uended(u) && l.at == addrs.v && u.at == addrs.v, /*P27*/ r is Err ==> vx_no_bind() || vx_no_local() || exists|u: UdpSocket| #[trigger] vx_ufailed(u)\n",
                          sig=sig, attrs=at, pre="broadcast use vx_question;",
                          rw=[A.NOAWAIT, (r"\bTcpListener::bind\(", "vx_bind_tcp(", False), (r"\.clone\(\)\s*\.\s*serve_(udp|tcp)\(", r".vx_later_\1(", False), (r"\bself\.serve_(udp|tcp)\(", r"self.vx_later_\1(", False),
                              (r"\b(?:futures::)?try_join!\(", "vx_try_join(", False), (r"\.map\(\|_\|\s*\(\)\)", ".vx_unit()", False)]),
         "serve_udp": Contract("ensures /*P19*/ r is Ok ==> vx_uended(socket), /*P27*/ r is Err ==> vx_no_local() || vx_ufailed(socket)\n", sig=sig, attrs=at, pre="broadcast use vx_question;", rw=[A.NOAWAIT])}
    body = []
    for i in f.items:
        if i.kind == "impl" and not i.is_test() and re.match(r"impl<const N:\s*usize>\s*StaticPortMap<N>", i.header):
            for m in i.members:
                if m.kind == "fn" and m.name in C:
                    t = R.fn(m, C.pop(m.name), f"StaticPortMap::{m.name}")
                    body.append(re.sub(r"\basync fn\b", "fn", t))
    if C:
        raise Lost(f"StaticPortMap: {', '.join(C)}")
    return "trait VxUnit { fn vx_unit(self) -> (r: Result<(), Error>); }\nimpl VxUnit for Result<((), ()), Error> { fn vx_unit(self) -> (r: Result<(), Error>) ensures r is Ok == self is Ok, r is Err ==> self is Err { match self { Ok(_) => Ok(()), Err(e) => Err(e) } } }\nimpl StaticPortMap {\n" + "\n".join(body) + "}\n"


def core_end(body):
    m = re.search(r"(\w+)(?:\.clone\(\))?\s*\.vx_serve_tcp_stream\(", body)
    if not m:
        raise Lost("the task that serves a connection")
    return f"proof {{ /*P25*/ assert(session(*self, {m[1]}));\n/*P16*/ assert({m[1]}.links.hist@ =~= seq![1int, 2]); }}"


def plain_end(body):
    if ".vx_serve_tcp_stream(" not in body:
        raise Lost("the task that serves a connection")
    return ""


def build():
    R = Render("setup")
    out = []
    f, fa, fp = File(core.CORE), File(core.ABORT), File("vxi11/src/server/portmapper.rs")
    ts = []
    for g, n in ((f, "VxiCoreServer"), (f, "VxiCoreSession"), (fa, "VxiAsyncServer")):
        s = g.find("struct", n)
        t = re.sub(r"<DEV>", "", R.clean(g, s.head, s.hi, []))
        for a, b in ((r"Arc<Mutex<VxiInner>>", "VxInner"), (r"Arc<Mutex<Option<VxiSrqClient>>>", "Mutex<Option<VxiSrqClient>>"), (r"\bpeer:\s*SocketAddr\s*,", "peer: VxPeer,")):
            t = re.sub(a, b, t)
        ts.append(t)
    out.append(server(R, core.CORE, "VxiCoreServer", "serve", "core_port", core_end, r"impl<DEV>\s*VxiCoreServer<DEV>"))
    out.append(server(R, core.ABORT, "VxiAsyncServer", "serve", "async_port", plain_end, r"impl<DEV>\s*VxiAsyncServer<DEV>"))
    out.append(server(R, "vxi11/src/server/portmapper.rs", "StaticPortMap", "serve_tcp", None, plain_end, r"impl<const N:\s*usize>\s*StaticPortMap<N>"))
    out.append(PMAP + pmap_bind(R))
    txt = "\n".join(ts + [PLAIN % "VxiAsyncServer", "struct StaticPortMap { x: u8 }", PLAIN % "StaticPortMap"] + out)
    return Group("setup", wrap(ERR, A.ITEMS, ITEMS, SPEC, txt), R, trusted=A.TRUST + ["TcpListener::bind listens at the address it is given"], exact=("break",), default_props=["P27"], panic_props=["P27"])


ERR = r'''
struct Error { kind: u8 }
// `?` converts the error with From::from
broadcast axiom fn vx_question<T, S: vstd::std_specs::convert::FromSpec<T>>(e: T, r: S) ensures #[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(e, r) && S::obeys_from_spec() ==> r == S::from_spec(e);
'''
