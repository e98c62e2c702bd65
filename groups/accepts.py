"""hislip, raw socket, telnet: P27 the accept loops."""
import re
from rx import File, Render, Contract, Lost
from vx import Group
from common import wrap
import rx
import accept as A
import setup as S

ITEMS = r'''
struct VxAddrs;
struct VxArc { id: Ghost<int> }
impl VxArc {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl VxPeer {
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) { unimplemented!() }
}
impl TcpListener {
    #[verifier::external_body]
    fn bind(a: VxAddrs) -> (r: Result<TcpListener, Error>) ensures r is Err ==> vx_no_bind() { unimplemented!() }
}
struct UnixListener;
impl UnixListener {
    #[verifier::external_body]
    fn bind(a: VxAddrs) -> (r: Result<TcpListener, Error>) ensures r is Err ==> vx_no_bind() { unimplemented!() }
}
struct VxSpawner;
struct VxReceiver;
struct StatusSender { id: Ghost<int> }
impl StatusSender {
    #[verifier::external_body]
    fn get_new_receiver(&mut self) -> (r: VxReceiver) { unimplemented!() }
}
enum ErrorKind { ConnectionRefused, ConnectionAborted, ConnectionReset, WouldBlock, TimedOut, Interrupted, NotConnected, BrokenPipe, InvalidInput, Other }
impl Error {
    #[verifier::external_body]
    fn kind(&self) -> (r: ErrorKind) { unimplemented!() }
}
#[verifier::external_body]
fn vx_sleep(d: Duration) { unimplemented!() }
struct VxLimit { limit: usize }
struct HislipServer { x: u8 }
struct RawServer(VxLimit);
struct TelnetServer(VxLimit);
impl HislipServer {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    fn vx_handle_session(&self, peer: String, stream: TcpStream, t: VxReceiver) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body]
    fn handle_session(&self, peer: String, stream: TcpStream, t: VxReceiver) -> (r: Result<(), Error>) requires /*P27*/ false { unimplemented!() }
}
impl RawServer {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    fn vx_process_client(&self, rd: VxRd, wr: VxWr, l: VxArc, d: VxArc, peer: VxPeer) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body]
    fn process_client(&self, rd: VxRd, wr: VxWr, l: VxArc, d: VxArc, peer: VxPeer) -> (r: Result<(), Error>) requires /*P27*/ false { unimplemented!() }
}
impl TelnetServer {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    fn vx_process_client(&self, stream: TcpStream, l: VxArc, d: VxArc, peer: VxPeer) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body]
    fn process_client(&self, stream: TcpStream, l: VxArc, d: VxArc, peer: VxPeer) -> (r: Result<(), Error>) requires /*P27*/ false { unimplemented!() }
}
'''
SPEC = "ensures /*P27*/ r is Ok ==> exists|l: TcpListener| #[trigger] vx_ended(l), /*P27*/ r is Err ==> vx_no_bind() || vx_no_local()\n"


def plain(name):
    def end(body):
        if ".vx_" + name + "(" not in body:
            raise Lost("the task that serves a connection")
        return ""
    return end


def one(R, path, owner, serve, fns, header):
    f = File(path)
    sig = [(r"self\s*:\s*Arc<Self>", "&self"), (r"(?:io::)?Result<\(\),\s*io::Error>|io::Result<\(\)>", "Result<(), Error>"), (r"impl ToSocketAddrs|impl AsRef<Path>", "VxAddrs"),
           (r"Arc<(?:Mutex<DEV>|SpinMutex<SharedLock>)>", "VxArc", False), (r"<(?:DEV|P)>\s*\(", "(", False), (r"\bP\b", "VxSpawner", False), (r"(?s)\bwhere\b.*$", "", False)]
    rw = [A.drop_call("log_warnings"), (r"\blet (\w+) = (\w+)\.spawn\(async", r"let \1 = \2.spawn(async", False), A.tasks((serve,), plain(serve)), A.NOAWAIT,
          (r"(?:async_std::)?\btask::sleep\(", "vx_sleep(", False), (r"\b(?:std::)?io::ErrorKind\b", "ErrorKind", False), (r"\bs\.clone\(\)\.", "s.", False),
          (r"\blet (?:mut )?incoming\b", "let ghost vx_l = listener;\n let mut incoming", False), (r"\blet ((?!incoming|mut|ghost)\w+) = (\w+)\.get_new_receiver", r"let \1 = \2.get_new_receiver", False)]
    at = "#[verifier::exec_allows_no_decreases_clause]"
    C = {n: Contract(SPEC, sig=sig, rw=rw, loops=S.LOOP, attrs=at, pre="broadcast use vx_question;") for n in fns}
    body = []
    for i in f.items:
        if i.kind == "impl" and not i.is_test() and re.match(header, i.header):
            for m in i.members:
                if m.kind == "fn" and m.name in C:
                    t = R.fn(m, C.pop(m.name), f"{owner}::{m.name}")
                    body.append(re.sub(r"\basync fn\b", "fn", t))
    if C:
        raise Lost(f"{owner}: {', '.join(C)}")
    return f"impl {owner} {{\n" + "\n".join(body) + "}\n"


def build():
    R = Render("accepts")
    out = [one(R, "hislip/src/server/mod.rs", "HislipServer", "handle_session", ["accept"], r"impl<DEV>\s*Server<DEV>"),
           one(R, "raw/src/server/mod.rs", "RawServer", "process_client", ["accept", "accept_unix"], r"impl Server$"),
           one(R, "telnet/src/server/mod.rs", "TelnetServer", "process_client", ["accept"], r"impl Server$")]
    return Group("accepts", wrap(S.ERR, A.ITEMS, ITEMS, "\n".join(out)), R, trusted=A.TRUST + ["the stream of a listener's connections ends only with the listener"], exact=("break",), default_props=["P27"], panic_props=["P27"])
