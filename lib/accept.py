"""What the accept loops have in common: the listener's chain of adapters and the spawned tasks."""
import re
from rx import File, Lost
import rx

ITEMS = r'''
// ---- trusted stand-ins: listening sockets ---------------------------------------------------------------------------------
// the listener has stopped for good / could not be set up
uninterp spec fn vx_ended(l: TcpListener) -> bool;
uninterp spec fn vx_no_bind() -> bool;
uninterp spec fn vx_no_local() -> bool;
struct VxPeer;
struct VxToken;
struct TcpListener { at: Ghost<int> }
struct VxIncoming { l: Ghost<TcpListener> }
struct VxOk { l: Ghost<TcpListener> }
struct VxTok { l: Ghost<TcpListener> }
struct VxRd;
struct VxWr;
struct TcpStream { x: u8 }
struct Duration { ms: u64 }
impl Duration { fn from_millis(n: u64) -> (r: Duration) { Duration { ms: n } } fn from_secs(n: u64) -> (r: Duration) { Duration { ms: n } } }
spec fn stopped(l: TcpListener) -> bool { vx_ended(l) }
impl TcpListener {
    #[verifier::external_body]
    fn local_addr(&self) -> (r: Result<VxPeer, Error>) ensures r is Err ==> vx_no_local() { unimplemented!() }
    #[verifier::external_body]
    fn incoming(self) -> (r: VxIncoming) ensures r.l@ == self { unimplemented!() }
}
// errors of single connections, and every other error after a pause
impl VxIncoming {
    #[verifier::external_body]
    fn handle_errors(self, d: Duration) -> (r: VxOk) ensures r.l == self.l { unimplemented!() }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Result<TcpStream, Error>>) ensures final(self).l == old(self).l, r is None ==> vx_ended(old(self).l@) { unimplemented!() }
}
impl VxOk {
    #[verifier::external_body]
    fn backpressure(self, n: usize) -> (r: VxTok) ensures r.l == self.l { unimplemented!() }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<TcpStream>) ensures final(self).l == old(self).l, r is None ==> vx_ended(old(self).l@) { unimplemented!() }
}
impl VxTok {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(VxToken, TcpStream)>) ensures final(self).l == old(self).l, r is None ==> vx_ended(old(self).l@) { unimplemented!() }
}
impl TcpStream {
    // the client may be gone already
    #[verifier::external_body]
    fn peer_addr(&self) -> (r: Result<VxPeer, Error>) { unimplemented!() }
    #[verifier::external_body]
    fn set_nodelay(&self, b: bool) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body]
    fn split(self) -> (r: (VxRd, VxWr)) { unimplemented!() }
}
'''
TRUST = ["async-listen: handle_errors passes over failed connections and waits on other errors, and its stream ends only with the listener", "a spawned task runs on its own: it neither ends nor delays the loop that spawned it",
         "a socket call on a connection may fail at any time (TcpStream::peer_addr, set_nodelay)"]
NOAWAIT = (r"\s*\.await\b", "", False)


def drop_call(name):
    """X.name(..) -> X"""
    def rw(txt):
        while True:
            f = File("<drop>", "fn x() " + txt)
            T = f.toks
            for i in range(len(T) - 2):
                if T[i].t == "." and T[i + 1].t == name and T[i + 2].t == "(":
                    txt = f.src[len("fn x() "):T[i].s] + f.src[T[f.m[i + 2]].e:]
                    break
            else:
                return txt
    rw.__doc__ = f"the adapter .{name}(..) only logs"
    return rw


def tasks(serve, end):
    """spawn(async move { B }) -> { B }, run to its end at once: what the task does is verified here, when it does it is not"""
    def rw(txt):
        f = File("<task>", "fn x() " + txt)
        T = f.toks
        for i in range(len(T) - 6):
            if T[i].t in ("spawn", "spawn_local", "spawn_ok") and T[i + 1].t == "(" and T[i + 2].t == "async":
                lo = i
                while T[lo - 1].t in ("::", ".") and T[lo - 2].k == "id":
                    lo -= 2
                b = i + 3 if T[i + 3].t == "{" else i + 4
                body = rx.src_of(f, b + 1, f.m[b])
                if re.search(r"\breturn\b|\?\s*[;,)]", body):
                    raise Lost("the spawned task leaves early")
                waits = [T[k].t for k in range(f.m[i + 1] + 1, f.m[i + 1] + 3)] == [".", "await"]   # the loop waits for the task
                for s in () if waits else serve:
                    body = re.sub(r"\." + s + r"\(", ".vx_" + s + "(", body)
                e = "" if waits else end(body)
                return f.src[len("fn x() "):T[lo].s] + "{ " + body + (";" if not body.rstrip().endswith((";", "}")) else "") + "\n" + e + " }" + f.src[T[f.m[i + 1]].e:]
        for i in range(len(T) - 4):   # no task: the loop itself runs the block
            b = i + 1 if T[i + 1].t == "{" else i + 2
            if T[i].t == "async" and T[b].t == "{" and [T[k].t for k in range(f.m[b] + 1, f.m[b] + 3)] == [".", "await"]:
                body = rx.src_of(f, b + 1, f.m[b])
                if re.search(r"\breturn\b|\?\s*[;,)]", body):
                    raise Lost("the task leaves early")
                return f.src[len("fn x() "):T[i].s] + "{ " + body + " }" + f.src[T[f.m[b] + 2].e:]
        return txt
    rw.__doc__ = "the spawned task is verified as if it ran at once"
    return rw
