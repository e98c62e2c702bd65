"""vxi11: P20 the RPC clients."""
import re
from rx import File, Render, Contract, Lost
from vx import Group
from common import wrap
import rx
import hislip as H
import onc
import record
import rpc

SPEC = r'''
spec fn no_auth(a: OpaqueAuth) -> bool { a.flavour is None && a.body.0@.len() == 0 }
spec fn call_msg(m: RpcMessage, xid: u32, prog: u32, vers: u32, proc: u32) -> bool {
    &&& m.xid == xid && m.mtype is Call
    &&& m.mtype->Call_0.rpc_vers == 2 && m.mtype->Call_0.prog == prog && m.mtype->Call_0.vers == vers && m.mtype->Call_0.proc == proc
    &&& no_auth(m.mtype->Call_0.cred) && no_auth(m.mtype->Call_0.verf)
}
// x: one call message with the encoded arguments
spec fn request<A: XdrEncode>(x: Seq<u8>, xid: u32, prog: u32, vers: u32, proc: u32, a: A) -> bool { exists|m: RpcMessage| call_msg(m, xid, prog, vers, proc) && x == a.put(#[trigger] m.put(Seq::empty())) }
// what a reply means to the one who called
spec fn meaning<R: XdrDecode>(xid: u32, p: RpcMessage, rest: Seq<u8>, r: Result<R, RpcError>) -> bool {
    if p.xid != xid { r is Err && r->Err_0 is Io } else {
        match p.mtype {
            MsgType::Call(_) => r is Err && r->Err_0 is Io,
            MsgType::Reply(b) => match b.stat {
                ReplyStat::Accepted(a) => match a.stat {
                    AcceptStat::Success => match R::rest(rest) { Some(_) => r is Ok && R::val(rest, &r->Ok_0), None => r is Err && r->Err_0 is Io },
                    AcceptStat::ProgUnavail => r is Err && r->Err_0 is ProgUnavail,
                    AcceptStat::ProgMissmatch(m) => r is Err && r->Err_0 is ProgMissmatch && r->Err_0->ProgMissmatch_0 == m,
                    AcceptStat::ProcUnavail => r is Err && r->Err_0 is ProcUnavail,
                    AcceptStat::GarbageArgs => r is Err && r->Err_0 is GarbageArgs,
                    AcceptStat::SystemErr => r is Err && r->Err_0 is SystemErr,
                },
                ReplyStat::Denied(d) => match d.stat {
                    RejectStat::RpcMissmatch(m) => r is Err && r->Err_0 is RpcMissmatch && r->Err_0->RpcMissmatch_0 == m,
                    RejectStat::AuthError(e) => r is Err && r->Err_0 is AuthError && r->Err_0->AuthError_0 == e,
                },
            },
        }
    }
}
spec fn result<R: XdrDecode>(xid: u32, d: Seq<u8>, r: Result<R, RpcError>) -> bool {
    match RpcMessage::rest(d) { None => r is Err && r->Err_0 is Io, Some(rest) => exists|p: RpcMessage| #[trigger] RpcMessage::val(d, &p) && meaning(xid, p, rest, r) }
}
spec fn one_more<T>(o: Seq<T>, n: Seq<T>) -> bool { n.len() == o.len() + 1 && n == o.push(n.last()) }
// done: the transport did not fail, or there is a result nevertheless
spec fn udp_sent<A: XdrEncode>(o: UdpRpcClient, n: UdpRpcClient, proc: u32, a: A, done: bool) -> bool {
    &&& n.xid != o.xid && n.prog == o.prog && n.vers == o.vers
    &&& done || n.socket.io_ok@ ==> one_more(o.socket.put@, n.socket.put@) && request(n.socket.put@.last(), n.xid, n.prog, n.vers, proc, a)
    &&& one_more(o.socket.put@, n.socket.put@) || n.socket.put == o.socket.put
}
spec fn udp_call<A: XdrEncode, R: XdrDecode>(o: UdpRpcClient, n: UdpRpcClient, proc: u32, a: A, r: Result<R, RpcError>) -> bool {
    &&& udp_sent(o, n, proc, a, r is Ok)
    &&& r is Ok || n.socket.io_ok@ ==> one_more(o.socket.got@, n.socket.got@) && result(n.xid, n.socket.got@.last(), r)
}
spec fn udp_cast<A: XdrEncode>(o: UdpRpcClient, n: UdpRpcClient, proc: u32, a: A, r: Result<(), RpcError>) -> bool { udp_sent(o, n, proc, a, r is Ok) && (n.socket.io_ok@ ==> r is Ok) && n.socket.got == o.socket.got }
spec fn tcp_sent<A: XdrEncode>(o: StreamRpcClient<TcpStream>, n: StreamRpcClient<TcpStream>, proc: u32, a: A, done: bool) -> bool {
    &&& n.xid != o.xid && n.prog == o.prog && n.vers == o.vers
    &&& done || (o.io.io_ok() && n.io.io_ok()) ==> exists|x: Seq<u8>| request(x, n.xid, n.prog, n.vers, proc, a) && n.io.sent() == o.io.sent() + #[trigger] sent_record(x)
}
spec fn tcp_call<A: XdrEncode, R: XdrDecode>(o: StreamRpcClient<TcpStream>, n: StreamRpcClient<TcpStream>, proc: u32, a: A, r: Result<R, RpcError>) -> bool {
    &&& tcp_sent(o, n, proc, a, r is Ok)
    &&& r is Ok || (o.io.io_ok() && n.io.io_ok()) ==> tcp_got(o, n, r)
}
spec fn tcp_got<R: XdrDecode>(o: StreamRpcClient<TcpStream>, n: StreamRpcClient<TcpStream>, r: Result<R, RpcError>) -> bool {
    (one_more(o.io.marks@, n.io.marks@) && record(o.io.rem(), Seq::empty(), n.io.marks@.last(), n.io.rem()) && result(n.xid, n.io.marks@.last(), r))
        || (r is Err && r->Err_0 is Io && (cut(o.io.rem()) || large(o.io.rem(), 0, 1048576) || vx_oom()))
}
spec fn tcp_cast<A: XdrEncode>(o: StreamRpcClient<TcpStream>, n: StreamRpcClient<TcpStream>, proc: u32, a: A, r: Result<(), RpcError>) -> bool { tcp_sent(o, n, proc, a, r is Ok) && (o.io.io_ok() && n.io.io_ok() ==> r is Ok) && n.io.rem() == o.io.rem() }
spec fn rpc_call<A: XdrEncode, R: XdrDecode>(o: RpcClient, n: RpcClient, proc: u32, a: A, r: Result<R, RpcError>) -> bool {
    match (o, n) { (RpcClient::Udp(x), RpcClient::Udp(y)) => udp_call(x, y, proc, a, r), (RpcClient::Tcp(x), RpcClient::Tcp(y)) => tcp_call(x, y, proc, a, r), _ => false }
}
spec fn rpc_cast<A: XdrEncode>(o: RpcClient, n: RpcClient, proc: u32, a: A, r: Result<(), RpcError>) -> bool {
    match (o, n) { (RpcClient::Udp(x), RpcClient::Udp(y)) => udp_cast(x, y, proc, a, r), (RpcClient::Tcp(x), RpcClient::Tcp(y)) => tcp_cast(x, y, proc, a, r), _ => false }
}
broadcast proof fn l_enc(v: int, n: nat) ensures (#[trigger] enc_be(v, n)).len() == n decreases n { if n > 0 { l_enc(v / 256, (n - 1) as nat); } }
spec fn small<A: XdrEncode>(a: A) -> bool { a.fits() && a.pre(Seq::empty()).len() < 0x7fff_0000 }
broadcast proof fn l_small<A: XdrEncode>(a: A, o: Seq<u8>) requires small(a), o.len() < 0x1_0000 ensures #[trigger] a.put(o).len() < 0x8000_0000 {
    a.lemma_put(o, Seq::empty()); assert((a.put(o) + Seq::<u8>::empty()).len() == (o + a.pre(Seq::empty())).len());
}
'''
INNER = r'''
// a client of one program at one address
spec fn reaches(c: RpcClient, udp: bool, prog: u32, vers: u32, addr: int) -> bool {
    match c { RpcClient::Udp(x) => udp && x.prog == prog && x.vers == vers && x.socket.any@ && x.socket.peer@ == addr, RpcClient::Tcp(x) => !udp && x.prog == prog && x.vers == vers && x.io.peer@ == addr }
}
// the result of an indirect call is the one that the port mapper passes on
spec fn inner<T: XdrDecode>(x: Result<CallResult, RpcError>, r: Result<T, RpcError>) -> bool {
    match x { Err(e) => r is Err && r->Err_0 == e, Ok(c) => match T::rest(c.res.0@) { Some(_) => r is Ok && T::val(c.res.0@, &r->Ok_0), None => r is Err && r->Err_0 is Io } }
}
'''
UDP = r'''
// a connected datagram socket: got and put are the datagrams received and sent
// any: it may use every interface of the host (a socket bound to one address reaches only what is reachable from there)
struct UdpSocket { got: Ghost<Seq<Seq<u8>>>, put: Ghost<Seq<Seq<u8>>>, io_ok: Ghost<bool>, any: Ghost<bool>, peer: Ghost<int> }
struct Ipv4Addr { n: u32 }
impl Ipv4Addr {
    const UNSPECIFIED: Ipv4Addr = Ipv4Addr { n: 0 };
    const LOCALHOST: Ipv4Addr = Ipv4Addr { n: 0x7f000001 };
    #[verifier::external_body]
    fn from(n: u32) -> (r: Self) ensures r.n == n { unimplemented!() }
}
// an address: what it stands for, and whether it is the unspecified one with any port
uninterp spec fn addr4(n: u32, port: u16) -> int;
uninterp spec fn addr_text(s: Seq<char>) -> int;
uninterp spec fn text_any(s: Seq<char>) -> bool;
broadcast axiom fn ax_text_any(s: &str) ensures #[trigger] text_any(s@) == (s@ == "0.0.0.0:0"@ || s@ == "[::]:0"@);
trait ToSocketAddrs: Sized { spec fn addr(&self) -> int; spec fn any(&self) -> bool; }
impl ToSocketAddrs for (Ipv4Addr, u16) { spec fn addr(&self) -> int { addr4(self.0.n, self.1) } spec fn any(&self) -> bool { self.0.n == 0 && self.1 == 0 } }
impl ToSocketAddrs for &str { spec fn addr(&self) -> int { addr_text(self@) } spec fn any(&self) -> bool { text_any(self@) } }
impl TcpStream {
    #[verifier::external_body]
    async fn connect<A: ToSocketAddrs>(a: A) -> (r: Result<TcpStream, Error>) ensures r is Ok ==> r->Ok_0.peer@ == a.addr() { unimplemented!() }
}
impl UdpSocket {
    #[verifier::external_body]
    async fn bind<A: ToSocketAddrs>(a: A) -> (r: Result<UdpSocket, Error>) ensures r is Ok ==> r->Ok_0.any@ == a.any() { unimplemented!() }
    #[verifier::external_body]
    async fn connect<A: ToSocketAddrs>(&mut self, a: A) -> (r: Result<(), Error>) ensures final(self).any == old(self).any, r is Ok ==> final(self).peer@ == a.addr() { unimplemented!() }
    #[verifier::external_body]
    async fn send(&mut self, buf: &Vec<u8>) -> (r: Result<usize, Error>)
        ensures final(self).got == old(self).got, r is Ok ==> final(self).put@ == old(self).put@.push(buf@) && final(self).io_ok == old(self).io_ok, r is Err ==> !final(self).io_ok@ && final(self).put == old(self).put { unimplemented!() }
    #[verifier::external_body]
    async fn recv(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, Error>)
        ensures final(buf)@.len() == old(buf)@.len(), final(self).put == old(self).put, r is Err ==> !final(self).io_ok@ && final(self).got == old(self).got,
            r is Ok ==> r->Ok_0 <= final(buf)@.len() && final(self).got@ == old(self).got@.push(final(buf)@.take(r->Ok_0 as int)) && final(self).io_ok == old(self).io_ok { unimplemented!() }
}
'''
TRUST = ["a connected UdpSocket and a TcpStream deliver and send exactly what they report, and a failed one reports it", "call arguments are shorter than 2^31 - 64 KiB bytes"]
REQ = "requires small({a})"


# connect changes the stand-in
LETMUT = (r"\blet (\w+) = UdpSocket::", r"let mut \1 = UdpSocket::", False)


def build():
    f = File(rpc.SRC)
    R = Render("client")
    pre = onc.prelude(R)
    pre.append(rpc.error(R, f, verify=False))
    net = rpc.NET[:rpc.NET.index("// datagrams:")].replace("marks: Ghost<Seq<Seq<u8>>> }", "marks: Ghost<Seq<Seq<u8>>>, peer: Ghost<int> }")
    spec = "// ---- contracts proved in group record ----" + rpc.RECORD.replace("push(final(reader).rem())", "push(r->Ok_0@)")     # marks: the records that were received
    out = []
    fx = File(onc.FILES["rpc"])
    im = rpc.impl_fns(fx, r"impl RpcMessage$")
    out.append("impl RpcMessage {\n" + "\n".join(R.fn(m, Contract("ensures /*P20*/ call_msg(r, xid, prog, vers, proc), r.fits(), r.put(Seq::empty()).len() == 40\n", pre="broadcast use {vxl::all, l_enc}; proof { lemma_pow(); }") if m.name == "call" else None, f"RpcMessage::{m.name}") for m in im.members if m.kind == "fn") + "}\n")
    rw = [(r"\bxdr::", "", False), (r"\bio::Cursor\b", "Cursor", False)]
    sig = [(r"\bWR: Write\b", "WR: VxNone")]
    pb = "broadcast use {vxl::all, vx_question, l_small};"
    after = [(r"(\bargs\.write_xdr\(&mut (\w+)\)\?;)", r"\1", False)]

    def members(header, C, head, q):
        im = [i for i in f.items if i.kind == "impl" and not i.is_test() and re.match(header, i.header)]
        if not im:
            raise Lost(header)
        for i in im:
            ms = [m for m in i.members if m.kind == "fn"]
            out.append(head + " {\n" + "\n".join(R.fn(m, C.get(m.name), f"{q}::{m.name}") for m in ms) + "}\n")
            for m in ms:
                C.pop(m.name, None)
        if C:
            raise Lost(f"{q}: {', '.join(C)}")

    def calls(call, cast, o="*old(self)", n="*final(self)"):
        return {"call": Contract(f"requires small(args) ensures /*P20*/ {call}({o}, {n}, proc, args, r)\n", rw=rw, pre=pb),
                "call_no_reply": Contract(f"requires small(args) ensures /*P20*/ {cast}({o}, {n}, proc, args, r)\n", rw=rw, pre=pb),
                "null": Contract(f"ensures /*P20*/ {call}({o}, {n}, 0u32, (), r)\n", pre=pb),
                "null_no_reply": Contract(f"ensures /*P20*/ {cast}({o}, {n}, 0u32, (), r)\n", pre=pb)}
    for k in ("UdpRpcClient", "StreamRpcClient"):
        s = f.find("struct", k)
        out.append(R.clean(f, s.head, s.hi, []))
    en = f.find("enum", "RpcClient")
    out.append(R.clean(f, en.head, en.hi, []))
    new = "ensures /*P20*/ r.prog == prog && r.vers == vers, r.{s} == {s}\n"
    members(r"impl UdpRpcClient$", {**calls("udp_call", "udp_cast"), "new": Contract(new.format(s="socket"))}, "impl UdpRpcClient", "UdpRpcClient")
    members(r"impl<IO>\s*StreamRpcClient<IO>", {**calls("tcp_call", "tcp_cast"), "new": Contract(new.format(s="io"), rw=[(r"\bio: IO\b", "io: TcpStream", False)], sig=[(r"\bIO\b", "TcpStream")])}, "impl StreamRpcClient<TcpStream>", "StreamRpcClient")
    members(r"impl RpcClient$", calls("rpc_call", "rpc_cast"), "impl RpcClient", "RpcClient")
    fp = File("vxi11/src/client/portmapper.rs")
    fm = File("vxi11/src/common/portmapper/mod.rs")
    for it in fm.items:
        if it.kind == "const":
            out.append(R.clean(fm, it.head, it.hi, []))
    s = fp.find("struct", "PortMapperClient")
    out.append(R.clean(fp, s.head, s.hi, []))
    fx = File(onc.FILES["pmap"])
    im = rpc.impl_fns(fx, r"impl Mapping$")
    out.append("impl Mapping {\n" + R.fn(im.members[0], Contract("ensures /*P19,P20*/ r.prog == prog && r.vers == vers && r.prot == prot && r.port == port\n"), "Mapping::new") + "}\n")
    im = rpc.impl_fns(fp, r"impl PortMapperClient$")
    pb = "broadcast use {vxl::all, vx_question, l_enc};"
    one = lambda n, a: Contract(f"ensures /*P20*/ rpc_call(old(self).0, final(self).0, {n}u32, {a}, r)\n", pre=pb)
    C = {"null": one(0, "()"), "set": one(1, "mapping"), "unset": one(2, "mapping"), "getport": one(3, "mapping"),
         "register": Contract("ensures /*P20*/ exists|m: RpcClient, p: u32, b: Result<bool, RpcError>| #[trigger] rpc_call(m, final(self).0, p, mapping, b) && (p == 1 || p == 2) && (r is Ok <==> p == 1 && b is Ok && b->Ok_0)\n", pre=pb),
         "callit": Contract("requires args.fits(), args.pre(Seq::empty()).len() < 0x7ff0_0000\n    ensures /*P20*/ exists|c: Callit, x: Result<CallResult, RpcError>| c.prog == prog && c.vers == vers && c.proc == proc && c.args.0@ == args.put(Seq::empty()) && #[trigger] rpc_call(old(self).0, final(self).0, 5u32, c, x) && inner(x, r)\n", rw=rw, pre=pb + " proof { args.lemma_put(Seq::empty(), Seq::empty()); }")}
    for nm, udp in (("connect_tcp", "false"), ("connect_udp", "true")):
        C[nm] = Contract(f"ensures /*P20*/ r is Ok ==> reaches(r->Ok_0.0, {udp}, 100000, 2, addrs.addr())\n", rw=[LETMUT], sig=[(r"io::Result<Self>", "Result<Self, Error>")], pre=pb + " broadcast use ax_text_any;")
    body = [R.fn(m, C[m.name], f"PortMapperClient::{m.name}") for m in im.members if m.kind == "fn" and m.name in C]
    if len(body) != len(C):
        raise Lost("PortMapperClient")
    out.append("impl PortMapperClient {\n" + "\n".join(body) + "}\n")
    fv = File("vxi11/src/common/vxi11/mod.rs")
    for it in fv.items:
        if it.kind == "const":
            out.append(R.clean(fv, it.head, it.hi, []))
    fi = File("vxi11/src/server/vxi11/intr_client.rs")
    s = fi.find("struct", "VxiSrqClient")
    out.append(R.clean(fi, s.head, s.hi, []))
    fx = File(onc.FILES["vxi11"])
    im = rpc.impl_fns(fx, r"impl DeviceSrqParms$")
    out.append("impl DeviceSrqParms {\n" + R.fn(im.members[0], Contract("ensures /*P20*/ r.handle == handle\n"), "DeviceSrqParms::new") + "}\n")
    im = [i for i in fi.items if i.kind == "impl" and [m.name for m in i.members if m.name == "device_intr_srq"]]
    if len(im) != 1:
        raise Lost("VxiSrqClient::device_intr_srq")
    im2 = [i for i in fi.items if i.kind == "impl" and [m.name for m in i.members if m.name == "new"]]
    if len(im2) != 1:
        raise Lost("VxiSrqClient::new")
    m = [m for m in im2[0].members if m.name == "new"][0]
    out.append("impl VxiSrqClient {\n" + R.fn(m, Contract("ensures /*P26*/ r is Ok ==> reaches(r->Ok_0.client, udp, prog_num, prog_vers, addr4(host_addr, host_port))\n", rw=rw + [LETMUT], sig=[(r"io::Result<Self>", "Result<Self, Error>")], pre=pb + " broadcast use ax_text_any;"), "VxiSrqClient::new") + "}\n")
    m = [m for m in im[0].members if m.name == "device_intr_srq"][0]
    out.append("impl VxiSrqClient {\n" + R.fn(m, Contract("requires handle@.len() < 0x7fff_0000 - 8\n    ensures /*P20,P26*/ exists|a: DeviceSrqParms| a.handle.0@ == handle@ && #[trigger] rpc_cast(old(self).client, final(self).client, 30u32, a, r)\n", rw=rw, pre=pb), "VxiSrqClient::device_intr_srq") + "}\n")
    txt = "\n".join(out)
    return Group("client", wrap(*pre, net, UDP, re.sub(r"spec fn (record|cut|large)\(", r"#[verifier::opaque]\nspec fn \1(", record.FRAG), spec, SPEC, INNER, txt, broadcast=("vxl::all",)), R,
                 exact=("kind",), trusted=[onc.CURSOR_TRUST] + TRUST, default_props=["P20"], panic_props=["P20"])
