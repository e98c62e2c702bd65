"""vxi11: P15 the RPC dispatcher and its transports."""
import re
from rx import File, Render, Contract, Lost
from vx import Group
from common import wrap
import rx
import hislip as H
import onc
import record

SRC = "vxi11/src/common/onc_rpc/mod.rs"
CALLEE = """ensures final(self).calls@ == old(self).calls@.push(Call { prog: prog, vers: vers, proc: proc, args: old(args).rem(), res: r, out: final(ret).sent() }),
            r is Err ==> final(ret).sent() == old(ret).sent() && !(r->Err_0 is RpcMissmatch || r->Err_0 is AuthError || r->Err_0 is Portmap), final(self).log == old(self).log"""
SVC = r'''
// ---- the service: call is each program's own procedure table (groups portmap, vxi); what the dispatcher relies on and they have to give is
// that a refused call leaves no results and that it is not refused with an error that only the RPC layer can report
struct Call { prog: u32, vers: u32, proc: u32, args: Seq<u8>, res: Result<(), RpcError>, out: Seq<u8> }
struct Svc { calls: Ghost<Seq<Call>>, log: Ghost<Seq<(Seq<u8>, Result<Seq<u8>, Error>)>> }
impl Svc {
    #[verifier::external_body]
    async fn call(&mut self, prog: u32, vers: u32, proc: u32, args: &mut Cursor, ret: &mut Cursor) -> (r: Result<(), RpcError>)
        CALLEE { unimplemented!() }
}
'''.replace("CALLEE", CALLEE)
SPEC = r'''
// RFC 5531: what an acceptable call is and what the status of its reply has to be
spec fn no_auth(a: OpaqueAuth) -> bool { a.flavour is None }
spec fn accept(res: Result<(), RpcError>, st: AcceptStat) -> bool {
    match res {
        Ok(_) => st is Success,
        Err(RpcError::ProgUnavail) => st is ProgUnavail,
        Err(RpcError::ProgMissmatch(m)) => st is ProgMissmatch && st->ProgMissmatch_0 == m,
        Err(RpcError::ProcUnavail) => st is ProcUnavail,
        Err(RpcError::GarbageArgs) => st is GarbageArgs,
        Err(RpcError::Io(_)) => st is GarbageArgs,
        Err(_) => st is SystemErr,
    }
}
// m: the call, rest: what follows it (the arguments), p: the reply, out: what follows that (the results)
spec fn answer(c0: Seq<Call>, c1: Seq<Call>, m: RpcMessage, rest: Seq<u8>, p: RpcMessage, out: Seq<u8>) -> bool {
    let b = m.mtype->Call_0;
    let st = p.mtype->Reply_0.stat;
    &&& m.mtype is Call && p.mtype is Reply && p.xid == m.xid
    &&& if b.rpc_vers != 2 {
        c1 == c0 && out.len() == 0 && st is Denied && st->Denied_0.stat is RpcMissmatch && st->Denied_0.stat->RpcMissmatch_0.low == 2 && st->Denied_0.stat->RpcMissmatch_0.high == 2
    } else if !no_auth(b.cred) {
        c1 == c0 && out.len() == 0 && st is Denied && st->Denied_0.stat is AuthError && (st->Denied_0.stat->AuthError_0 is BadCred || st->Denied_0.stat->AuthError_0 is RejectedCred || st->Denied_0.stat->AuthError_0 is TooWeak)
    } else if !no_auth(b.verf) {
        c1 == c0 && out.len() == 0 && st is Denied && st->Denied_0.stat is AuthError && (st->Denied_0.stat->AuthError_0 is BadVerf || st->Denied_0.stat->AuthError_0 is RejectedVerf || st->Denied_0.stat->AuthError_0 is TooWeak)
    } else {
        &&& c1.len() == c0.len() + 1 && c1 == c0.push(c1.last())
        &&& c1.last().prog == b.prog && c1.last().vers == b.vers && c1.last().proc == b.proc && c1.last().args == rest
        &&& st is Accepted && no_auth(st->Accepted_0.verf) && st->Accepted_0.verf.body.0@.len() == 0 && accept(c1.last().res, st->Accepted_0.stat)
        &&& out == c1.last().out && (c1.last().res is Err ==> out.len() == 0)
    }
}
spec fn handled(c0: Seq<Call>, c1: Seq<Call>, d: Seq<u8>, r: Result<Seq<u8>, Error>) -> bool {
    match r {
        Ok(x) => exists|m: RpcMessage, p: RpcMessage| RpcMessage::rest(d) is Some && #[trigger] RpcMessage::val(d, &m) && starts(x, #[trigger] p.put(Seq::empty()))
            && answer(c0, c1, m, RpcMessage::rest(d)->0, p, x.skip(p.put(Seq::empty()).len() as int)),
        // what is not a call is not answered
        Err(_) => c1 == c0 && (RpcMessage::rest(d) is None || exists|m: RpcMessage| #[trigger] RpcMessage::val(d, &m) && !(m.mtype is Call)),
    }
}
spec fn starts(x: Seq<u8>, a: Seq<u8>) -> bool { x.len() >= a.len() && x == a + x.skip(a.len() as int) }
'''
HANDLE = """ensures /*P15*/ handled(old(self).calls@, final(self).calls@, data_in@, match r { Ok(x) => Ok(x@), Err(e) => Err(e) }), final(self).log == old(self).log
"""
NET = r'''
// ---- trusted stand-ins for the sockets ---------------------------------------------------------------------------------
// rem: the bytes that are still to come; sent: the bytes written so far; io_ok: the connection has not failed
struct TcpStream { rem: Ghost<Seq<u8>>, sent: Ghost<Seq<u8>>, io_ok: Ghost<bool>, marks: Ghost<Seq<Seq<u8>>> }
impl TcpStream {
    spec fn rem(&self) -> Seq<u8> { self.rem@ }
    spec fn sent(&self) -> Seq<u8> { self.sent@ }
    spec fn io_ok(&self) -> bool { self.io_ok@ }
}
// datagrams: got with their senders, put with their receivers
#[verifier::external_body] struct SocketAddr { x: u8 }
struct UdpSocket { got: Ghost<Seq<(Seq<u8>, SocketAddr)>>, put: Ghost<Seq<(Seq<u8>, SocketAddr)>>, io_ok: Ghost<bool> }
impl UdpSocket {
    #[verifier::external_body]
    async fn recv_from(&mut self, buf: &mut Vec<u8>) -> (r: Result<(usize, SocketAddr), Error>)
        ensures final(buf)@.len() == old(buf)@.len(), final(self).put == old(self).put, r is Err ==> !final(self).io_ok@ && final(self).got == old(self).got,
            r is Ok ==> r->Ok_0.0 <= final(buf)@.len() && final(self).got@ == old(self).got@.push((final(buf)@.take(r->Ok_0.0 as int), r->Ok_0.1)) && final(self).io_ok == old(self).io_ok { unimplemented!() }
    #[verifier::external_body]
    async fn send_to(&mut self, buf: &Vec<u8>, peer: SocketAddr) -> (r: Result<usize, Error>)
        ensures final(self).got == old(self).got, final(self).put@ == old(self).put@.push((buf@, peer)), final(self).io_ok == old(self).io_ok { unimplemented!() }
}
'''
RECORD = '''
// proved in group record
#[verifier::external_body]
async fn read_record(reader: &mut TcpStream, maxlen: usize) -> (r: Result<Vec<u8>, Error>)
    READ final(reader).sent() == old(reader).sent(), final(reader).marks@ == (if r is Ok { old(reader).marks@.push(final(reader).rem()) } else { old(reader).marks@ }) { unimplemented!() }
#[verifier::external_body]
async fn write_record(writer: &mut TcpStream, record: Vec<u8>) -> (r: Result<(), Error>)
    WRITE, final(writer).rem() == old(writer).rem(), final(writer).marks == old(writer).marks { unimplemented!() }
'''.replace("READ", record.READ.rstrip()).replace("WRITE", record.WRITE.rstrip()).replace("/*P14*/ ", "")
SERVE = r'''
// the dispatcher with its history: which messages it was given and what it answered
impl Svc {
    #[verifier::external_body]
    async fn vx_handle(&mut self, data_in: Vec<u8>) -> (r: Result<Vec<u8>, Error>)
        ensures handled(old(self).calls@, final(self).calls@, data_in@, match r { Ok(x) => Ok(x@), Err(e) => Err(e) }),
            final(self).log@ == old(self).log@.push((data_in@, match r { Ok(x) => Ok(x@), Err(e) => Err(e) })), r is Ok ==> r->Ok_0@.len() < 0x8000_0000 { unimplemented!() }
}
type Log = Seq<(Seq<u8>, Result<Seq<u8>, Error>)>;
// the stream s0 consists of the records of the messages in the log, in order; marks: what was left of it after each
spec fn at(s0: Seq<u8>, marks: Seq<Seq<u8>>, i: int) -> Seq<u8> { if i <= 0 { s0 } else { marks[i - 1] } }
spec fn took(s0: Seq<u8>, log: Log, marks: Seq<Seq<u8>>) -> bool { marks.len() == log.len() && forall|i: int| 0 <= i < log.len() ==> record(at(s0, marks, i), Seq::empty(), (#[trigger] log[i]).0, marks[i]) }
#[verifier::opaque]
spec fn gave(o: Seq<u8>, log: Log) -> Seq<u8> decreases log.len() { if log.len() == 0 { o } else { gave(o, log.drop_last()) + (match log.last().1 { Ok(x) => sent_record(x), Err(_) => Seq::empty() }) } }
spec fn all_ok(log: Log) -> bool { forall|i: int| 0 <= i < log.len() ==> (#[trigger] log[i]).1 is Ok }
// the end of a connection: the last message was not a call, or there are no more (acceptable) records
spec fn ended(s0: Seq<u8>, log: Log, marks: Seq<Seq<u8>>) -> bool {
    let m = at(s0, marks, marks.len() as int);
    &&& took(s0, log, marks)
    &&& (log.len() > 0 && log.last().1 is Err && all_ok(log.drop_last())) || (all_ok(log) && (cut(m) || large(m, 0, 1048576) || vx_oom()))
}
#[verifier::opaque]
spec fn answers(got: Seq<(Seq<u8>, SocketAddr)>, log: Log) -> Seq<(Seq<u8>, SocketAddr)> decreases log.len() {
    if log.len() == 0 { Seq::empty() } else { match log.last().1 { Ok(x) => answers(got.drop_last(), log.drop_last()).push((x, got.last().1)), Err(_) => answers(got.drop_last(), log.drop_last()) } }
}
broadcast proof fn l_gave0(o: Seq<u8>, log: Log) requires log.len() == 0 ensures #[trigger] gave(o, log) == o { reveal(gave); }
broadcast proof fn l_gave(o: Seq<u8>, log: Log, x: (Seq<u8>, Result<Seq<u8>, Error>))
    ensures #[trigger] gave(o, log.push(x)) == gave(o, log) + (match x.1 { Ok(d) => sent_record(d), Err(_) => Seq::empty() }) { reveal(gave); l_last(log, x); }
broadcast proof fn l_ans(got: Seq<(Seq<u8>, SocketAddr)>, log: Log, y: (Seq<u8>, SocketAddr), x: (Seq<u8>, Result<Seq<u8>, Error>))
    ensures #[trigger] answers(got.push(y), log.push(x)) == (match x.1 { Ok(d) => answers(got, log).push((d, y.1)), Err(_) => answers(got, log) }) { reveal(answers); l_last(log, x); l_last(got, y); }
broadcast proof fn l_allok(log: Log, x: (Seq<u8>, Result<Seq<u8>, Error>)) ensures #[trigger] all_ok(log.push(x)) == (all_ok(log) && x.1 is Ok) {
    if all_ok(log.push(x)) { assert forall|i: int| 0 <= i < log.len() implies (#[trigger] log[i]).1 is Ok by { assert(log.push(x)[i] == log[i]); } assert(log.push(x)[log.len() as int] == x); }
}
broadcast proof fn l_last<T>(s: Seq<T>, x: T) ensures #[trigger] s.push(x).drop_last() == s, s.push(x).last() == x { assert(s.push(x).drop_last() =~= s); }
broadcast group bg { l_gave0, l_gave, l_ans, l_allok, l_last }
'''
TRUST = ["TcpStream and UdpSocket deliver and send exactly what they report; a datagram socket only fails by itself, not because of a reply that cannot be sent",
         "an RPC reply is shorter than 2^31 bytes"]
SIGA = [(r"self\s*:\s*Arc<Self>", "&mut self"), (r"\bwhere\s*Self\s*:\s*Sync,?", "")]


def serve():
    rw = [(r"\bself\.clone\(\)", "self", False), (r"&mut stream\b", "stream", False), (r"\.handle_message\(", ".vx_handle(", False)]
    sig = SIGA + [(r"mut stream\s*:\s*TcpStream", "stream: &mut TcpStream"), (r"io::Result<\(\)>", "Result<(), Error>")]
    inv = "        invariant all_ok(self.log@), took(old(stream).rem(), self.log@, stream.marks@), stream.rem() == at(old(stream).rem(), stream.marks@, stream.marks@.len() as int), stream.io_ok() == old(stream).io_ok(), {}\n"
    pre = "broadcast use {vxl::all, bg}; proof { assert(self.log@ =~= Seq::empty()); }"
    lp = "broadcast use {vxl::all, bg}; let ghost vx_l = self.log@; let ghost vx_s = stream.rem(); let ghost vx_o = stream.sent();"
    post = "requires old(self).log@.len() == 0, old(stream).marks@.len() == 0 ensures /*P15*/ r is Err, /*P15*/ final(stream).io_ok() && old(stream).io_ok() ==> ended(old(stream).rem(), final(self).log@, final(stream).marks@) && {}\n"
    A = "#[verifier::exec_allows_no_decreases_clause]\n#[verifier::loop_isolation(false)]"
    usig = SIGA + [(r"socket\s*:\s*UdpSocket", "socket: &mut UdpSocket"), (r"io::Result<\(\)>", "Result<(), Error>")]
    uinv = "        invariant self.log@.len() == socket.got@.len(), forall|i: int| 0 <= i < self.log@.len() ==> (#[trigger] self.log@[i]).0 == socket.got@[i].0, socket.put@ == answers(socket.got@, self.log@), socket.io_ok == old(socket).io_ok,\n"
    return {
        "serve_tcp_stream": Contract(post.format("final(stream).sent() == gave(old(stream).sent(), final(self).log@)"), sig=sig, rw=rw, pre=pre, attrs=A,
                                     loops=[("loop", inv.format("stream.sent() == gave(old(stream).sent(), self.log@),"), "", lp, "")]),
        "serve_tcp_stream_noreply": Contract(post.format("final(stream).sent() == old(stream).sent()"), sig=sig, rw=rw, pre=pre, attrs=A,
                                             loops=[("loop", inv.format("stream.sent() == old(stream).sent(),"), "", lp, "")]),
        "serve_udp_socket": Contract("requires old(self).log@.len() == 0, old(socket).got@.len() == 0, old(socket).put@.len() == 0, old(socket).io_ok@\n    ensures /*P15*/ !final(socket).io_ok@, /*P15*/ final(self).log@.len() == final(socket).got@.len(), /*P15*/ forall|i: int| 0 <= i < final(self).log@.len() ==> (#[trigger] final(self).log@[i]).0 == final(socket).got@[i].0, /*P15*/ final(socket).put@ == answers(final(socket).got@, final(self).log@)\n",
                                     sig=usig, rw=[(r"\bself\.clone\(\)", "self", False), (r"\.handle_message\(", ".vx_handle(", False)], attrs=A,
                                     pre="broadcast use {vxl::all, bg}; proof { assert(self.log@ =~= Seq::empty()); assert(socket.put@ =~= Seq::empty()); reveal(answers); }",
                                     loops=[("loop", uinv, "", "broadcast use {vxl::all, bg};", "")]),
    }


DEFAULT = {"nullproc": "ensures /*P15*/ r is Ok\n", "call": "ensures /*P15*/ r is Err && r->Err_0 is ProgUnavail, /*P15*/ *final(_ret) == *old(_ret)\n"}
SIGD = [(r"self\s*:\s*Arc<Self>", "&self", False), (r"&mut self\b", "&self", False), (r"&mut Cursor<Vec<u8>>", "&mut Cursor", False), (r"(?s)\bwhere\b.*$", "", False)]


def impl_fns(f, header):
    r = [i for i in f.items if i.kind in ("impl", "trait") and not i.is_test() and re.match(header, i.header)]
    if len(r) != 1:
        raise Lost(f"{header}: {len(r)} found")
    return r[0]


def error(R, f, verify=True):
    """RpcError and its conversion from io::Error"""
    e = f.find("enum", "RpcError")
    out = ["//RAW", onc.pubify(R.clean(f, e.head, e.hi, []))]
    fr = [i for i in f.items if i.kind == "impl" and i.header.startswith("impl From<Error> for RpcError")]
    if len(fr) != 1:
        raise Lost("From<Error> for RpcError")
    out.append("impl vstd::std_specs::convert::FromSpecImpl<Error> for RpcError {\n    open spec fn obeys_from_spec() -> bool { true }\n    open spec fn from_spec(e: Error) -> Self { RpcError::Io(e) }\n}\n")
    out.append(fr[0].header + " {\n" + R.fn(fr[0].members[0], Contract("", external=not verify), "RpcError::from") + "}\n")
    out.append("// `?` converts the error with From::from\nbroadcast axiom fn vx_question<T, S: vstd::std_specs::convert::FromSpec<T>>(e: T, r: S) ensures #[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(e, r) && S::obeys_from_spec() ==> r == S::from_spec(e);\n")
    if not verify:
        R.elsewhere["RpcError::from"] = "rpc"
    return "\n".join(out)


def build():
    f = File(SRC)
    fx = File(onc.FILES["rpc"])
    R = Render("rpc")
    pre = onc.prelude(R)
    out = []
    pre.append(error(R, f))
    rs = impl_fns(fx, r"impl ReplyStat$")
    C = {"rpc_vers_missmatch": "ensures /*P15*/ r is Denied && r->Denied_0.stat is RpcMissmatch && r->Denied_0.stat->RpcMissmatch_0.low == low && r->Denied_0.stat->RpcMissmatch_0.high == high",
         "auth_error": "ensures /*P15*/ r is Denied && r->Denied_0.stat is AuthError && r->Denied_0.stat->AuthError_0 == stat"}
    out.append("impl ReplyStat {\n" + "\n".join(R.fn(m, Contract(C[m.name]) if m.name in C else None, f"ReplyStat::{m.name}") for m in rs.members if m.kind == "fn") + "}\n")
    tr = impl_fns(f, r"trait RpcService")
    body, dflt = [], []
    SV = serve()
    rwx = [(r"\bxdr::", "", False), (r"\bself\.clone\(\)", "self", False)]
    for m in tr.members:
        if m.kind != "fn":
            continue
        q = f"RpcService::{m.name}"
        if m.name == "handle_message":
            body.insert(0, R.fn(m, Contract(HANDLE, sig=SIGA, rw=rwx, pre="broadcast use vxl::all;"), q))
        elif m.name in SV:
            body.append(R.fn(m, SV[m.name], q))
        elif m.name in ("nullproc", "call"):
            dflt.append(R.fn(m, Contract(DEFAULT[m.name], sig=SIGD), q))
        else:
            R.flag(f"{q}: no contract", q)
    for n in list(SV) + ["handle_message"]:
        if f"RpcService::{n}" not in [x[0] for x in R.functions]:
            raise Lost(f"RpcService::{n}")
    out.append("impl Svc {\n" + "\n".join(body) + "}\n")
    out.append("// what a service that does not say otherwise does\nstruct VxDefault;\nimpl VxDefault {\n" + "\n".join(dflt) + "}\n")
    txt = "\n".join(out)
    return Group("rpc", wrap(*pre, SVC, SPEC, re.sub(r"spec fn (record|cut|large)\(", r"#[verifier::opaque]\nspec fn \1(", record.FRAG), NET, RECORD, SERVE, txt, broadcast=("vxl::all",)), R, exact=("kind",), trusted=[onc.CURSOR_TRUST] + TRUST, default_props=["P15"], panic_props=["P24"])
