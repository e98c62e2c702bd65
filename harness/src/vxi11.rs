// native harness: XDR (P13) and record marking (P14), compiled together with lxi-vxi11's own modules
#![allow(dead_code, unused_imports, unused_must_use)]
use crate::common::onc_rpc::record::{read_record, write_record};
use crate::common::onc_rpc::xdr::*;
use crate::common::portmapper::xdr::*;
use crate::common::vxi11::xdr::*;
use crate::common::xdr::prelude::*;
use crate::common_h::*;
use crate::ensure;
use futures::task::{waker, ArcWake};
use futures::{AsyncRead, AsyncWrite};
use std::future::Future;
use std::io::Cursor;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};

#[derive(Clone, Default)]
struct X(Vec<u8>);
impl X {
    fn u(mut self, v: u32) -> X {
        self.0.extend(v.to_be_bytes());
        self
    }
    fn h(mut self, v: u64) -> X {
        self.0.extend(v.to_be_bytes());
        self
    }
    fn f(mut self, b: &[u8]) -> X {
        let n = b.len();
        self.0.extend(b);
        for _ in 0..(4 - n % 4) % 4 {
            self.0.push(0)
        }
        self
    }
    fn o(self, b: &[u8]) -> X {
        self.u(b.len() as u32).f(b)
    }
    fn a(mut self, x: X) -> X {
        self.0.extend(x.0);
        self
    }
}
fn x() -> X {
    X::default()
}
// the value is encoded as it must be, decodes to something that encodes the same (compared by its text too), and any cut is an error
fn chk<T: XdrEncode + XdrDecode + Default + std::fmt::Debug>(c: &mut Ctx, v: T, want: X) {
    let name = std::any::type_name::<T>().rsplit("::").next().unwrap_or("").to_string();
    let text = format!("{v:?}");
    c.case(format!("{name} {}", text.chars().take(200).collect::<String>()));
    let mut out = Cursor::new(vec![]);
    ensure!(v.write_xdr(&mut out).is_ok(), "{name} cannot be encoded");
    let out = out.into_inner();
    ensure!(out == want.0, "{name} is encoded as {} instead of {}", hex(&out), hex(&want.0));
    let mut inp = want.0.clone();
    let tail = c.rng.us(9);
    inp.extend(c.rng.bytes(tail));
    let mut cur = Cursor::new(inp);
    let mut w = T::default();
    let r = w.read_xdr(&mut cur);
    ensure!(r.is_ok(), "{name} {} cannot be decoded: {r:?}", hex(&want.0));
    ensure!(cur.position() as usize == want.0.len(), "decoding {name} of {} bytes stops at {}", want.0.len(), cur.position());
    let t2 = format!("{w:?}");
    ensure!(t2 == text, "{name} {} was decoded as {t2}", hex(&want.0));
    for _ in 0..4 {
        if want.0.is_empty() {
            break;
        }
        let n = c.rng.us(want.0.len());
        let mut w = T::default();
        let r = w.read_xdr(&mut Cursor::new(want.0[..n].to_vec()));
        ensure!(r.is_err(), "{name} cut to {n} of {} bytes was decoded as {w:?}", want.0.len());
    }
}
fn err(r: &mut Rng) -> (DeviceErrorCode, X) {
    use DeviceErrorCode::*;
    let t = [(NoError, 0), (SyntaxError, 1), (DeviceNotAccessible, 3), (InvalidLinkIdentifier, 4), (ParameterError, 5), (ChannelNotEstablished, 6), (OperationNotSupported, 8), (OutOfResources, 9), (DeviceLockedByAnotherLink, 11), (NoLockHeldByThisLink, 12), (IoTimeout, 15), (IoError, 17), (InvalidAddress, 21), (Abort, 23), (ChannelAlreadyEstablished, 29)];
    let e = r.pick(&t);
    (e.0, x().u(e.1))
}
fn op(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(4) {
        0 => 0,
        1 => r.us(5),
        2 => r.us(700),
        _ => r.us(30),
    };
    r.bytes(n)
}
fn st(r: &mut Rng) -> String {
    let n = r.us(12);
    (0..n).map(|_| *r.pick(&['a', '0', ',', '\0', 'å', '€', '😀', ' '])).collect()
}
fn mm(r: &mut Rng) -> (MissmatchInfo, X) {
    let (low, high) = (r.u32(), r.u32());
    (MissmatchInfo { low, high }, x().u(low).u(high))
}
fn auth(r: &mut Rng) -> (OpaqueAuth, X) {
    let (flavour, n) = match r.below(5) {
        0 => (AuthFlavour::Sys, 1),
        1 => (AuthFlavour::Short, 2),
        _ => (AuthFlavour::None, 0),
    };
    let b = op(r);
    (OpaqueAuth { flavour, body: Opaque(b.clone()) }, x().u(n).o(&b))
}
fn reply(r: &mut Rng) -> (ReplyStat, X) {
    use AuthStat::*;
    match r.below(10) {
        0 => {
            let (m, e) = mm(r);
            (ReplyStat::Denied(RejectedReply { stat: RejectStat::RpcMissmatch(m) }), x().u(1).u(0).a(e))
        }
        1 => {
            let i = r.us(8);
            let s = [Ok, BadCred, RejectedCred, BadVerf, RejectedVerf, TooWeak, InvalidResp, Failed][i];
            (ReplyStat::Denied(RejectedReply { stat: RejectStat::AuthError(s) }), x().u(1).u(1).u(i as u32))
        }
        k => {
            let (verf, v) = auth(r);
            let (m, e) = mm(r);
            let (stat, s) = match k {
                2 => (AcceptStat::ProgUnavail, x().u(1)),
                3 => (AcceptStat::ProgMissmatch(m), x().u(2).a(e)),
                4 => (AcceptStat::ProcUnavail, x().u(3)),
                5 => (AcceptStat::GarbageArgs, x().u(4)),
                6 => (AcceptStat::SystemErr, x().u(5)),
                _ => (AcceptStat::Success, x().u(0)),
            };
            (ReplyStat::Accepted(AcceptedReply { verf, stat }), x().u(0).a(v).a(s))
        }
    }
}
fn body(r: &mut Rng) -> (Callbody, X) {
    let (rpc_vers, prog, vers, proc) = (r.u32(), r.u32(), r.u32(), r.u32());
    let ((cred, c), (verf, v)) = (auth(r), auth(r));
    (Callbody { rpc_vers, prog, vers, proc, cred, verf }, x().u(rpc_vers).u(prog).u(vers).u(proc).a(c).a(v))
}
fn p13(c: &mut Ctx) {
    c.rule = "random values of every wire type, encoded by an independent encoder, with random bytes behind and cut at random points".into();
    while c.more() {
        let r = &mut c.rng;
        let (a, b, d, e, f) = (r.u32(), r.u32(), r.u32(), r.u32(), r.flip());
        let h = r.next();
        let (o, s) = (op(r), st(r));
        let (ec, ex) = err(r);
        let lid = DeviceLink(a);
        let fl = DeviceFlags(b);
        match r.below(42) {
            0 => chk(c, a as i32, x().u(a)),
            1 => chk(c, a as i16, x().u(a as i16 as i32 as u32)),
            2 => chk(c, a as i8, x().u(a as i8 as i32 as u32)),
            3 => chk(c, a, x().u(a)),
            4 => chk(c, a as u16, x().u(a & 0xffff)),
            5 => chk(c, a as u8, x().u(a & 0xff)),
            6 => chk(c, f, x().u(f as u32)),
            7 => chk(c, h, x().h(h)),
            8 => chk(c, h as i64, x().h(h)),
            9 => chk(c, f32::from_bits(a & 0x7f7f_ffff), x().u(a & 0x7f7f_ffff)),
            10 => chk(c, f64::from_bits(h & 0x7fdf_ffff_ffff_ffff), x().h(h & 0x7fdf_ffff_ffff_ffff)),
            11 => chk(c, Opaque(o.clone()), x().o(&o)),
            12 => chk(c, s.clone(), x().o(s.as_bytes())),
            13 => chk(c, FixedOpaque([a as u8, b as u8, d as u8]), x().f(&[a as u8, b as u8, d as u8])),
            14 => chk(c, FixedOpaque([1u8, 2, 3, a as u8]), x().f(&[1, 2, 3, a as u8])),
            15 => {
                let n = r.us(6);
                let v: Vec<u32> = (0..n).map(|_| r.u32()).collect();
                let w = v.iter().fold(x().u(n as u32), |w, y| w.u(*y));
                chk(c, v, w)
            }
            16 => chk(c, if f { Some(a) } else { None }, if f { x().u(1).u(a) } else { x().u(0) }),
            17 => chk(c, [a, b, d], x().u(a).u(b).u(d)),
            18 => chk(c, lid, x().u(a)),
            19 => chk(c, fl, x().u(b)),
            20 => chk(c, ec, ex),
            21 => chk(c, DeviceError { error: ec }, ex),
            22 => chk(c, CreateLinkParms { client_id: a as i32, lock_device: f, lock_timeout: b, device: s.clone() }, x().u(a).u(f as u32).u(b).o(s.as_bytes())),
            23 => chk(c, CreateLinkResp { error: ec, lid, abort_port: b as u16, max_recv_size: d }, ex.u(a).u(b & 0xffff).u(d)),
            24 => chk(c, DeviceWriteParms { lid, io_timeout: d, lock_timeout: e, flags: fl, data: Opaque(o.clone()) }, x().u(a).u(d).u(e).u(b).o(&o)),
            25 => chk(c, DeviceWriteResp { error: ec, size: d }, ex.u(d)),
            26 => chk(c, DeviceReadParms { lid, request_size: d, io_timeout: e, lock_timeout: h as u32, flags: fl, term_char: h as u8 }, x().u(a).u(d).u(e).u(h as u32).u(b).u(h as u8 as u32)),
            27 => chk(c, DeviceReadResp { error: ec, reason: d, data: Opaque(o.clone()) }, ex.u(d).o(&o)),
            28 => chk(c, DeviceReadStbResp { error: ec, stb: d as u8 }, ex.u(d & 0xff)),
            29 => chk(c, DeviceGenericParms { lid, flags: fl, lock_timeout: d, io_timeout: e }, x().u(a).u(b).u(d).u(e)),
            30 => chk(c, DeviceRemoteFunc { host_addr: a, host_port: b as u16, prog_num: d, prog_vers: e, prog_family: if f { DeviceAddrFamily::Udp } else { DeviceAddrFamily::Tcp } }, x().u(a).u(b & 0xffff).u(d).u(e).u(f as u32)),
            31 => chk(c, DeviceEnableSrqParms { lid, enable: f, handle: Opaque(o.clone()) }, x().u(a).u(f as u32).o(&o)),
            32 => chk(c, DeviceLockParms { lid, flags: fl, lock_timeout: d }, x().u(a).u(b).u(d)),
            33 => chk(c, DeviceDocmdParms { lid, flags: fl, io_timeout: d, lock_timeout: e, cmd: h as i32, network_order: f, datasize: (h >> 32) as u32, data_in: Opaque(o.clone()) }, x().u(a).u(b).u(d).u(e).u(h as u32).u(f as u32).u((h >> 32) as u32).o(&o)),
            34 => chk(c, DeviceDocmdResp { error: ec, data_out: Opaque(o.clone()) }, ex.o(&o)),
            35 => {
                let mut v = DeviceSrqParms::default();
                v.handle = Opaque(o.clone());
                // the constructor says the same
                ensure!(DeviceSrqParms::new(Opaque(o.clone())).handle.0 == o, "DeviceSrqParms::new");
                let mut out = Cursor::new(vec![]);
                v.write_xdr(&mut out);
                chk(c, v, x().o(&o))
            }
            36 => chk(c, Mapping { prog: a, vers: b, prot: d, port: e }, x().u(a).u(b).u(d).u(e)),
            37 => chk(c, Callit { prog: a, vers: b, proc: d, args: Opaque(o.clone()) }, x().u(a).u(b).u(d).o(&o)),
            38 => chk(c, CallResult { port: a, res: Opaque(o.clone()) }, x().u(a).o(&o)),
            39 => {
                let (v, w) = body(r);
                chk(c, RpcMessage { xid: a, mtype: MsgType::Call(v) }, x().u(a).u(0).a(w))
            }
            40 => chk(c, RpcMessage::call(a, b, d, e), x().u(a).u(0).u(2).u(b).u(d).u(e).u(0).u(0).u(0).u(0)),
            _ => {
                let (v, w) = reply(r);
                chk(c, RpcMessage { xid: a, mtype: MsgType::Reply(Replybody { stat: v }) }, x().u(a).u(1).a(w))
            }
        }
    }
}

struct Flag(AtomicBool);
impl ArcWake for Flag {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.store(true, Ordering::SeqCst);
    }
}
fn run<T>(f: impl Future<Output = T>) -> T {
    let fl = Arc::new(Flag(AtomicBool::new(true)));
    let w = waker(fl.clone());
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    while fl.0.swap(false, Ordering::SeqCst) {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
    fail("waits without end")
}
struct Mem {
    inb: Vec<u8>,
    pos: usize,
    out: Vec<u8>,
    chunk: usize,
    n: u64,
}
impl AsyncRead for Mem {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        self.n += 1;
        if self.n % 4 == 3 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let n = buf.len().min(self.inb.len() - self.pos).min(self.chunk);
        let p = self.pos;
        buf[..n].copy_from_slice(&self.inb[p..p + n]);
        self.pos += n;
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Mem {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        self.n += 1;
        if self.n % 4 == 3 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let n = buf.len().min(self.chunk);
        self.out.extend(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
fn p14(c: &mut Ctx) {
    c.rule = "random records in random fragments (empty ones too), limits around the length, streams cut at random points, several records behind each other; sending through a stream that takes a few bytes at a time".into();
    while c.more() {
        let chunk = *c.rng.pick(&[1usize, 2, 3, 7, 64, 100_000]);
        let nrec = 1 + c.rng.us(3);
        let mut stream = vec![];
        let mut recs = vec![];
        for _ in 0..nrec {
            let nf = 1 + c.rng.us(4);
            let mut rec = vec![];
            for i in 0..nf {
                let n = *c.rng.pick(&[0usize, 1, 3, 4, 5, 40, 400]);
                let b = c.rng.bytes(n);
                stream.extend((if i + 1 == nf { 0x8000_0000u32 } else { 0 } | n as u32).to_be_bytes());
                stream.extend(&b);
                rec.extend(b);
            }
            recs.push((rec, stream.len()))
        }
        let max = recs.iter().map(|x| x.0.len()).max().unwrap();
        let limit = *c.rng.pick(&[max, max + 1, max.saturating_sub(1), 1 << 20]);
        let cutat = if c.rng.one_in(3) { c.rng.us(stream.len() + 1) } else { stream.len() };
        c.case(format!("stream {} cut at {cutat}, limit {limit}, {chunk} bytes at a time", hex(&stream)));
        let mut m = Mem { inb: stream[..cutat].to_vec(), pos: 0, out: vec![], chunk, n: 0 };
        for (rec, end) in &recs {
            match run(read_record(&mut m, limit)) {
                Ok(got) => {
                    ensure!(*end <= cutat, "a record that is cut short was delivered: {}", hex(&got));
                    ensure!(rec.len() <= limit, "a record of {} bytes was delivered although the limit is {limit}", rec.len());
                    ensure!(&got == rec, "the record is {} instead of {}", hex(&got), hex(rec));
                    ensure!(m.pos == *end, "reading stopped at {} instead of {end}", m.pos);
                }
                Err(e) => {
                    ensure!(*end > cutat || rec.len() > limit, "a complete record was not delivered: {e}");
                    break;
                }
            }
        }
        // sending
        let mut rec = recs[0].0.clone();
        if c.rng.one_in(300) {
            rec = c.rng.bytes(1 << 20);
            rec.extend(c.rng.bytes(4099));
            let k = c.rng.us(5000);
            rec.truncate((1 << 20) + k);
        }
        let chunk = if rec.len() > 1 << 19 { 50_000 } else { chunk };
        let mut m = Mem { inb: vec![], pos: 0, out: vec![], chunk, n: 0 };
        let r = run(write_record(&mut m, rec.clone()));
        ensure!(r.is_ok(), "sending failed: {r:?}");
        let mut want = (0x8000_0000u32 | rec.len() as u32).to_be_bytes().to_vec();
        want.extend(&rec);
        ensure!(m.out.len() == want.len(), "a record of {} bytes was sent as {} bytes", rec.len(), m.out.len());
        ensure!(m.out == want, "the record was sent as {} instead of {}", hex(&m.out[..m.out.len().min(400)]), hex(&want[..want.len().min(400)]));
    }
}

pub fn main() {
    let mut c = Ctx::start();
    match &c.prop.clone()[..] {
        "P13" => p13(&mut c),
        "P14" => p14(&mut c),
        _ => (),
    }
    c.done()
}
