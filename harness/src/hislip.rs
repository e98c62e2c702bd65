// native harness: lxi-hislip (P05..P12, P23), compiled together with the crate's own modules
#![allow(dead_code, unused_imports, unused_must_use)]
use crate::common::errors::{Error, FatalErrorCode, NonFatalErrorCode};
use crate::common::messages::{Message, MessageType};
use crate::common_h::*;
use crate::ensure;
use crate::server::{InnerServer, Server, ServerBuilder, ServerConfig};
use futures::task::{waker, ArcWake};
use futures::{AsyncRead, AsyncWrite, Stream};
use lxi_device::lock::{LockHandle, SharedLock, SpinMutex};
use lxi_device::trigger::Source;
use lxi_device::{Device, DeviceError};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};

// ---- an in-memory byte stream ------------------------------------------------------------------------------------
#[derive(Default)]
struct PipeIn {
    inb: VecDeque<u8>,
    eof: bool,
    out: Vec<u8>,
    chunk: usize,
    waker: Option<Waker>,
    reads: u64,
}
#[derive(Clone)]
pub struct Pipe(Arc<Mutex<PipeIn>>);
impl Pipe {
    fn new(chunk: usize) -> Pipe {
        Pipe(Arc::new(Mutex::new(PipeIn { chunk, ..Default::default() })))
    }
    fn push(&self, b: &[u8]) {
        let mut g = self.0.lock().unwrap();
        g.inb.extend(b);
        if let Some(w) = g.waker.take() {
            w.wake()
        }
    }
    fn close(&self) {
        let mut g = self.0.lock().unwrap();
        g.eof = true;
        if let Some(w) = g.waker.take() {
            w.wake()
        }
    }
    fn take_out(&self) -> Vec<u8> {
        std::mem::take(&mut self.0.lock().unwrap().out)
    }
    fn left(&self) -> usize {
        self.0.lock().unwrap().inb.len()
    }
}
impl AsyncRead for Pipe {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        let mut g = self.0.lock().unwrap();
        g.reads += 1;
        if g.inb.is_empty() {
            if g.eof {
                return Poll::Ready(Ok(0));
            }
            g.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        // now and then nothing is ready although data is there
        if g.chunk > 0 && g.reads % 5 == 4 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let mut n = buf.len().min(g.inb.len());
        if g.chunk > 0 {
            n = n.min(g.chunk);
        }
        for b in buf.iter_mut().take(n) {
            *b = g.inb.pop_front().unwrap();
        }
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Pipe {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        let mut g = self.0.lock().unwrap();
        let n = if g.chunk > 0 { buf.len().min(g.chunk + 3) } else { buf.len() };
        g.out.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

// ---- an executor that runs until nothing moves ------------------------------------------------------------------------
struct Flag(AtomicBool);
impl ArcWake for Flag {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.store(true, Ordering::SeqCst);
    }
}
type Task = (Arc<Flag>, Option<Pin<Box<dyn Future<Output = ()>>>>);
#[derive(Default)]
struct Exec {
    tasks: Vec<Task>,
}
impl Exec {
    fn spawn(&mut self, f: impl Future<Output = ()> + 'static) -> usize {
        self.tasks.push((Arc::new(Flag(AtomicBool::new(true))), Some(Box::pin(f))));
        self.tasks.len() - 1
    }
    fn done(&self, i: usize) -> bool {
        self.tasks[i].1.is_none()
    }
    fn run(&mut self) {
        let mut n = 0u64;
        loop {
            let mut any = false;
            for (fl, t) in self.tasks.iter_mut() {
                if t.is_some() && fl.0.swap(false, Ordering::SeqCst) {
                    any = true;
                    let w = waker(fl.clone());
                    let mut cx = Context::from_waker(&w);
                    if t.as_mut().unwrap().as_mut().poll(&mut cx).is_ready() {
                        *t = None;
                    }
                }
            }
            if !any {
                return;
            }
            n += 1;
            ensure!(n < 4_000_000, "the server keeps running without end");
        }
    }
}
fn block<T>(f: impl Future<Output = T>) -> Option<T> {
    let fl = Arc::new(Flag(AtomicBool::new(true)));
    let w = waker(fl.clone());
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    while fl.0.swap(false, Ordering::SeqCst) {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return Some(x);
        }
    }
    None
}

// ---- messages, written and parsed independently of the code under test ------------------------------------------------
#[derive(Clone, PartialEq, Debug)]
struct M {
    t: u8,
    c: u8,
    p: u32,
    d: Vec<u8>,
}
fn m(t: u8, c: u8, p: u32, d: &[u8]) -> M {
    M { t, c, p, d: d.to_vec() }
}
fn enc(x: &M) -> Vec<u8> {
    let mut v = b"HS".to_vec();
    v.push(x.t);
    v.push(x.c);
    v.extend(x.p.to_be_bytes());
    v.extend((x.d.len() as u64).to_be_bytes());
    v.extend(&x.d);
    v
}
fn parse(mut b: &[u8]) -> Vec<M> {
    let mut r = vec![];
    while !b.is_empty() {
        ensure!(b.len() >= 16 && &b[..2] == b"HS", "the server sent something that is no HiSLIP message: {}", hex(b));
        let n = u64::from_be_bytes(b[8..16].try_into().unwrap()) as usize;
        ensure!(b.len() >= 16 + n, "the server sent a message that is shorter than its length: {}", hex(b));
        r.push(m(b[2], b[3], u32::from_be_bytes(b[4..8].try_into().unwrap()), &b[16..16 + n]));
        b = &b[16 + n..];
    }
    r
}
fn show(v: &[M]) -> String {
    let s: Vec<String> = v.iter().map(|x| format!("({},{},{:#x},{}:{})", x.t, x.c, x.p, x.d.len(), hex(&x.d[..x.d.len().min(24)]))).collect();
    format!("[{}]", s.join(" "))
}
// error messages carry a free text
fn cmp(got: &[M], want: &[M], what: &str) {
    let ok = got.len() == want.len()
        && got.iter().zip(want).all(|(a, b)| a.t == b.t && a.c == b.c && (a.t == 2 || a.t == 3 || (a.p == b.p && a.d == b.d)));
    ensure!(ok, "{what}: the server sent {} instead of {}", show(got), show(want));
}
const ERR_UNIDENT: u8 = 0;
fn fatal(c: u8) -> M {
    m(2, c, 0, b"")
}
fn nonfatal(c: u8) -> M {
    m(3, c, 0, b"")
}

// ---- a device that writes down what happens to it --------------------------------------------------------------------
#[derive(Clone, PartialEq, Debug)]
enum Ev {
    Exec(Vec<u8>),
    Trigger,
    Clear,
}
#[derive(Default)]
struct DevState {
    log: Vec<Ev>,
    remote: bool,
    lockout: bool,
    stb: u8,
}
#[derive(Clone, Default)]
struct Rec(Arc<Mutex<DevState>>);
fn hash(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf2_9ce4_8422_2325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100_0000_01b3))
}
fn resp(cmd: &[u8]) -> Option<Vec<u8>> {
    let h = hash(cmd) >> 7;
    let n = match h % 6 {
        0 => return None,
        5 => return Some([&b"\n"[..], b"\r\n", b"\0", b"0", b" \n", b"1\n\n", b"\n1"][(h >> 8) as usize % 7].to_vec()),
        1 => 1 + (h >> 8) % 5,
        2 => 1 + (h >> 8) % 700,
        3 => 256 * (1 + (h >> 8) % 3),
        _ => 16,
    } as usize;
    Some((0..n).map(|i| (h >> (i % 8)) as u8 ^ i as u8).collect())
}
impl Device for Rec {
    fn execute(&mut self, cmd: &[u8]) -> Option<Vec<u8>> {
        self.0.lock().unwrap().log.push(Ev::Exec(cmd.to_vec()));
        resp(cmd)
    }
    fn get_status(&mut self) -> Result<u8, DeviceError> {
        Ok(self.0.lock().unwrap().stb)
    }
    fn trigger(&mut self, s: Source) -> Result<(), DeviceError> {
        ensure!(s == Source::Bus, "trigger with another source than the bus: {s:?}");
        self.0.lock().unwrap().log.push(Ev::Trigger);
        Ok(())
    }
    fn clear(&mut self) -> Result<(), DeviceError> {
        self.0.lock().unwrap().log.push(Ev::Clear);
        Ok(())
    }
    fn set_remote(&mut self, r: bool) -> Result<(), DeviceError> {
        self.0.lock().unwrap().remote = r;
        Ok(())
    }
    fn set_local_lockout(&mut self, e: bool) {
        self.0.lock().unwrap().lockout = e;
    }
}

type Srq = futures::channel::mpsc::UnboundedReceiver<u8>;
type SrqTx = futures::channel::mpsc::UnboundedSender<u8>;

type Boxed = Box<dyn Device + Send>;
// the same configuration, set up with the functions that there are for it
fn built(c: &ServerConfig) -> ServerConfig {
    let d = ServerConfig::default().vendor_id(c.vendor_id).max_message_size(c.max_message_size).max_num_sessions(c.max_num_sessions);
    let d = if c.prefer_overlap { d.prefer_overlap() } else { d.prefer_synchronized() };
    match &c.short_idn {
        Some(i) => d.short_idn(i),
        None => d,
    }
}
struct World {
    ex: Exec,
    srv: Arc<Server<Boxed>>,
    devs: Vec<(String, Rec)>,
    cfg: ServerConfig,
}
struct Conn {
    pipe: Pipe,
    task: usize,
    srq: Option<SrqTx>,
}
impl World {
    fn new(cfg: ServerConfig, names: &[&str]) -> World {
        let mut b = ServerBuilder::new(built(&cfg));
        let mut devs = vec![];
        for n in names {
            let d = Rec::default();
            b = b.device(n.to_string(), Arc::new(lxi_device::lock::Mutex::new(Box::new(d.clone()) as Boxed)), SharedLock::new());
            devs.push((n.to_string(), d));
        }
        World { ex: Exec::default(), srv: b.build(), devs, cfg }
    }
    fn connect(&mut self, chunk: usize) -> Conn {
        let pipe = Pipe::new(chunk);
        let (tx, rx) = futures::channel::mpsc::unbounded();
        let (s, p) = (self.srv.clone(), pipe.clone());
        let task = self.ex.spawn(async move {
            let _ = s.handle_session("peer".to_string(), p, rx).await;
        });
        Conn { pipe, task, srq: Some(tx) }
    }
    fn say(&mut self, c: &Conn, x: &M) -> Vec<M> {
        c.pipe.push(&enc(x));
        self.ex.run();
        parse(&c.pipe.take_out())
    }
    // a sync and an async channel; returns the session id
    fn session(&mut self, sub: &[u8], chunk: usize) -> (Conn, Conn, u16) {
        let s = self.connect(chunk);
        let r = self.say(&s, &m(0, 0, 0x0200_4242, sub));
        ensure!(r.len() == 1 && r[0].t == 1, "Initialize was answered with {}", show(&r));
        let id = (r[0].p & 0xffff) as u16;
        let a = self.connect(chunk);
        let r = self.say(&a, &m(17, 0, id as u32, b""));
        ensure!(r.len() == 1 && r[0].t == 18, "AsyncInitialize was answered with {}", show(&r));
        (s, a, id)
    }
    fn dev(&self, i: usize) -> std::sync::MutexGuard<'_, DevState> {
        self.devs[i].1 .0.lock().unwrap()
    }
}

// ---- P05, P06 --------------------------------------------------------------------------------------------------------
const NT: u8 = 39;
fn p05(c: &mut Ctx) {
    c.rule = "random message sequences, encoded by an independent encoder, split at random points and cut at random points, read back and re-encoded".into();
    while c.more() {
        let n = 1 + c.rng.us(4);
        let maxlen = *c.rng.pick(&[0u64, 1, 10, 64, 1 << 20]);
        let mut all = vec![];
        let mut msgs = vec![];
        for _ in 0..n {
            let t = if c.rng.one_in(5) { c.rng.byte() } else { c.rng.below(NT as u64) as u8 };
            let l = match c.rng.below(5) {
                0 => 0,
                1 => maxlen.min(64) as usize,
                2 => (maxlen.min(64) + 1) as usize,
                _ => c.rng.us(80),
            };
            let mut x = enc(&M { t, c: c.rng.byte(), p: c.rng.u32(), d: vec![] });
            let d = c.rng.bytes(l);
            x[8..16].copy_from_slice(&(l as u64).to_be_bytes());
            x.extend(&d);
            let mut bad = false;
            if c.rng.one_in(20) {
                x[c.rng.us(2)] ^= 1 << c.rng.us(8);
                bad = true;
            }
            msgs.push((t, x[3], u32::from_be_bytes(x[4..8].try_into().unwrap()), d, bad));
            all.extend(x);
        }
        let cut = if c.rng.flip() { all.len() } else { c.rng.us(all.len()) };
        let chunk = *c.rng.pick(&[0usize, 1, 2, 3, 7, 16, 17]);
        c.case(format!("maxlen={maxlen} chunk={chunk} cut={cut} bytes={}", hex(&all)));
        let mut pipe = Pipe::new(chunk);
        pipe.push(&all[..cut]);
        pipe.close();
        let mut off = 0usize;
        for (t, ctl, p, d, bad) in &msgs {
            let r = block(Message::read_from(&mut pipe, maxlen));
            let r = match r {
                Some(r) => r,
                None => fail("reading a message never finished"),
            };
            let end = off + 16 + d.len();
            if cut < off + 16 {
                ensure!(r.is_err(), "a message cut inside its header was reported as {:?}", r.is_ok());
                break;
            }
            if *bad {
                match r {
                    Ok(Err(Error::Fatal(FatalErrorCode::PoorlyFormattedMessageHeader, _))) => {}
                    x => fail(&format!("a wrong prologue gave {x:?}")),
                }
                break;
            }
            if cut < end {
                ensure!(r.is_err(), "a message cut short was reported as complete or as a protocol error: {r:?}");
                break;
            }
            let known = *t < NT || *t >= 128;
            match r {
                Ok(Ok(x)) => {
                    ensure!(d.len() as u64 <= maxlen, "a message above the limit was accepted");
                    ensure!(known, "undefined type {t} accepted");
                    ensure!(x.message_type.get_message_type() == *t && x.control_code == *ctl && x.message_parameter == *p && x.payload == *d, "received {x:?}");
                    let mut o = Pipe::new(chunk);
                    ensure!(matches!(block(x.write_to(&mut o)), Some(Ok(()))), "write failed");
                    ensure!(o.take_out() == all[off..end], "sent message differs from the received one");
                }
                Ok(Err(Error::NonFatal(NonFatalErrorCode::MessageTooLarge, _))) => ensure!(d.len() as u64 > maxlen, "message within the limit refused as too large"),
                Ok(Err(Error::NonFatal(NonFatalErrorCode::UnrecognizedMessageType, _))) => ensure!(!known && d.len() as u64 <= maxlen, "type {t} was not recognized"),
                x => fail(&format!("unexpected result {x:?}")),
            }
            ensure!(pipe.left() == cut - end, "the stream is not at the next message: {} bytes left, expected {}", pipe.left(), cut - end);
            off = end;
        }
    }
}
fn p06(c: &mut Ctx) {
    c.rule = "all 256 codes of message types, fatal and non-fatal errors against IVI-6.1's tables".into();
    let names = "Initialize InitializeResponse FatalError Error AsyncLock AsyncLockResponse Data DataEnd DeviceClearComplete DeviceClearAcknowledge AsyncRemoteLocalControl AsyncRemoteLocalResponse Trigger Interrupted AsyncInterrupted AsyncMaximumMessageSize AsyncMaximumMessageSizeResponse AsyncInitialize AsyncInitializeResponse AsyncDeviceClear AsyncServiceRequest AsyncStatusQuery AsyncStatusResponse AsyncDeviceClearAcknowledge AsyncLockInfo AsyncLockInfoResponse GetDescriptors GetDescriptorsResponse StartTLS AsyncStartTLS AsyncStartTLSResponse EndTLS AsyncEndTLS AsyncEndTLSResponse GetSaslMechanismList GetSaslMechanismListResponse AuthenticationStart AuthenticationExchange AuthenticationResult";
    let names: Vec<&str> = names.split(' ').collect();
    for code in 0..=255u8 {
        c.case(format!("message type {code}"));
        match MessageType::from_message_type(code) {
            Some(t) => {
                ensure!(t.get_message_type() == code, "type {code} encodes back as {}", t.get_message_type());
                let want = if code < 128 { names.get(code as usize).map(|s| s.to_string()) } else { Some(format!("VendorSpecific({code})")) };
                ensure!(Some(format!("{t:?}")) == want, "type {code} is {t:?}");
            }
            None => ensure!(code as usize >= names.len() && code < 128, "type {code} rejected"),
        }
        c.case(format!("fatal error {code}"));
        let f = FatalErrorCode::from_error_code(code);
        ensure!(f.error_code() == code, "fatal error {code} encodes back as {}", f.error_code());
        let fl = ["UnidentifiedError", "PoorlyFormattedMessageHeader", "AttemptUseWithoutBothChannels", "InvalidInitialization", "MaximumClientsExceeded", "SecureConnectionFailed"];
        if let Some(n) = fl.get(code as usize) {
            ensure!(&format!("{f:?}") == n, "fatal error {code} is {f:?}");
        }
        c.case(format!("non-fatal error {code}"));
        let nf = NonFatalErrorCode::from_error_code(code);
        ensure!(nf.error_code() == code, "non-fatal error {code} encodes back as {}", nf.error_code());
        let nl = ["UnidentifiedError", "UnrecognizedMessageType", "UnrecognizedControlCode", "UnrecognizedVendorDefinedMessage", "MessageTooLarge", "AuthenticationFailed"];
        if let Some(n) = nl.get(code as usize) {
            ensure!(&format!("{nf:?}") == n, "non-fatal error {code} is {nf:?}");
        }
        c.case(format!("error messages of code {code}"));
        let x = Message::from(Error::Fatal(f, "why".to_string()));
        ensure!(x.message_type == MessageType::FatalError && x.control_code == code, "fatal error message {x:?}");
        let x = Message::from(Error::NonFatal(nf, "why".to_string()));
        ensure!(x.message_type == MessageType::Error && x.control_code == code, "non-fatal error message {x:?}");
    }
    // the same codes as a client sees them
    while c.more() {
        let code = c.rng.byte();
        let mut w = World::new(ServerConfig { max_message_size: 64, ..Default::default() }, &["hislip0"]);
        let (s, a, _) = w.session(b"", 0);
        c.case(format!("message type {code} on an open session"));
        let big = c.rng.one_in(4);
        let d = vec![7u8; if big { 65 } else { 8 }];
        let asy = c.rng.flip();
        let got = w.say(if asy { &a } else { &s }, &m(code, 0, 0, &d));
        let code_known = (code as usize) < names.len() || code >= 128;
        let want = if big {
            Some(nonfatal(4))
        } else if !code_known {
            Some(nonfatal(1))
        } else if code >= 128 {
            Some(nonfatal(3))
        } else {
            None
        };
        if let Some(x) = want {
            cmp(&got, &[x], "error message");
        }
    }
}

// ---- P07 -------------------------------------------------------------------------------------------------------------
fn p07(c: &mut Ctx) {
    c.rule = "random opening, closing and looking up of sessions against a set of live ids, including wrap-around of the id counter".into();
    let mut first = true;
    while c.more() {
        let max = if first { 40_000 } else { *c.rng.pick(&[0usize, 1, 2, 3, 7, 64]) };
        let inner = InnerServer::<Rec>::new(max);
        let mut g = block(inner.lock()).unwrap();
        let lock = SharedLock::new();
        let dev = Arc::new(lxi_device::lock::Mutex::new(Rec::default()));
        let mut live: BTreeMap<u16, _> = BTreeMap::new();
        let mut ops = format!("max={max}");
        c.case(ops.clone());
        let steps = if first { 70_000 } else { 40 + c.rng.us(60) };
        // long runs with few live sessions take the counter around
        let wrap = !first && c.rng.one_in(6);
        let steps = if wrap { 33_500 } else { steps };
        for i in 0..steps {
            let k = c.rng.below(10);
            if first && i < 33_000 || k < if wrap { 5 } else { 6 } {
                let h = LockHandle::new(lock.clone(), dev.clone());
                let r = g.create_session(crate::common::Protocol(0x100), h);
                match r {
                    Ok((id, s, d)) => {
                        ensure!(live.len() < max, "a session was opened although {} of {max} are live", live.len());
                        ensure!(!live.contains_key(&id), "new session has the id {id} of a live session");
                        live.insert(id, (s, d));
                    }
                    Err(Error::Fatal(FatalErrorCode::MaximumClientsExceeded, _)) => {
                        // ids are even
                        ensure!(live.len() >= max || live.len() >= 32_768, "refused with {} of {max} sessions live", live.len());
                        if live.len() >= 32_768 && !live.is_empty() && c.rng.flip() {
                            let k = *live.keys().nth(c.rng.us(live.len())).unwrap();
                            live.remove(&k);
                        }
                    }
                    Err(x) => fail(&format!("refused with {x:?}")),
                }
                if !first && !wrap {
                    ops.push_str(" open");
                }
            } else if k < if wrap { 9 } else { 8 } || first {
                if !live.is_empty() {
                    let k = *live.keys().nth(if live.len() > 2000 { c.rng.us(3) } else { c.rng.us(live.len()) }).unwrap();
                    live.remove(&k);
                    if !first && !wrap {
                        ops.push_str(&format!(" close({k})"));
                    }
                }
            } else {
                let id = if c.rng.flip() && !live.is_empty() { *live.keys().next().unwrap() } else { c.rng.us(20) as u16 };
                let r = g.get_session(id);
                match (r, live.get(&id)) {
                    (Some((s, d)), Some((s2, d2))) => ensure!(Arc::ptr_eq(&s, s2) && Arc::ptr_eq(&d, d2), "looking up {id} gave another session"),
                    (None, None) => {}
                    (a, b) => fail(&format!("looking up {id}: found {} but live is {}", a.is_some(), b.is_some())),
                }
                if !first && !wrap {
                    ops.push_str(&format!(" get({id})"));
                }
            }
            if i % 16 == 0 && !first {
                c.case(ops.clone());
            }
        }
        drop(g);
        first = false;
        // and through the server itself
        let max = c.rng.us(4);
        let mut w = World::new(ServerConfig { max_num_sessions: max, ..Default::default() }, &["hislip0"]);
        let mut conns: Vec<(Conn, Option<Conn>, u16)> = vec![];
        let mut ops = format!("server max={max}");
        for _ in 0..30 {
            if c.rng.flip() {
                ops.push_str(" open");
                c.case(ops.clone());
                let s = w.connect(0);
                let r = w.say(&s, &m(0, 0, 0x0100_0000, b""));
                if conns.len() >= max {
                    cmp(&r, &[fatal(4)], "session above the limit");
                    ensure!(w.ex.done(s.task), "the refused connection stays open");
                } else {
                    ensure!(r.len() == 1 && r[0].t == 1, "session {} of {max} answered with {}", conns.len() + 1, show(&r));
                    let id = (r[0].p & 0xffff) as u16;
                    ensure!(conns.iter().all(|x| x.2 != id), "new session has the id {id} of a live session");
                    let a = if c.rng.flip() {
                        let a = w.connect(0);
                        let r = w.say(&a, &m(17, 0, id as u32, b""));
                        ensure!(r.len() == 1 && r[0].t == 18, "AsyncInitialize answered with {}", show(&r));
                        Some(a)
                    } else {
                        None
                    };
                    conns.push((s, a, id));
                }
            } else if !conns.is_empty() {
                let i = c.rng.us(conns.len());
                ops.push_str(&format!(" close({})", conns[i].2));
                c.case(ops.clone());
                let (s, a, _) = conns.remove(i);
                s.pipe.close();
                if let Some(a) = a {
                    a.pipe.close();
                }
                w.ex.run();
            }
        }
    }
}

// ---- P08 -------------------------------------------------------------------------------------------------------------
fn p08(c: &mut Ctx) {
    c.rule = "random messages on fresh connections against the handshake of IVI-6.1".into();
    while c.more() {
        let overlap = c.rng.flip();
        let vendor = c.rng.u32() as u16;
        let mut cfg = ServerConfig { vendor_id: vendor, prefer_overlap: overlap, max_message_size: 1000, ..Default::default() };
        cfg.max_num_sessions = 8;
        let mut w = World::new(cfg, &["hislip0", "dev,1", "x", "Hislip0"]);
        let mut ops = format!("overlap={overlap} vendor={vendor:#x}");
        let mut open: Vec<(u16, Conn, Option<Conn>, bool, usize)> = vec![]; // id, sync, async, joined, device
        for _ in 0..8 {
            let conn = w.connect(c.rng.us(3) * 5);
            // messages before the initialization
            let mut dead = false;
            for _ in 0..c.rng.us(3) {
                let (x, want, end) = match c.rng.below(5) {
                    0 => (m(128 + c.rng.below(128) as u8, 1, 2, b"abc"), vec![nonfatal(3)], false),
                    1 => (m(2, c.rng.byte(), 0, &c.rng.bytes(4)), vec![], false),
                    2 => (m(3, c.rng.byte(), 0, &c.rng.bytes(4)), vec![], false),
                    3 => (m(60, 0, 0, b""), vec![nonfatal(1)], false),
                    _ => {
                        let mut t = c.rng.below(39) as u8;
                        if [0, 2, 3, 17].contains(&t) {
                            t = 7;
                        }
                        (m(t, c.rng.byte(), c.rng.u32(), &c.rng.bytes(8)), vec![fatal(3)], true)
                    }
                };
                ops.push_str(&format!(" pre{:?}", (x.t, x.c)));
                c.case(ops.clone());
                let r = w.say(&conn, &x);
                cmp(&r, &want, "before initialization");
                ensure!(w.ex.done(conn.task) == end, "the connection is {} after the message", if end { "still open" } else { "closed" });
                if end {
                    dead = true;
                    break;
                }
            }
            if dead {
                continue;
            }
            if c.rng.flip() {
                let sub: &[u8] = *c.rng.pick(&[&b""[..], b"hislip0", b"dev,1", b"x", b"nope", b"hislip", b"hislip0\0", b"\xff\xfe", b"HISLIP0", b"y", b" ", b"0", b" x", b"dev", b"Hislip0", b"x\n", b"hislip1"]);
                let ver = *c.rng.pick(&[0u16, 0x0100, 0x0101, 0x01ff, 0x0200, 0x0201, 0xffff]);
                let x = m(0, c.rng.byte(), (ver as u32) << 16 | c.rng.u32() & 0xffff, sub);
                ops.push_str(&format!(" init({ver:#x},{})", String::from_utf8_lossy(sub)));
                c.case(ops.clone());
                let r = w.say(&conn, &x);
                let dev = [&b"hislip0"[..], b"dev,1", b"x", b"Hislip0"].iter().position(|d| *d == if sub.is_empty() { &b"hislip0"[..] } else { sub });
                let known = dev.is_some();
                if known && open.len() < 8 {
                    ensure!(r.len() == 1 && r[0].t == 1 && r[0].d.is_empty(), "Initialize answered with {}", show(&r));
                    ensure!(r[0].c == overlap as u8, "InitializeResponse control code {}", r[0].c);
                    ensure!((r[0].p >> 16) as u16 == ver.min(0x0200), "negotiated protocol {:#x} from {ver:#x}", r[0].p >> 16);
                    let id = (r[0].p & 0xffff) as u16;
                    ensure!(open.iter().all(|o| o.0 != id), "id {id} given twice");
                    ensure!(!w.ex.done(conn.task), "connection closed");
                    // before the second channel is there, nothing reaches the device
                    open.push((id, conn, None, false, dev.unwrap()));
                } else {
                    cmp(&r, &[fatal(if known { 4 } else { 3 })], "Initialize");
                    ensure!(w.ex.done(conn.task), "the connection stays open");
                }
            } else {
                let id = if !open.is_empty() && c.rng.below(4) > 0 { open[c.rng.us(open.len())].0 } else { c.rng.u32() as u16 };
                // the upper half of the parameter is the vendor's
                let upper = if c.rng.flip() { c.rng.u32() & 0xffff_0000 } else { 0 };
                ops.push_str(&format!(" asyncinit({id}, {upper:#x})"));
                c.case(ops.clone());
                let r = w.say(&conn, &m(17, c.rng.byte(), upper | id as u32, b""));
                match open.iter_mut().find(|o| o.0 == id) {
                    Some(o) if !o.3 => {
                        o.3 = true;
                        cmp(&r, &[m(18, 0, vendor as u32, b"")], "AsyncInitialize");
                        ensure!(!w.ex.done(conn.task), "connection closed");
                        // it is that session: a command sent on the synchronous channel now reaches its device
                        o.2 = Some(conn);
                    }
                    _ => {
                        cmp(&r, &[fatal(3)], "AsyncInitialize of an unknown or joined session");
                        ensure!(w.ex.done(conn.task), "the connection stays open");
                    }
                }
            }
        }
        for (_, s, a, joined, dev) in open.iter() {
            let before: Vec<usize> = w.devs.iter().map(|d| d.1 .0.lock().unwrap().log.len()).collect();
            let r = w.say(s, &m(12, 0, 0, b""));
            if *joined {
                cmp(&r, &[], "trigger on an initialized session");
                for (k, d) in w.devs.iter().enumerate() {
                    let n = d.1 .0.lock().unwrap().log.len() - before[k];
                    ensure!(n == (k == *dev) as usize, "the trigger of a session with device {dev} made {n} calls of device {k}");
                }
            } else {
                cmp(&r, &[fatal(2)], "trigger on a half-open session");
            }
            if let Some(a) = a {
                let r = w.say(a, &m(24, 0, 0, b""));
                cmp(&r, &[m(25, 0, 0, b"")], "lock info");
            }
        }
    }
}

// ---- P09, P10, P11, P12: conversations on open sessions against a reference -----------------------------------------------
#[derive(Default, Clone, Debug)]
struct LockModel {
    key: Vec<u8>,
    hs: Vec<bool>,
    he: Vec<bool>,
}
impl LockModel {
    fn num(&self) -> u32 {
        self.hs.iter().filter(|x| **x).count() as u32
    }
    fn excl(&self) -> bool {
        self.he.iter().any(|x| *x)
    }
    fn can(&self, i: usize) -> bool {
        self.he[i] || (!self.excl() && (self.hs[i] || self.num() == 0))
    }
    fn acquire(&mut self, i: usize, k: &[u8]) -> bool {
        if k.is_empty() {
            let ok = !self.excl() && (self.num() == 0 || self.hs[i]);
            if ok {
                self.he[i] = true;
            }
            ok
        } else {
            let ok = !self.hs[i] && ((self.num() == 0 && !self.excl()) || (self.num() > 0 && self.key == k));
            if ok {
                self.hs[i] = true;
                self.key = k.to_vec();
            }
            ok
        }
    }
}
struct Sess {
    s: Conn,
    a: Conn,
    id: u16,
    buf: Vec<u8>,
    pend_clear: bool,
    in_clear: bool,
    max: u64,
    queue: VecDeque<M>,
    want_s: Vec<M>,
    want_a: Vec<M>,
    srq_bit: bool,
    news: Vec<u8>,
    enable_remote: bool,
    dead: bool,
    waiting: Option<Vec<u8>>,
}
struct Talk {
    w: World,
    ss: Vec<Sess>,
    lk: LockModel,
    log: Vec<Vec<Ev>>,
    remote: bool,
    lockout: bool,
    idn: Option<Vec<u8>>,
    ops: String,
    prop: String,
}
impl Talk {
    fn new(c: &mut Ctx, n: usize) -> Talk {
        let idn = if c.rng.one_in(3) { Some(b"ACME,\x0042".to_vec()) } else { None };
        let cfg = ServerConfig { prefer_overlap: c.rng.flip(), short_idn: idn.clone(), max_message_size: 4096 + c.rng.below(3), ..Default::default() };
        let mut w = World::new(cfg, &["hislip0"]);
        let mut ss = vec![];
        for _ in 0..n {
            let (s, a, id) = w.session(b"", c.rng.us(3) * 9);
            ss.push(Sess { s, a, id, buf: vec![], pend_clear: false, in_clear: false, max: 256, queue: VecDeque::new(), want_s: vec![], want_a: vec![], srq_bit: false, news: vec![], enable_remote: true, dead: false, waiting: None });
        }
        let ops = format!("sessions={n} overlap={} short_idn={} max={}", w.cfg.prefer_overlap, idn.is_some(), w.cfg.max_message_size);
        Talk { w, ss, lk: LockModel { key: vec![], hs: vec![false; n], he: vec![false; n] }, log: vec![vec![]; n], remote: false, lockout: false, idn, ops, prop: c.prop.clone() }
    }
    // what session i makes of the messages that wait on its synchronous channel
    fn sync_model(&mut self, i: usize) {
        loop {
            let can = self.lk.can(i);
            let overlap_ack = |x: &M| m(9, x.c & 1, 0, b"");
            let s = &mut self.ss[i];
            if s.dead {
                return;
            }
            let x = match s.queue.front() {
                Some(x) => x.clone(),
                None => return,
            };
            if s.pend_clear && !s.in_clear {
                s.pend_clear = false;
                s.in_clear = true;
                s.buf.clear();
            }
            if s.in_clear {
                s.queue.pop_front();
                if x.d.len() as u64 > self.w.cfg.max_message_size {
                    s.want_s.push(nonfatal(4));
                } else if x.t == 8 {
                    if can {
                        self.log[i].push(Ev::Clear);
                    }
                    s.in_clear = false;
                    s.want_s.push(overlap_ack(&x));
                } else if x.t >= 39 && x.t < 128 {
                    s.want_s.push(nonfatal(1));
                }
                continue;
            }
            if !can {
                return;
            }
            s.queue.pop_front();
            if x.d.len() as u64 > self.w.cfg.max_message_size {
                s.want_s.push(nonfatal(4));
                continue;
            }
            match x.t {
                6 | 7 => {
                    s.buf.extend(&x.d);
                    if x.t == 7 {
                        let cmd = std::mem::take(&mut s.buf);
                        let r = if cmd.eq_ignore_ascii_case(b"*idn?") && self.idn.is_some() {
                            self.idn.clone()
                        } else {
                            self.log[i].push(Ev::Exec(cmd.clone()));
                            resp(&cmd)
                        };
                        if let Some(r) = r {
                            let k = s.max.max(1).min(1 << 30) as usize;
                            let n = (r.len() + k - 1) / k;
                            for (j, ch) in r.chunks(k).enumerate() {
                                s.want_s.push(m(if j + 1 == n { 7 } else { 6 }, 0, x.p, ch));
                            }
                        }
                    }
                }
                12 => self.log[i].push(Ev::Trigger),
                8 => s.want_s.push(nonfatal(0)),
                2 | 3 | 26 => {}
                28 | 31 | 34 | 36 | 37 => {
                    s.want_s.push(fatal(5));
                    s.dead = true;
                }
                t if t >= 128 => s.want_s.push(nonfatal(3)),
                t if t >= 39 => s.want_s.push(nonfatal(1)),
                _ => s.want_s.push(nonfatal(0)),
            }
            if s.dead {
                self.lk_dead(i);
            }
        }
    }
    fn lk_dead(&mut self, _i: usize) {}
    fn settle(&mut self) {
        for i in 0..self.ss.len() {
            self.sync_model(i);
        }
    }
    fn sync(&mut self, i: usize, x: M) {
        self.ss[i].s.pipe.push(&enc(&x));
        self.ss[i].queue.push_back(x);
    }
    fn check(&mut self) {
        self.w.ex.run();
        self.settle();
        let p = self.prop.clone();
        let keep = |v: Vec<M>, f: &dyn Fn(&M) -> bool| -> Vec<M> { v.into_iter().filter(|x| f(x)).collect() };
        for (i, s) in self.ss.iter_mut().enumerate() {
            let got = parse(&s.s.pipe.take_out());
            let want = std::mem::take(&mut s.want_s);
            let what = format!("session {i}, synchronous channel");
            match p.as_str() {
                // a response may be sent in any split that obeys the limit: compare contents, limits, ids and markers
                "P10" => {
                    let f = |x: &M| x.t == 6 || x.t == 7;
                    cmp_data(&keep(got, &f), &keep(want, &f), s.max, &what)
                }
                "P11" => {
                    let f = |x: &M| x.t != 6 && x.t != 7;
                    cmp(&keep(got, &f), &keep(want, &f), &what)
                }
                _ => {}
            }
            let mut got = parse(&s.a.pipe.take_out());
            let want = std::mem::take(&mut s.want_a);
            let what = format!("session {i}, asynchronous channel");
            s.service_requests(i, &mut got, p == "P12");
            match p.as_str() {
                "P11" => {
                    let f = |x: &M| x.t == 23;
                    cmp(&keep(got, &f), &keep(want, &f), &what)
                }
                "P12" => {
                    ensure!(s.srq_bit || s.news.is_empty(), "session {i}: a status change was not announced");
                    cmp(&got, &want, &what)
                }
                _ => {}
            }
            if s.dead {
                ensure!(self.w.ex.done(s.s.task), "session {i}: the synchronous channel stays open after a fatal error");
            } else {
                ensure!(!self.w.ex.done(s.s.task) && !self.w.ex.done(s.a.task), "session {i}: a channel was closed");
            }
        }
        let d = self.w.dev(0);
        // commands of different sessions that are released at the same time may interleave in any order
        let f = |l: &Vec<Ev>| -> Vec<Ev> { l.iter().filter(|x| p == "P11" || p == "P09" && **x != Ev::Clear).cloned().collect() };
        let (seen, want): (Vec<Ev>, Vec<Vec<Ev>>) = (f(&d.log), self.log.iter().map(f).collect());
        let pos = vec![0; want.len()];
        ensure!(
            seen.len() == want.iter().map(|x| x.len()).sum::<usize>() && merged(&seen, &want, pos),
            "the device saw {} instead of {}",
            short(&seen),
            want.iter().map(|x| short(x)).collect::<Vec<_>>().join(" || ")
        );
        if p == "P12" {
            ensure!(d.remote == self.remote && d.lockout == self.lockout, "device remote={} lockout={} instead of {} {}", d.remote, d.lockout, self.remote, self.lockout);
        }
        drop(d);
        self.log.iter_mut().for_each(|x| x.clear());
        self.w.dev(0).log.clear();
    }
}
fn short(l: &[Ev]) -> String {
    let v: Vec<String> = l.iter().map(|e| match e { Ev::Exec(b) => format!("exec({}:{})", b.len(), hex(&b[..b.len().min(20)])), x => format!("{x:?}") }).collect();
    format!("[{}]", v.join(" "))
}
// is `a` an interleaving of what each session made the device do?
fn merged(a: &[Ev], b: &[Vec<Ev>], pos: Vec<usize>) -> bool {
    if a.is_empty() {
        return true;
    }
    for k in 0..b.len() {
        if b[k].get(pos[k]) == Some(&a[0]) {
            let mut p = pos.clone();
            p[k] += 1;
            if merged(&a[1..], b, p) {
                return true;
            }
        }
    }
    false
}
fn cmp_data(got: &[M], want: &[M], max: u64, what: &str) {
    // joins runs of Data..DataEnd with one message id
    fn join(v: &[M], max: Option<u64>, what: &str) -> Vec<M> {
        let mut o: Vec<M> = vec![];
        let mut open = false;
        for x in v {
            if x.t == 6 || x.t == 7 {
                if let Some(k) = max {
                    ensure!(x.d.len() as u64 <= k.max(1), "{what}: a payload of {} bytes, the client's limit is {k}", x.d.len());
                }
                if open {
                    let l = o.last_mut().unwrap();
                    if l.p != x.p {
                        fail(&format!("{what}: parts of one response have the message ids {:#x} and {:#x}", l.p, x.p));
                    }
                    l.d.extend(&x.d);
                    l.t = x.t;
                } else {
                    o.push(x.clone());
                }
                open = x.t == 6;
            } else {
                ensure!(!open, "{what}: a response has no end");
                o.push(x.clone());
            }
        }
        ensure!(!open, "{what}: a response has no end");
        o
    }
    let g = join(got, Some(max), what);
    let w = join(want, None, what);
    cmp(&g, &w, what);
}

fn talk(c: &mut Ctx, focus: &str) {
    let n = if focus == "P12" { 1 + c.rng.us(3) } else { 1 + c.rng.us(2) };
    let mut t = Talk::new(c, n);
    let steps = 3 + c.rng.us(25);
    for _ in 0..steps {
        let i = c.rng.us(n);
        if t.ss[i].dead {
            break;
        }
        let w = match focus {
            "P09" => [60, 12, 4, 8, 6, 0],
            "P10" => [60, 4, 18, 4, 6, 0],
            "P11" => [40, 8, 4, 36, 6, 0],
            _ => [12, 4, 10, 6, 60, 8],
        };
        let mut k = c.rng.below(w.iter().sum::<u64>());
        let mut which = 0;
        while k >= w[which] {
            k -= w[which];
            which += 1;
        }
        // while another session's lock blocks the synchronous channel the asynchronous one is still served
        match which {
            0 => {
                // one or several data messages at once
                for _ in 0..1 + c.rng.us(3) {
                    let end = c.rng.flip();
                    let d = match c.rng.below(8) {
                        0 => b"*idn?".to_vec(),
                        4 | 5 => c.rng.text(40),
                        1 => b"*IDN?".to_vec(),
                        2 => vec![],
                        3 => b"*IDN?\n".to_vec(),
                        _ => {
                            let l = c.rng.us(40);
                            c.rng.bytes(l)
                        }
                    };
                    let big = c.rng.one_in(25);
                    let d = if big { vec![1u8; 4096 + c.rng.us(6)] } else { d };
                    let x = M { t: if end { 7 } else { 6 }, c: c.rng.below(2) as u8, p: c.rng.u32(), d };
                    t.ops.push_str(&format!(" s{i}:{}({}:{})", if end { "DataEnd" } else { "Data" }, x.d.len(), hex(&x.d[..x.d.len().min(16)])));
                    t.sync(i, x);
                }
            }
            1 => {
                let ty = match c.rng.below(8) {
                    0..=3 => 12u8,
                    4 => 8,
                    5 => 128 + c.rng.below(128) as u8,
                    6 => *c.rng.pick(&[2u8, 3, 26, 1, 9, 13, 20, 60, 127]),
                    _ => {
                        if c.rng.one_in(12) {
                            *c.rng.pick(&[28u8, 31, 34, 36, 37])
                        } else {
                            12
                        }
                    }
                };
                let x = M { t: ty, c: c.rng.byte(), p: c.rng.u32(), d: c.rng.bytes(3) };
                t.ops.push_str(&format!(" s{i}:type{ty}"));
                t.sync(i, x);
            }
            2 => {
                let size = *c.rng.pick(&[0u64, 1, 2, 5, 16, 255, 256, 257, 1 << 20, u64::MAX, 1 << 32, (1 << 32) + 3]);
                t.ops.push_str(&format!(" a{i}:MaxSize({size})"));
                if t.ss[i].waiting.is_none() {
                    t.ss[i].max = size;
                    t.ss[i].a.pipe.push(&enc(&m(15, 0, 0, &size.to_be_bytes())));
                    let v = t.w.cfg.max_message_size.to_be_bytes();
                    t.ss[i].want_a.push(m(16, 0, 0, &v));
                }
            }
            3 => {
                if c.rng.below(4) > 0 || t.ss[i].in_clear || t.ss[i].pend_clear {
                    if t.ss[i].in_clear || t.ss[i].pend_clear {
                        for _ in 0..c.rng.us(3) {
                            let x = M { t: *c.rng.pick(&[6u8, 7, 12, 70, 200]), c: 0, p: 9, d: c.rng.bytes(5) };
                            t.ops.push_str(&format!(" s{i}:stale{}", x.t));
                            t.sync(i, x);
                        }
                        let ctl = c.rng.byte();
                        t.ops.push_str(&format!(" s{i}:DeviceClearComplete({ctl})"));
                        t.sync(i, m(8, ctl, 0, b""));
                    } else {
                        t.ops.push_str(&format!(" a{i}:AsyncDeviceClear"));
                        t.ss[i].pend_clear = true;
                        t.ss[i].a.pipe.push(&enc(&m(19, 0, 0, b"")));
                        let f = t.w.cfg.prefer_overlap as u8;
                        t.ss[i].want_a.push(m(23, f, 0, b""));
                    }
                }
            }
            4 => {
                if t.ss[i].waiting.is_some() {
                    continue;
                }
                match c.rng.below(8) {
                    0 | 1 => {
                        let key: &[u8] = *c.rng.pick(&[&b""[..], b"k", b"k2", b"k\0", b"\0", b"k\0\0", b"\0k", b"\0k\0", b" k", b"k ", b"K"]);
                        let eff: Vec<u8> = { let mut v = key.to_vec(); while v.last() == Some(&0) { v.pop(); } v };
                        t.ops.push_str(&format!(" a{i}:Lock({})", hex(key)));
                        let held = t.lk.he[i] || t.lk.hs[i];
                        let he = t.lk.he[i];
                        let ok = t.lk.acquire(i, &eff);
                        // a request that can be answered at once is, whatever its time limit
                        let limit = if (ok || he) && c.rng.below(2) == 0 { 3_600_000 } else { 0 };
                        t.ss[i].a.pipe.push(&enc(&m(4, 1, limit, key)));
                        let r = if ok { 1 } else if held { 3 } else { 0 };
                        t.ss[i].want_a.push(m(5, r, 0, b""));
                        // a request for something already held may be reported as failure or error
                        if !ok && held {
                            t.w.ex.run();
                            let got = parse(&t.ss[i].a.pipe.take_out());
                            let want = std::mem::take(&mut t.ss[i].want_a);
                            ensure!(got.len() == want.len() && got.last().map(|x| x.t == 5 && (x.c == 0 || x.c == 3)) == Some(true), "repeated lock answered with {}", show(&got));
                            cmp(&got[..got.len() - 1], &want[..want.len() - 1], "asynchronous channel");
                        }
                    }
                    2 | 3 => {
                        t.ops.push_str(&format!(" a{i}:Release"));
                        t.ss[i].a.pipe.push(&enc(&m(4, 0, 7, b"")));
                        let r = if t.lk.he[i] { 1 } else if t.lk.hs[i] { 2 } else { 3 };
                        t.lk.he[i] = false;
                        t.lk.hs[i] = false;
                        t.ss[i].want_a.push(m(5, r, 0, b""));
                    }
                    4 => {
                        let code = c.rng.below(9) as u8;
                        if code != 1 && code < 7 && !t.lk.can(i) {
                            continue; // waits for the lock
                        }
                        t.ops.push_str(&format!(" a{i}:RemoteLocal({code})"));
                        t.ss[i].a.pipe.push(&enc(&m(10, code, 3, b"")));
                        match code {
                            0 | 2 => {
                                t.ss[i].enable_remote = false;
                                t.remote = false;
                                t.lockout = false;
                            }
                            1 => t.ss[i].enable_remote = true,
                            3 => {
                                t.ss[i].enable_remote = true;
                                t.remote = true;
                            }
                            4 => {
                                t.ss[i].enable_remote = true;
                                t.lockout = true;
                            }
                            5 => {
                                t.ss[i].enable_remote = true;
                                t.lockout = true;
                                t.remote = true;
                            }
                            6 => t.remote = false,
                            _ => {}
                        }
                        t.ss[i].want_a.push(if code < 7 { m(11, 0, 0, b"") } else { nonfatal(2) });
                    }
                    5 => {
                        let stb = c.rng.byte();
                        t.ops.push_str(&format!(" a{i}:StatusQuery(stb={stb:#x})"));
                        t.w.dev(0).stb = stb;
                        t.check_ops(c);
                        t.ss[i].a.pipe.push(&enc(&m(21, 0, c.rng.u32(), b"")));
                        t.w.ex.run();
                        let mut got = parse(&t.ss[i].a.pipe.take_out());
                        // the answer ends what was announced; changes since then may be announced anew
                        if got.first().map(|x| x.t == 22) == Some(true) {
                            t.ss[i].srq_bit = false;
                        }
                        t.ss[i].service_requests(i, &mut got, c.prop == "P12");
                        if !t.ss[i].srq_bit {
                            t.ss[i].news.clear();
                        }
                        if c.prop != "P12" {
                            t.remote = t.w.dev(0).remote;
                            continue;
                        }
                        ensure!(got.len() == 1 && got[0].t == 22 && got[0].d.is_empty(), "status query answered with {}", show(&got));
                        ensure!(got[0].c & 0xef == stb & 0xef, "status byte {:#x} reported as {:#x}", stb, got[0].c);
                        if t.ss[i].enable_remote {
                            t.remote = t.w.dev(0).remote;
                        }
                    }
                    6 => {
                        t.ops.push_str(&format!(" a{i}:LockInfo"));
                        t.ss[i].a.pipe.push(&enc(&m(24, 0, 0, b"")));
                        let r = m(25, t.lk.excl() as u8, t.lk.num(), b"");
                        t.ss[i].want_a.push(r);
                    }
                    _ => {
                        let stb = c.rng.byte();
                        t.ops.push_str(&format!(" a{i}:status({stb:#x})"));
                        if let Some(tx) = &t.ss[i].a.srq {
                            tx.unbounded_send(stb).unwrap();
                        }
                        // a status change that arrives in the middle of the reception of a message
                        t.ss[i].news.push(stb);
                    }
                }
            }
            _ => {
                if t.ss[i].waiting.is_some() {
                    continue;
                }
                let ty = *c.rng.pick(&[6u8, 7, 12, 0, 1, 5, 8, 9, 13, 17, 28, 130, 255, 90, 2, 3]);
                t.ops.push_str(&format!(" a{i}:type{ty}"));
                t.ss[i].a.pipe.push(&enc(&m(ty, 0, 0, b"zz")));
                match ty {
                    2 | 3 => {}
                    x if x >= 128 => t.ss[i].want_a.push(nonfatal(3)),
                    _ => t.ss[i].want_a.push(nonfatal(1)),
                }
            }
        }
        t.check_ops(c);
    }
}
impl Talk {
    fn check_ops(&mut self, c: &mut Ctx) {
        c.case(self.ops.clone());
        self.check();
    }
}
impl Sess {
    // takes the service requests out of what came on the asynchronous channel: at most one until the next query
    fn service_requests(&mut self, i: usize, got: &mut Vec<M>, check: bool) {
        let srq: Vec<M> = got.iter().filter(|x| x.t == 20).cloned().collect();
        got.retain(|x| x.t != 20);
        if !check {
            return;
        }
        ensure!(srq.len() <= 1 && (srq.is_empty() || !self.srq_bit), "session {i}: service requests {} although one is outstanding: {}", show(&srq), self.srq_bit);
        if let Some(x) = srq.first() {
            ensure!(self.news.contains(&x.c), "session {i}: service request with the status {:#x}, which was not sent", x.c);
            self.srq_bit = true;
            // what was sent after it may still be queued
            let k = self.news.iter().position(|s| *s == x.c).unwrap_or(0);
            self.news.drain(..=k);
        }
    }
}

fn p12_waits(c: &mut Ctx) {
    // lock requests that have to wait: granted when the holder lets go, failure when the time is over
    let mut t = Talk::new(c, 2);
    let key: &[u8] = *c.rng.pick(&[&b""[..], b"k"]);
    let key2: &[u8] = *c.rng.pick(&[&b""[..], b"k2"]);
    let how = c.rng.below(4);
    t.ops = format!("wait key={} key2={} how={how}", hex(key), hex(key2));
    c.case(t.ops.clone());
    let r = t.w.say(&t.ss[0].a, &m(4, 1, 0, key));
    cmp(&r, &[m(5, 1, 0, b"")], "first lock");
    let data = c.rng.bytes(5);
    if how == 3 {
        let r = t.w.say(&t.ss[1].a, &m(4, 1, 30, key2));
        cmp(&r, &[], "lock request must wait");
        let end = Instant::now() + Duration::from_secs(20);
        loop {
            std::thread::sleep(Duration::from_millis(5));
            t.w.ex.run();
            let r = parse(&t.ss[1].a.pipe.take_out());
            if !r.is_empty() {
                cmp(&r, &[m(5, 0, 0, b"")], "lock request that ran out of time");
                break;
            }
            ensure!(Instant::now() < end, "a lock request with a 30 ms limit was not answered for 20 s");
        }
        let r = t.w.say(&t.ss[1].a, &m(24, 0, 0, b""));
        cmp(&r, &[m(25, key.is_empty() as u8, !key.is_empty() as u32, b"")], "lock info after a failed request");
        return;
    }
    let r = t.w.say(&t.ss[1].a, &m(4, 1, 3_600_000, key2));
    cmp(&r, &[], "lock request must wait");
    // commands wait for the lock as well
    let r = t.w.say(&t.ss[1].s, &m(7, 0, 1, &data));
    cmp(&r, &[], "command of a locked out session");
    ensure!(t.w.dev(0).log.is_empty(), "a locked out session reached the device");
    match how {
        0 => {
            let r = t.w.say(&t.ss[0].a, &m(4, 0, 0, b""));
            cmp(&r, &[m(5, if key.is_empty() { 1 } else { 2 }, 0, b"")], "release");
        }
        _ => {
            // the holder goes away
            t.ss[0].s.pipe.close();
            t.ss[0].a.pipe.close();
            t.w.ex.run();
        }
    }
    t.w.ex.run();
    let r = parse(&t.ss[1].a.pipe.take_out());
    cmp(&r, &[m(5, 1, 0, b"")], "waiting lock request after the release");
    ensure!(t.w.dev(0).log == vec![Ev::Exec(data.clone())], "after the release the device saw {:?}", short(&t.w.dev(0).log));
}
fn p09_half(c: &mut Ctx) {
    let mut w = World::new(ServerConfig::default(), &["hislip0"]);
    let s = w.connect(0);
    let _ = w.say(&s, &m(0, 0, 0x0100_0000, b""));
    let ty = *c.rng.pick(&[6u8, 7, 12]);
    c.case(format!("type {ty} before the asynchronous channel is there"));
    let r = w.say(&s, &m(ty, 0, 0, b"abc"));
    cmp(&r, &[fatal(2)], "before the second channel");
    ensure!(w.ex.done(s.task), "the session goes on");
    ensure!(w.dev(0).log.is_empty(), "the device saw {:?}", short(&w.dev(0).log));
}
fn p11_locked(c: &mut Ctx) {
    // a device clear reaches a session that is waiting for the lock; another session's device is not cleared by it
    let mut t = Talk::new(c, 2);
    t.ops = "clear of a locked out session".into();
    c.case(t.ops.clone());
    let r = t.w.say(&t.ss[0].a, &m(4, 1, 0, b""));
    cmp(&r, &[m(5, 1, 0, b"")], "lock");
    let pre = c.rng.flip();
    if pre {
        let r = t.w.say(&t.ss[1].s, &m(6, 0, 1, b"par"));
        cmp(&r, &[], "command of a locked out session");
    }
    let r = t.w.say(&t.ss[1].a, &m(19, 0, 0, b""));
    cmp(&r, &[m(23, t.w.cfg.prefer_overlap as u8, 0, b"")], "AsyncDeviceClear");
    let r = t.w.say(&t.ss[1].s, &m(7, 0, 2, b"tial"));
    cmp(&r, &[], "stale command");
    let ctl = c.rng.byte();
    let r = t.w.say(&t.ss[1].s, &m(8, ctl, 0, b""));
    cmp(&r, &[m(9, ctl & 1, 0, b"")], "DeviceClearComplete of a locked out session");
    ensure!(t.w.dev(0).log.is_empty(), "a locked out session reached the device: {}", short(&t.w.dev(0).log));
    let r = t.w.say(&t.ss[0].a, &m(4, 0, 0, b""));
    cmp(&r, &[m(5, 1, 0, b"")], "release");
    let r = t.w.say(&t.ss[1].s, &m(12, 0, 2, b""));
    cmp(&r, &[], "trigger");
    ensure!(t.w.dev(0).log == vec![Ev::Trigger], "the device saw {}", short(&t.w.dev(0).log));
    let r = t.w.say(&t.ss[1].s, &m(7, 0, 2, b"x"));
    ensure!(t.w.dev(0).log.last() == Some(&Ev::Exec(b"x".to_vec())), "the device saw {}", short(&t.w.dev(0).log));
    let _ = r;
}

// ---- P23 -------------------------------------------------------------------------------------------------------------
fn p23(c: &mut Ctx) {
    c.rule = "arbitrary bytes and half-valid messages on both channels in every state of a session".into();
    while c.more() {
        let max = *c.rng.pick(&[0u64, 16, 300, 5000, u64::MAX]);
        let mut cfg = ServerConfig { max_message_size: max, ..Default::default() };
        if c.rng.flip() {
            cfg.short_idn = Some(vec![]);
        }
        let mut w = World::new(cfg, &["hislip0"]);
        let mut conns = vec![];
        let mut ops = format!("max={max}");
        for _ in 0..1 + c.rng.us(3) {
            if c.rng.below(5) > 0 && max >= 16 {
                let (s, a, _) = w.session(b"", 0);
                conns.push(s);
                conns.push(a);
            } else {
                conns.push(w.connect(c.rng.us(2)));
            }
        }
        for _ in 0..1 + c.rng.us(30) {
            let i = c.rng.us(conns.len());
            let b = match c.rng.below(12) {
                0 => {
                    let l = c.rng.us(40);
                    c.rng.bytes(l)
                }
                1 => {
                    let mut x = enc(&M { t: c.rng.byte(), c: c.rng.byte(), p: c.rng.u32(), d: vec![] });
                    x[8..16].copy_from_slice(&[0xff; 8]);
                    for k in 0..c.rng.us(9) {
                        x[8 + k] = c.rng.byte();
                    }
                    x
                }
                _ => {
                    let t = if c.rng.one_in(8) { c.rng.byte() } else { c.rng.below(39) as u8 };
                    let l = *c.rng.pick(&[0usize, 1, 3, 4, 5, 7, 8, 9, 16, 50]);
                    let d = if c.rng.one_in(3) { vec![0; l] } else { c.rng.bytes(l) };
                    let cc = if c.rng.flip() { c.rng.below(8) as u8 } else { c.rng.byte() };
                    let p = if t == 4 { 0 } else if t == 17 { c.rng.below(12) as u32 } else { c.rng.u32() };
                    enc(&M { t, c: cc, p, d })
                }
            };
            ops.push_str(&format!(" {i}:{}", hex(&b)));
            c.case(ops.clone());
            conns[i].pipe.push(&b);
            if c.rng.below(3) > 0 {
                w.ex.run();
            }
            if c.rng.one_in(15) {
                if let Some(tx) = &conns[i].srq {
                    let _ = tx.unbounded_send(c.rng.byte());
                }
            }
            if c.rng.one_in(25) {
                conns[i].srq = None;
            }
            if c.rng.one_in(12) {
                conns[i].pipe.close();
                ops.push_str(&format!(" close{i}"));
            }
        }
        for x in &conns {
            x.pipe.close();
        }
        w.ex.run();
        for x in &conns {
            parse(&x.pipe.take_out());
        }
    }
}

pub fn main() {
    let mut c = Ctx::start();
    match c.prop.clone().as_str() {
        "P05" => p05(&mut c),
        "P06" => p06(&mut c),
        "P07" => p07(&mut c),
        "P08" => p08(&mut c),
        p @ ("P09" | "P10" | "P11" | "P12") => {
            c.rule = "random conversations of 1..3 sessions on both channels, every message sent and every call of the device compared with a reference".into();
            let mut k = 0u64;
            while c.more() {
                talk(&mut c, p);
                k += 1;
                if k % 7 == 0 {
                    match p {
                        "P09" => p09_half(&mut c),
                        "P11" => p11_locked(&mut c),
                        "P12" => p12_waits(&mut c),
                        _ => {}
                    }
                }
            }
        }
        "P23" => p23(&mut c),
        x => panic!("no harness for {x}"),
    }
    c.done()
}
