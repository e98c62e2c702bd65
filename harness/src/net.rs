// native harness: the VXI-11 and port mapper servers and clients over loopback sockets (P15..P20, P24..P27), and the raw
// socket and telnet servers (P21, P22, P27). RPC messages are encoded and parsed here, independently of the code under test.
#![allow(dead_code, unused_imports, unused_must_use)]
#[path = "common.rs"]
#[macro_use]
mod common_h;
use async_std::task::{block_on, spawn, JoinHandle};
use common_h::*;
use futures::task::{waker, ArcWake};
use futures::{AsyncRead, AsyncWrite};
use lxi_device::lock::{LockHandle, Mutex as AMutex, SharedLock, SpinMutex};
use lxi_device::status::Sender as StatusSender;
use lxi_device::trigger::Source;
use lxi_device::{Device, DeviceError};
use lxi_vxi11::client::portmapper::prelude::{Mapping, PortMapperClient};
use lxi_vxi11::server::portmapper::prelude::StaticPortMap;
use lxi_vxi11::server::vxi11::prelude::VxiServerBuilder;
use std::collections::BTreeMap;
use std::future::Future;
use std::io::{ErrorKind, Read, Write};
use std::net::{IpAddr, Ipv4Addr, SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::os::fd::{AsRawFd, FromRawFd};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};

const WAIT: Duration = Duration::from_secs(30);
const CORE: u32 = 0x0607AF;
const ASYNC: u32 = 0x0607B0;
const PMAP: u32 = 100000;

extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, val: *const u8, len: u32) -> i32;
    fn getrlimit(what: i32, lim: *mut [u64; 2]) -> i32;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
    fn socket(domain: i32, ty: i32, proto: i32) -> i32;
    fn dup(fd: i32) -> i32;
    #[link_name = "connect"]
    fn connect_(fd: i32, a: *const u8, len: u32) -> i32;
}
// no file can be opened until this is dropped
struct NoFiles([u64; 2]);
impl NoFiles {
    fn new() -> NoFiles {
        let mut l = [0u64; 2];
        unsafe {
            assert!(getrlimit(7, &mut l) == 0);
            // the lowest number that is free
            let n = dup(0);
            assert!(n >= 0);
            drop(std::fs::File::from_raw_fd(n));
            assert!(setrlimit(7, &[n as u64, l[1]]) == 0);
        }
        NoFiles(l)
    }
}
impl Drop for NoFiles {
    fn drop(&mut self) {
        unsafe { setrlimit(7, &self.0) };
    }
}
fn quickack(s: &TcpStream) {
    let one = 1i32;
    unsafe { setsockopt(s.as_raw_fd(), 6, 12, &one as *const i32 as *const u8, 4) };
}
// close with a reset instead of an orderly end
fn reset(s: TcpStream) {
    let l = [1i32, 0i32];
    unsafe { setsockopt(s.as_raw_fd(), 1, 13, l.as_ptr() as *const u8, 8) };
    drop(s)
}
fn connect(a: SocketAddr) -> TcpStream {
    let t = Instant::now();
    loop {
        match TcpStream::connect_timeout(&a, Duration::from_secs(5)) {
            Ok(s) => {
                s.set_nodelay(true).unwrap();
                s.set_read_timeout(Some(WAIT)).unwrap();
                s.set_write_timeout(Some(WAIT)).unwrap();
                return s;
            }
            Err(e) => {
                ensure!(t.elapsed() < WAIT, "nobody listens at {a}: {e}");
                std::thread::sleep(Duration::from_millis(5))
            }
        }
    }
}
// a port that nobody uses, and that is not given to anybody else by chance (outside of the ephemeral range)
fn free_port() -> u16 {
    static NEXT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    loop {
        let n = NEXT.fetch_add(1, Ordering::SeqCst) + std::process::id() * 137;
        let p = 15000 + (n % 16000) as u16;
        if TcpListener::bind(("127.0.0.1", p)).is_ok() {
            return p;
        }
    }
}
fn local(p: u16) -> SocketAddr {
    SocketAddr::from(([127, 0, 0, 1], p))
}
fn alisten() -> (async_std::net::TcpListener, SocketAddr) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap();
    (async_std::net::TcpListener::from(l), a)
}

// ---- XDR -------------------------------------------------------------------------------------------------------------
#[derive(Clone, Default)]
struct X(Vec<u8>);
impl X {
    fn u(mut self, v: u32) -> X {
        self.0.extend(v.to_be_bytes());
        self
    }
    fn o(mut self, b: &[u8]) -> X {
        self.0.extend((b.len() as u32).to_be_bytes());
        self.0.extend(b);
        while self.0.len() % 4 != 0 {
            self.0.push(0)
        }
        self
    }
    fn m(self, m: &Mapping) -> X {
        self.u(m.prog).u(m.vers).u(m.prot).u(m.port)
    }
}
fn x() -> X {
    X::default()
}
struct D<'a>(&'a [u8]);
impl<'a> D<'a> {
    fn u(&mut self) -> u32 {
        ensure!(self.0.len() >= 4, "a reply is too short");
        let v = u32::from_be_bytes(self.0[..4].try_into().unwrap());
        self.0 = &self.0[4..];
        v
    }
    fn o(&mut self) -> Vec<u8> {
        let n = self.u() as usize;
        let p = (n + 3) / 4 * 4;
        ensure!(self.0.len() >= p, "an opaque of {n} bytes is cut short");
        let v = self.0[..n].to_vec();
        ensure!(self.0[n..p].iter().all(|x| *x == 0), "padding is not zero");
        self.0 = &self.0[p..];
        v
    }
    fn end(&self, what: &str) {
        ensure!(self.0.is_empty(), "{what}: {} bytes too many in a reply: {}", self.0.len(), hex(self.0));
    }
}
fn call(xid: u32, prog: u32, vers: u32, pr: u32, args: &[u8]) -> Vec<u8> {
    let mut v = x().u(xid).u(0).u(2).u(prog).u(vers).u(pr).u(0).u(0).u(0).u(0).0;
    v.extend(args);
    v
}
fn frame(v: &[u8]) -> Vec<u8> {
    let mut r = (0x8000_0000u32 | v.len() as u32).to_be_bytes().to_vec();
    r.extend(v);
    r
}
#[derive(PartialEq, Clone, Debug)]
enum R {
    Success(Vec<u8>),
    ProgUnavail,
    ProgMismatch(u32, u32),
    ProcUnavail,
    Garbage,
    SysErr,
    RpcMismatch(u32, u32),
    AuthErr,
    Closed,
}
fn reply(xid: u32, b: &[u8]) -> R {
    let mut d = D(b);
    let got = d.u();
    ensure!(got == xid, "the reply to call {xid:#x} has the transaction id {got:#x}");
    ensure!(d.u() == 1, "the answer to a call is no reply: {}", hex(b));
    let r = match d.u() {
        0 => {
            ensure!(d.u() == 0 && d.o().is_empty(), "the verifier of a reply is not null: {}", hex(b));
            match d.u() {
                0 => return R::Success(d.0.to_vec()),
                1 => R::ProgUnavail,
                2 => R::ProgMismatch(d.u(), d.u()),
                3 => R::ProcUnavail,
                4 => R::Garbage,
                5 => R::SysErr,
                s => fail(&format!("unknown accept status {s}")),
            }
        }
        1 => match d.u() {
            0 => R::RpcMismatch(d.u(), d.u()),
            1 => {
                d.u();
                R::AuthErr
            }
            s => fail(&format!("unknown reject status {s}")),
        },
        s => fail(&format!("unknown reply status {s}")),
    };
    d.end("a refused call");
    r
}
struct Cl {
    s: TcpStream,
    xid: u32,
    frag: usize,
}
impl Cl {
    fn new(a: SocketAddr) -> Cl {
        Cl { s: connect(a), xid: 0x1000, frag: 0 }
    }
    // a record in fragments of at most `frag` bytes
    fn send(&mut self, v: &[u8]) -> bool {
        let mut b = vec![];
        if self.frag == 0 || v.is_empty() {
            b = frame(v)
        } else {
            let n = (v.len() + self.frag - 1) / self.frag;
            for (i, p) in v.chunks(self.frag).enumerate() {
                let last = if i + 1 == n { 0x8000_0000u32 } else { 0 };
                b.extend((last | p.len() as u32).to_be_bytes());
                b.extend(p)
            }
        }
        self.s.write_all(&b).is_ok()
    }
    fn recv(&mut self, what: &str) -> Option<Vec<u8>> {
        let mut out = vec![];
        loop {
            let mut h = [0u8; 4];
            quickack(&self.s);
            match self.s.read_exact(&mut h) {
                Ok(()) => (),
                Err(e) if e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::TimedOut => fail(&format!("{what}: no reply")),
                Err(_) => return None,
            }
            let l = u32::from_be_bytes(h);
            let n = (l & 0x7fff_ffff) as usize;
            ensure!(n <= 4 << 20, "{what}: a reply of {n} bytes");
            let o = out.len();
            out.resize(o + n, 0);
            quickack(&self.s);
            match self.s.read_exact(&mut out[o..]) {
                Ok(()) => (),
                Err(e) if e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::TimedOut => fail(&format!("{what}: an incomplete reply")),
                Err(_) => return None,
            }
            if l & 0x8000_0000 != 0 {
                return Some(out);
            }
        }
    }
    fn raw(&mut self, xid: u32, v: &[u8], what: &str) -> R {
        if !self.send(v) {
            return R::Closed;
        }
        match self.recv(what) {
            Some(b) => reply(xid, &b),
            None => R::Closed,
        }
    }
    fn call(&mut self, prog: u32, vers: u32, pr: u32, args: &X, what: &str) -> R {
        self.xid = self.xid.wrapping_add(1);
        let v = call(self.xid, prog, vers, pr, &args.0);
        self.raw(self.xid, &v, what)
    }
    fn core(&mut self, pr: u32, args: &X, what: &str) -> Vec<u8> {
        match self.call(CORE, 1, pr, args, what) {
            R::Success(v) => v,
            r => fail(&format!("{what}: the call was answered with {r:?}")),
        }
    }
    // a call whose result is one error code
    fn err(&mut self, pr: u32, args: &X, what: &str) -> u32 {
        let v = self.core(pr, args, what);
        let mut d = D(&v);
        let e = d.u();
        d.end(what);
        e
    }
    fn abort(&mut self, lid: u32) -> u32 {
        match self.call(ASYNC, 1, 1, &x().u(lid), "abort") {
            R::Success(v) => {
                let mut d = D(&v);
                let e = d.u();
                d.end("abort");
                e
            }
            r => fail(&format!("abort was answered with {r:?}")),
        }
    }
}

// ---- a device that writes down what happens to it --------------------------------------------------------------------
#[derive(Clone, PartialEq, Debug)]
enum Ev {
    Exec(Vec<u8>),
    Trigger,
    Clear,
    Remote(bool),
}
#[derive(Default)]
struct DevState {
    log: Vec<Ev>,
    stb: u8,
    fail: u8,
}
#[derive(Clone, Default)]
struct Rec(Arc<Mutex<DevState>>);
fn hash(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf2_9ce4_8422_2325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100_0000_01b3))
}
fn resp(cmd: &[u8]) -> Option<Vec<u8>> {
    let h = hash(cmd) >> 7;
    let n = match h % 7 {
        0 => return None,
        6 => return Some([&b"\n"[..], b"\r\n", b"\0", b"0", b" \n", b"1\n\n", b"\n1"][(h >> 8) as usize % 7].to_vec()),
        1 => 1 + (h >> 8) % 5,
        2 => 1 + (h >> 8) % 700,
        3 if (h >> 8) % 12 == 0 => 30_000 + (h >> 12) % 60_000,
        3 => 256 * (1 + (h >> 8) % 3),
        4 => 0,
        _ => 16,
    } as usize;
    Some((0..n).map(|i| ((h >> (i % 8)) as u8 ^ i as u8) & 0x3f).collect())
}
impl Rec {
    fn st(&self) -> std::sync::MutexGuard<'_, DevState> {
        self.0.lock().unwrap()
    }
    fn res(&self) -> Result<(), DeviceError> {
        match self.st().fail {
            0 => Ok(()),
            1 => Err(DeviceError::NotSupported),
            2 => Err(DeviceError::IoTimeout),
            _ => Err(DeviceError::IoError),
        }
    }
}
fn code(fail: u8) -> u32 {
    [0, 8, 15, 17][fail as usize]
}
impl Device for Rec {
    fn execute(&mut self, cmd: &[u8]) -> Option<Vec<u8>> {
        self.st().log.push(Ev::Exec(cmd.to_vec()));
        resp(cmd)
    }
    fn get_status(&mut self) -> Result<u8, DeviceError> {
        self.res()?;
        Ok(self.st().stb)
    }
    fn trigger(&mut self, s: Source) -> Result<(), DeviceError> {
        ensure!(s == Source::Bus, "trigger with another source than the bus: {s:?}");
        self.st().log.push(Ev::Trigger);
        self.res()
    }
    fn clear(&mut self) -> Result<(), DeviceError> {
        self.st().log.push(Ev::Clear);
        self.res()
    }
    fn set_remote(&mut self, r: bool) -> Result<(), DeviceError> {
        self.st().log.push(Ev::Remote(r));
        self.res()
    }
    fn set_local_lockout(&mut self, _e: bool) {}
}

// ---- a VXI-11 server -------------------------------------------------------------------------------------------------
const NAMES: [&str; 2] = ["inst0", "gpib0,5"];
type Boxed = Box<dyn Device + Send>;
struct Srv {
    core: SocketAddr,
    abort: SocketAddr,
    port: u16,
    devs: Vec<Rec>,
    // a client of another protocol, which shares the locks of the devices
    other: Vec<LockHandle<Boxed>>,
    status: StatusSender,
    tasks: Vec<JoinHandle<std::io::Result<()>>>,
}
impl Srv {
    fn new() -> Srv {
        let (l1, core) = alisten();
        let (l2, abort) = alisten();
        let devs = vec![Rec::default(), Rec::default()];
        let status = StatusSender::new();
        let mut b = VxiServerBuilder::new().core_port(core.port()).async_port(abort.port());
        let mut other = vec![];
        for (n, d) in NAMES.iter().zip(&devs) {
            let (dev, lock) = (Arc::new(AMutex::new(Box::new(d.clone()) as Boxed)), SharedLock::new());
            other.push(LockHandle::new(lock.clone(), dev.clone()));
            b = b.device(n.to_string(), dev, lock);
        }
        let (c, a) = b.build(status.clone());
        let tasks = vec![spawn(c.serve(l1)), spawn(a.serve(l2))];
        Srv { core, abort, port: abort.port(), devs, other, status, tasks }
    }
    fn stop(self) {
        for t in self.tasks {
            block_on(t.cancel());
        }
    }
}
#[derive(Clone, Debug)]
struct L {
    conn: usize,
    dev: usize,
    inb: Vec<u8>,
    out: Vec<u8>,
    lock: bool,
}
struct CreateResp {
    err: u32,
    lid: u32,
    port: u32,
    size: u32,
}
fn create(c: &mut Cl, client: u32, lock: bool, tmo: u32, name: &str) -> CreateResp {
    let v = c.core(10, &x().u(client).u(lock as u32).u(tmo).o(name.as_bytes()), "create_link");
    let mut d = D(&v);
    let r = CreateResp { err: d.u(), lid: d.u(), port: d.u(), size: d.u() };
    d.end("create_link");
    r
}
fn generic(lid: u32, flags: u32, tmo: u32) -> X {
    x().u(lid).u(flags).u(tmo).u(1000)
}

// ---- P16, P17, P18: histories of operations against a model ----------------------------------------------------------
struct W {
    srv: Srv,
    conns: Vec<Option<Cl>>,
    ab: Cl,
    links: BTreeMap<u32, L>,
    dead: Vec<u32>,
    log: Vec<Vec<Ev>>,
    fail: Vec<u8>,
    // devices that the client of the other protocol holds
    ext: Vec<bool>,
}
impl W {
    fn new(n: usize, frag: usize) -> W {
        let srv = Srv::new();
        let mut conns: Vec<Option<Cl>> = (0..n).map(|_| Some(Cl::new(srv.core))).collect();
        conns[0].as_mut().unwrap().frag = frag;
        let ab = Cl::new(srv.abort);
        W { srv, conns, ab, links: BTreeMap::new(), dead: vec![], log: vec![vec![]; 2], fail: vec![0, 0], ext: vec![false; 2] }
    }
    fn holder(&self, dev: usize) -> Option<u32> {
        self.links.iter().find(|(_, l)| l.dev == dev && l.lock).map(|(i, _)| *i)
    }
    fn locked_out(&self, lid: u32) -> bool {
        let l = &self.links[&lid];
        self.ext[l.dev] || matches!(self.holder(l.dev), Some(h) if h != lid)
    }
    fn check(&self, what: &str) {
        for i in 0..2 {
            let g = self.srv.devs[i].st();
            ensure!(g.log == self.log[i], "{what}: device {} saw {:?} instead of {:?}", NAMES[i], &g.log[g.log.len().saturating_sub(3)..], &self.log[i][self.log[i].len().saturating_sub(3)..]);
        }
    }
    // an abort for an id succeeds exactly while the link is open; leaves no abort signal behind for open links
    fn check_ids(&mut self) {
        for d in self.dead.clone() {
            if !self.links.contains_key(&d) {
                let e = self.ab.abort(d);
                ensure!(e == 4, "abort of link {d}, which is not open, reported {e}");
            }
        }
    }
    fn close(&mut self, i: usize, rst: bool) {
        let c = self.conns[i].take().unwrap();
        if rst {
            reset(c.s)
        } else {
            drop(c)
        }
        let gone: Vec<u32> = self.links.iter().filter(|(_, l)| l.conn == i).map(|(k, _)| *k).collect();
        let t = Instant::now();
        for g in gone {
            while self.ab.abort(g) != 4 {
                ensure!(t.elapsed() < WAIT, "link {g} stays open although its connection was closed");
                std::thread::sleep(Duration::from_millis(2));
            }
            self.links.remove(&g);
            self.dead.push(g);
        }
        self.conns[i] = Some(Cl::new(self.srv.core));
    }
}

fn history(c: &mut Ctx) {
    let nconn = 2 + c.rng.us(2);
    let frag = *c.rng.pick(&[0, 0, 1, 7, 40]);
    let mut w = W::new(nconn, frag);
    let no = c.evals;
    c.case(format!("history {no} on {nconn} connections, fragments of {frag}: "));
    let ops = 10 + c.rng.us(50);
    let aborts = c.rng.one_in(4);
    for _ in 0..ops {
        let ci = c.rng.us(nconn);
        // links of this connection are preferred
        let own: Vec<u32> = w.links.iter().filter(|(_, l)| l.conn == ci).map(|(k, _)| *k).collect();
        let all: Vec<u32> = w.links.keys().cloned().collect();
        let lid = match c.rng.below(12) {
            0 if !all.is_empty() => *c.rng.pick(&all),
            1 if !w.dead.is_empty() => *c.rng.pick(&w.dead),
            2 => c.rng.u32(),
            3 => 0,
            _ if !own.is_empty() => *c.rng.pick(&own),
            _ => 1,
        };
        let mine = matches!(w.links.get(&lid), Some(l) if l.conn == ci);
        let wait = c.rng.one_in(3);
        let mut flags = (wait as u32) | (c.rng.u32() & !0x89);
        let tmo = c.rng.below(12) as u32;
        let di = c.rng.us(2);
        if c.rng.one_in(6) {
            let f = c.rng.below(4) as u8;
            w.srv.devs[di].st().fail = f;
            w.fail[di] = f;
            w.srv.devs[di].st().stb = c.rng.byte();
        }
        let dev = w.links.get(&lid).map(|l| l.dev).unwrap_or(0);
        let out = mine && w.locked_out(lid);
        // the error of an operation before it gets to the device
        let pre = if !mine { Some(4) } else if out { Some(11) } else { None };
        match c.rng.below(22) {
            0 | 1 => {
                let nm = NAMES[di];
                let name = match c.rng.below(8) {
                    0 => c.rng.pick(&["inst1", "", "inst", "inst00", "gpib0", "INST0", "ins"]).to_string(),
                    1 => format!("{nm}{}", *c.rng.pick(&["\0", " ", "\n", ",", "0"])),
                    2 => format!("{}{nm}", *c.rng.pick(&[" ", "\t", "0", "/"])),
                    _ => nm.to_string(),
                };
                let lock = c.rng.one_in(3);
                let what = format!("create_link(conn {ci}, {name:?}, lock {lock}, {tmo})");
                add_case(&format!("{what}; "));
                let r = create(w.conns[ci].as_mut().unwrap(), c.rng.u32(), lock, tmo, &name);
                if name != NAMES[di] {
                    ensure!(r.err == 21, "{what} reported {}", r.err);
                } else if lock && (w.holder(di).is_some() || w.ext[di]) {
                    ensure!(r.err == 11, "{what} reported {} although the device is locked", r.err);
                } else {
                    ensure!(r.err == 0, "{what} reported {}", r.err);
                    ensure!(!w.links.contains_key(&r.lid), "{what} gave the id {} of an open link", r.lid);
                    ensure!(r.port == w.srv.port as u32, "{what} reported abort port {} instead of {}", r.port, w.srv.port);
                    ensure!(r.size >= 1024, "{what} reported a receive size of {}", r.size);
                    w.links.insert(r.lid, L { conn: ci, dev: di, inb: vec![], out: vec![], lock });
                }
            }
            2 | 3 | 4 | 5 => {
                let data = match c.rng.below(8) {
                    0 => vec![],
                    1 => c.rng.bytes(1 + (no % 3) as usize),
                    2 => {
                        // now and then more than fits into the announced receive size
                        let n = if c.rng.one_in(12) { 0x20000 + c.rng.us(40) } else { c.rng.us(3000) };
                        c.rng.bytes(n)
                    }
                    3 | 4 => c.rng.text(60),
                    _ => {
                        let n = c.rng.us(40);
                        c.rng.bytes(n)
                    }
                };
                let n = data.len();
                if c.rng.below(3) > 0 {
                    flags |= 8
                }
                let what = format!("write(conn {ci}, link {lid}, flags {flags:#x}, {tmo}, {n} bytes {})", hex(&data[..n.min(20)]));
                add_case(&format!("{what}; "));
                let v = w.conns[ci].as_mut().unwrap().core(11, &x().u(lid).u(1000).u(tmo).u(flags).o(&data), &what);
                let mut d = D(&v);
                let (e, size) = (d.u(), d.u());
                d.end(&what);
                if let Some(p) = pre {
                    ensure!(e == p && size == 0, "{what} reported {e}, {size} instead of {p}, 0");
                } else {
                    ensure!(e == 0 && size as usize == n, "{what} reported {e}, {size}");
                    let l = w.links.get_mut(&lid).unwrap();
                    l.inb.extend(&data);
                    if flags & 8 != 0 {
                        let cmd = std::mem::take(&mut l.inb);
                        if let Some(r) = resp(&cmd) {
                            l.out.extend(r)
                        }
                        w.log[dev].push(Ev::Exec(cmd));
                    }
                }
            }
            6 | 7 | 8 | 9 => {
                let q = w.links.get(&lid).map(|l| l.out.clone()).unwrap_or_default();
                let term = if q.is_empty() || c.rng.one_in(3) { c.rng.byte() } else { *c.rng.pick(&q) };
                let pos = q.iter().position(|b| *b == term);
                let req = match c.rng.below(7) {
                    0 => 0,
                    1 => q.len(),
                    2 => q.len() + 1,
                    3 => pos.unwrap_or(0) + 1,
                    4 => pos.unwrap_or(0),
                    5 => c.rng.us(q.len() + 2),
                    _ => 1 << 20,
                };
                let en = c.rng.flip();
                if en {
                    flags |= 0x80
                }
                let what = format!("read(conn {ci}, link {lid}, size {req}, flags {flags:#x}, term {term:#x})");
                add_case(&format!("{what}; "));
                let v = w.conns[ci].as_mut().unwrap().core(12, &x().u(lid).u(req as u32).u(1000).u(tmo).u(flags).u(term as u32), &what);
                let mut d = D(&v);
                let (e, reason, data) = (d.u(), d.u(), d.o());
                d.end(&what);
                if let Some(p) = pre {
                    ensure!(e == p && data.is_empty(), "{what} reported {e} with {} bytes instead of {p}", data.len());
                } else {
                    let mut n = req.min(q.len());
                    if let (true, Some(p)) = (en, pos) {
                        n = n.min(p + 1)
                    }
                    let mut want = 0;
                    if n == req {
                        want |= 1
                    }
                    if en && n > 0 && q[n - 1] == term {
                        want |= 2
                    }
                    if n == q.len() {
                        want |= 4
                    }
                    ensure!(e == 0, "{what} reported {e}");
                    ensure!(data == q[..n], "{what} gave {} ({} bytes) instead of {} ({n} bytes) of a queue of {}", hex(&data), data.len(), hex(&q[..n]), q.len());
                    ensure!(reason == want, "{what} gave the reason {reason} instead of {want}, {n} bytes of a queue of {}", q.len());
                    w.links.get_mut(&lid).unwrap().out.drain(..n);
                }
            }
            10 => {
                let what = format!("readstb(conn {ci}, link {lid}, flags {flags:#x})");
                add_case(&format!("{what}; "));
                let v = w.conns[ci].as_mut().unwrap().core(13, &generic(lid, flags, tmo), &what);
                let mut d = D(&v);
                let (e, stb) = (d.u(), d.u());
                d.end(&what);
                let want = pre.unwrap_or(code(w.fail[dev]));
                ensure!(e == want, "{what} reported {e} instead of {want}");
                if e == 0 {
                    let s = w.srv.devs[dev].st().stb as u32 & 0xef | if w.links[&lid].out.is_empty() { 0 } else { 0x10 };
                    ensure!(stb == s, "{what} gave {stb:#x} instead of {s:#x}");
                }
            }
            k @ (11 | 12 | 13 | 14) => {
                let (pr, ev, nm) = [(14, Ev::Trigger, "trigger"), (15, Ev::Clear, "clear"), (16, Ev::Remote(true), "remote"), (17, Ev::Remote(false), "local")][k as usize - 11].clone();
                let what = format!("{nm}(conn {ci}, link {lid}, flags {flags:#x})");
                // a refused clear may have emptied the queues or not
                if pr == 15 && out {
                    continue;
                }
                add_case(&format!("{what}; "));
                let e = w.conns[ci].as_mut().unwrap().err(pr, &generic(lid, flags, tmo), &what);
                let want = pre.unwrap_or(code(w.fail[dev]));
                ensure!(e == want, "{what} reported {e} instead of {want}");
                if pre.is_none() {
                    w.log[dev].push(ev);
                    if pr == 15 {
                        let l = w.links.get_mut(&lid).unwrap();
                        l.inb.clear();
                        l.out.clear();
                    }
                }
            }
            15 => {
                let what = format!("lock(conn {ci}, link {lid}, flags {flags:#x}, {tmo})");
                add_case(&format!("{what}; "));
                let e = w.conns[ci].as_mut().unwrap().err(18, &x().u(lid).u(flags).u(tmo), &what);
                if let Some(p) = pre {
                    ensure!(e == p, "{what} reported {e} instead of {p}");
                } else if w.links[&lid].lock {
                    ensure!(e != 0, "{what} reported no error although this link holds the lock");
                } else {
                    ensure!(e == 0, "{what} reported {e}");
                    w.links.get_mut(&lid).unwrap().lock = true;
                }
            }
            16 => {
                let what = format!("unlock(conn {ci}, link {lid})");
                add_case(&format!("{what}; "));
                let e = w.conns[ci].as_mut().unwrap().err(19, &x().u(lid), &what);
                let want = if !mine { 4 } else if w.links[&lid].lock { 0 } else { 12 };
                ensure!(e == want, "{what} reported {e} instead of {want}");
                if mine {
                    w.links.get_mut(&lid).unwrap().lock = false;
                }
            }
            17 => {
                let what = format!("destroy_link(conn {ci}, link {lid})");
                add_case(&format!("{what}; "));
                let e = w.conns[ci].as_mut().unwrap().err(23, &x().u(lid), &what);
                let want = if mine { 0 } else { 4 };
                ensure!(e == want, "{what} reported {e} instead of {want}");
                if mine {
                    w.links.remove(&lid);
                    w.dead.push(lid);
                }
            }
            20 => {
                let n = c.rng.us(41);
                let en = c.rng.below(3) > 0;
                let what = format!("enable_srq(conn {ci}, link {lid}, {en}, handle of {n} bytes)");
                add_case(&format!("{what}; "));
                let e = w.conns[ci].as_mut().unwrap().err(20, &x().u(lid).u(en as u32).o(&c.rng.bytes(n)), &what);
                let want = if mine { 0 } else { 4 };
                ensure!(e == want, "{what} reported {e} instead of {want}");
            }
            21 => {
                if w.ext[di] {
                    add_case(&format!("the other client releases {}; ", NAMES[di]));
                    w.srv.other[di].force_release();
                    w.ext[di] = false;
                } else if w.holder(di).is_none() {
                    let shared = c.rng.flip();
                    add_case(&format!("the other client locks {}, shared {shared}; ", NAMES[di]));
                    let r = if shared { w.srv.other[di].try_acquire(b"key") } else { w.srv.other[di].try_acquire(b"") };
                    ensure!(r.is_ok(), "the other client was refused the free lock: {r:?}");
                    w.ext[di] = true;
                } else {
                    ensure!(w.srv.other[di].can_lock().is_err(), "the other client may access a device that a link has locked");
                }
            }
            18 => match c.rng.below(4) {
                0 => {
                    let pr = *c.rng.pick(&[1u32, 9, 21, 24, 27, 30, 99, u32::MAX]);
                    add_case(&format!("procedure {pr}; "));
                    let r = w.conns[ci].as_mut().unwrap().call(CORE, 1, pr, &x().u(lid), "unknown procedure");
                    ensure!(r == R::ProcUnavail, "procedure {pr} was answered with {r:?}");
                }
                1 => {
                    let n = c.rng.us(9);
                    let what = format!("docmd(conn {ci}, link {lid})");
                    add_case(&format!("{what}; "));
                    let v = w.conns[ci].as_mut().unwrap().core(22, &x().u(lid).u(flags).u(1).u(1).u(c.rng.u32()).u(1).u(1).o(&c.rng.bytes(n)), &what);
                    let mut d = D(&v);
                    let (e, o) = (d.u(), d.o());
                    d.end(&what);
                    let want = if mine { 8 } else { 4 };
                    ensure!(e == want && o.is_empty(), "{what} reported {e} instead of {want}");
                }
                2 => {
                    let rst = c.rng.flip();
                    add_case(&format!("close(conn {ci}, reset {rst}); "));
                    w.close(ci, rst);
                }
                _ => {
                    add_case("null; ");
                    let v = w.conns[ci].as_mut().unwrap().core(0, &x(), "null");
                    ensure!(v.is_empty(), "null returned {}", hex(&v));
                }
            },
            _ => w.check_ids(),
        }
        w.check("after the last operation");
    }
    if aborts {
        for l in w.links.keys().cloned().collect::<Vec<_>>() {
            let e = w.ab.abort(l);
            ensure!(e == 0, "abort of the open link {l} reported {e}");
        }
    }
    for i in 0..2 {
        w.srv.other[i].force_release();
        w.ext[i] = false;
    }
    // closing everything frees every lock
    for i in 0..nconn {
        w.close(i, c.rng.flip());
    }
    for d in 0..2 {
        let r = create(w.conns[0].as_mut().unwrap(), 1, true, 0, NAMES[d]);
        ensure!(r.err == 0, "device {} stays locked after every connection was closed: {}", NAMES[d], r.err);
    }
    w.check("at the end");
    drop(w.conns);
    w.srv.stop();
}

// operations that wait for a lock
fn waiting(c: &mut Ctx) {
    let mut w = W::new(2, 0);
    let (mut b, a) = (w.conns.pop().unwrap().unwrap(), w.conns.pop().unwrap().unwrap());
    let mut a = Some(a);
    let hold = create(a.as_mut().unwrap(), 1, true, 0, NAMES[0]).lid;
    let mut a2 = Cl::new(w.srv.core);
    let bl = create(&mut b, 2, false, 0, NAMES[0]).lid;
    let how = c.rng.below(6);
    let op = c.rng.below(6);
    let delay = c.rng.below(40);
    c.case(format!("operation {op} waits for a lock, which ends in way {how} after {delay} ms"));
    let tmo = if how == 4 { c.rng.below(30) as u32 } else { 60_000 };
    let is_create = op == 5;
    let h = std::thread::spawn(move || {
        let r = match op {
            0 => {
                let v = b.core(11, &x().u(bl).u(1000).u(tmo).u(9).o(b"abc"), "waiting write");
                D(&v).u()
            }
            1 => {
                let v = b.core(12, &x().u(bl).u(10).u(1000).u(tmo).u(1).u(0), "waiting read");
                D(&v).u()
            }
            2 => b.err(14, &generic(bl, 1, tmo), "waiting trigger"),
            3 => b.err(18, &x().u(bl).u(1).u(tmo), "waiting lock"),
            4 => b.err(17, &generic(bl, 1, tmo), "waiting local"),
            _ => create(&mut b, 3, true, tmo, NAMES[0]).err,
        };
        (b, r)
    });
    std::thread::sleep(Duration::from_millis(delay));
    let mut want = 0;
    let mut freed = true;
    match how {
        0 => {
            let e = a.as_mut().unwrap().err(19, &x().u(hold), "unlock");
            ensure!(e == 0, "unlock reported {e}");
        }
        1 => {
            let e = a.as_mut().unwrap().err(23, &x().u(hold), "destroy_link");
            ensure!(e == 0, "destroy_link reported {e}");
        }
        2 => drop(a.take().unwrap()),
        3 => reset(a.take().unwrap().s),
        4 => {
            want = 11;
            freed = false;
        }
        _ if is_create => {
            drop(a.take());
        }
        _ => {
            let e = w.ab.abort(bl);
            ensure!(e == 0, "abort of an open link reported {e}");
            want = 23;
            freed = false;
        }
    }
    let (mut b, r) = match h.join() {
        Ok(x) => x,
        Err(_) => fail("the waiting client failed"),
    };
    ensure!(r == want, "the waiting operation reported {r} instead of {want}");
    w.log[0] = match (want, op) {
        (0, 0) => vec![Ev::Exec(b"abc".to_vec())],
        (0, 2) => vec![Ev::Trigger],
        (0, 4) => vec![Ev::Remote(false)],
        _ => vec![],
    };
    w.check("after waiting");
    // the lock is where it belongs
    let e = a2.core(10, &x().u(1).u(1).u(0).o(NAMES[0].as_bytes()), "create_link");
    let e = D(&e).u();
    let held = !freed || op == 3 || is_create;
    ensure!((e == 11) == held && (e == 0 || e == 11), "afterwards a link with a lock reported {e}, the lock should be {}", if held { "held" } else { "free" });
    if !freed && is_create {
        // nothing is left of the refused link: the lock is free as soon as its holder lets it go
        if let Some(a) = a.as_mut() {
            let e = a.err(19, &x().u(hold), "unlock");
            ensure!(e == 0, "unlock reported {e}");
            let r = create(&mut b, 3, true, 0, NAMES[0]);
            ensure!(r.err == 0, "a refused link left a lock behind: {}", r.err);
        }
    }
    drop(w.conns);
    w.srv.stop();
}

// ---- P15, P19, P24: RPC messages -------------------------------------------------------------------------------------
enum Tr {
    Tcp(Cl),
    Udp(UdpSocket),
}
// None: no reply can be expected
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Pmap,
    Core,
    Abort,
}
struct Rpc {
    pm_tcp: SocketAddr,
    pm_udp: SocketAddr,
    map: Vec<Mapping>,
    srv: Srv,
    tasks: Vec<JoinHandle<std::io::Result<()>>>,
}
fn pmap<const N: usize>(v: &[Mapping]) -> (Vec<JoinHandle<std::io::Result<()>>>, SocketAddr, SocketAddr) {
    let mut a = [Mapping::default(); N];
    a.copy_from_slice(v);
    let s = StaticPortMap::new(a);
    // both at one address, if the port is free
    if v.len() % 2 == 0 {
        let p = free_port();
        if UdpSocket::bind(local(p)).is_ok() {
            let done = Arc::new(AtomicBool::new(false));
            let (d, srv) = (done.clone(), s.clone());
            let task = spawn(async move {
                let r = srv.bind(local(p)).await;
                d.store(true, Ordering::SeqCst);
                r
            });
            let t = Instant::now();
            while !done.load(Ordering::SeqCst) {
                ensure!(t.elapsed() < WAIT, "a port mapper that was bound to {} does not listen there for TCP", local(p));
                if TcpStream::connect(local(p)).is_ok() {
                    return (vec![task], local(p), local(p));
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            block_on(task.cancel());
        }
    }
    let (l, t) = alisten();
    let u = UdpSocket::bind("127.0.0.1:0").unwrap();
    let ua = u.local_addr().unwrap();
    (vec![spawn(s.clone().serve_tcp(l)), spawn(s.serve_udp(async_std::net::UdpSocket::from(u)))], t, ua)
}
fn rpc(c: &mut Ctx) -> Rpc {
    let n = *c.rng.pick(&[0usize, 1, 2, 3, 6]);
    let mut map: Vec<Mapping> = vec![];
    for _ in 0..n {
        let m = Mapping::new(*c.rng.pick(&[CORE, ASYNC, PMAP, 7]), 1 + c.rng.below(2) as u32, *c.rng.pick(&[6, 17]), *c.rng.pick(&[0, 1, 111, 4322, 32768, 65535]));
        map.push(m)
    }
    let (tasks, pm_tcp, pm_udp) = match n {
        0 => pmap::<0>(&map),
        1 => pmap::<1>(&map),
        2 => pmap::<2>(&map),
        3 => pmap::<3>(&map),
        _ => pmap::<6>(&map),
    };
    Rpc { pm_tcp, pm_udp, map, srv: Srv::new(), tasks }
}
impl Rpc {
    fn stop(self) {
        for t in self.tasks {
            block_on(t.cancel());
        }
        self.srv.stop()
    }
    fn addr(&self, k: Kind) -> SocketAddr {
        match k {
            Kind::Pmap => self.pm_tcp,
            Kind::Core => self.srv.core,
            Kind::Abort => self.srv.abort,
        }
    }
    fn open(&self, k: Kind, udp: bool) -> Tr {
        if udp {
            let u = UdpSocket::bind("127.0.0.1:0").unwrap();
            u.connect(self.pm_udp).unwrap();
            u.set_read_timeout(Some(WAIT)).unwrap();
            Tr::Udp(u)
        } else {
            Tr::Tcp(Cl::new(self.addr(k)))
        }
    }
    fn getport(&self, m: &Mapping) -> u32 {
        self.map.iter().find(|x| x.prog == m.prog && x.vers == m.vers && x.prot == m.prot).map(|x| x.port).unwrap_or(0)
    }
}
fn ask(t: &mut Tr, xid: u32, v: &[u8], what: &str) -> R {
    match t {
        Tr::Tcp(c) => c.raw(xid, v, what),
        Tr::Udp(u) => {
            if u.send(v).is_err() {
                return R::Closed;
            }
            let mut b = vec![0; 65536];
            match u.recv(&mut b) {
                Ok(n) => reply(xid, &b[..n]),
                Err(_) => fail(&format!("{what}: no reply")),
            }
        }
    }
}
const CORE_ARGS: [(u32, usize); 14] = [(11, 20), (12, 24), (13, 16), (14, 16), (15, 16), (16, 16), (17, 16), (18, 12), (19, 4), (20, 12), (22, 32), (23, 4), (25, 20), (10, 16)];
fn calls(c: &mut Ctx) {
    let r = rpc(c);
    let udp = c.rng.flip();
    let mut trs = vec![(Kind::Pmap, r.open(Kind::Pmap, false)), (Kind::Pmap, r.open(Kind::Pmap, true)), (Kind::Core, r.open(Kind::Core, false)), (Kind::Abort, r.open(Kind::Abort, false))];
    let _ = udp;
    for _ in 0..60 {
        let ti = c.rng.us(4);
        let k = trs[ti].0;
        let xid = c.rng.u32();
        let vers = if c.rng.one_in(8) { *c.rng.pick(&[0u32, 1, 3, 0x0200_0000, u32::MAX]) } else { 2 };
        let fl = |c: &mut Ctx| if c.rng.one_in(10) { *c.rng.pick(&[1u32, 2, 3, 6, 390004, u32::MAX]) } else { 0 };
        let (cf, vf) = (fl(c), fl(c));
        let (cl, vl) = (if c.rng.one_in(5) { c.rng.us(40) } else { 0 }, if c.rng.one_in(8) { c.rng.us(9) } else { 0 });
        let right = match k {
            Kind::Pmap => (PMAP, 2u32),
            Kind::Core => (CORE, 1),
            Kind::Abort => (ASYNC, 1),
        };
        let prog = if c.rng.one_in(8) { *c.rng.pick(&[0u32, 100003, PMAP, CORE, ASYNC, 0x0607B1]) } else { right.0 };
        let pv = if c.rng.one_in(8) { *c.rng.pick(&[0u32, 1, 2, 3, 4, u32::MAX]) } else { right.1 };
        // a procedure, its arguments and the reply it gets
        let (pr, args, want) = match k {
            Kind::Pmap => match c.rng.below(7) {
                0 => (0, x(), R::Success(vec![])),
                1 | 2 | 3 => {
                    let m = if !r.map.is_empty() && c.rng.flip() { *c.rng.pick(&r.map) } else { Mapping::new(*c.rng.pick(&[CORE, ASYNC, PMAP, 7, 0]), c.rng.below(4) as u32, *c.rng.pick(&[6, 17, 0]), c.rng.u32()) };
                    let mut m = m;
                    m.port = c.rng.u32();
                    (3, x().m(&m), R::Success(x().u(r.getport(&m)).0))
                }
                4 | 5 => {
                    let mut v = x();
                    for m in &r.map {
                        v = v.u(1).m(m)
                    }
                    (4, x(), R::Success(v.u(0).0))
                }
                _ => (*c.rng.pick(&[1u32, 2, 5, 6, 100, u32::MAX]), x().u(CORE).u(1).u(6).u(5), R::ProcUnavail),
            },
            Kind::Core => match c.rng.below(5) {
                0 => (0, x(), R::Success(vec![])),
                // a device name that is no text
                4 => (10, x().u(c.rng.u32()).u(0).u(0).o(&[b"\xff".to_vec(), b"inst0\xc3".to_vec(), b"\xed\xa0\x80".to_vec()][c.rng.us(3)]), R::Garbage),
                1 => (19, x().u(0xffff_fff0), R::Success(x().u(4).0)),
                2 => (*c.rng.pick(&[1u32, 9, 21, 24, 27, 1000]), x(), R::ProcUnavail),
                _ => (12, x().u(0xffff_fff0).u(1).u(1).u(0).u(0).u(10), R::Success(x().u(4).u(0).u(0).0)),
            },
            Kind::Abort => match c.rng.below(3) {
                0 => (0, x(), R::Success(vec![])),
                1 => (1, x().u(0xffff_fff0), R::Success(x().u(4).0)),
                _ => (*c.rng.pick(&[2u32, 10, 1000]), x(), R::ProcUnavail),
            },
        };
        let mut args = args.0;
        let mut want = want;
        if !args.is_empty() && matches!(want, R::Success(_)) && c.rng.one_in(5) {
            args.truncate(c.rng.us(args.len()));
            want = R::Garbage;
        }
        if pv != right.1 {
            want = R::ProgMismatch(right.1, right.1)
        }
        if prog != right.0 {
            want = R::ProgUnavail
        }
        if cf != 0 || vf != 0 {
            want = R::AuthErr
        }
        if vers != 2 {
            want = R::RpcMismatch(2, 2)
        }
        let mut v = x().u(xid).u(0).u(vers).u(prog).u(pv).u(pr).u(cf).o(&c.rng.bytes(cl)).u(vf).o(&c.rng.bytes(vl)).0;
        // what follows the arguments is ignored
        if want != R::Garbage && c.rng.one_in(4) {
            let n = c.rng.us(120);
            args.extend(c.rng.bytes(n));
        }
        v.extend(&args);
        let what = format!("call to {} {}", ["port mapper over TCP", "port mapper over UDP", "core server", "abort server"][ti], hex(&v));
        c.case(format!("{what}; table {:?}", r.map));
        if let Tr::Tcp(cl) = &mut trs[ti].1 {
            cl.frag = *c.rng.pick(&[0, 0, 1, 5, 24, 100]);
        }
        // messages that are no calls get no reply, and end at most their own connection
        if c.rng.one_in(12) {
            let mut bad = if c.rng.flip() {
                let n = c.rng.us(v.len().min(24));
                v[..n].to_vec()
            } else {
                x().u(xid).u(1).u(0).u(0).u(0).u(0).0
            };
            if c.rng.one_in(3) {
                bad = { let n = c.rng.us(60); c.rng.bytes(n) };
                if bad.len() >= 8 {
                    bad[4] = 1
                }
            }
            match &mut trs[ti].1 {
                Tr::Udp(u) => {
                    let _ = u.send(&bad);
                }
                Tr::Tcp(cl) => {
                    cl.send(&bad);
                    trs[ti].1 = r.open(k, false)
                }
            }
        }
        let got = ask(&mut trs[ti].1, xid, &v, &what);
        ensure!(got == want, "{what} was answered with {got:?} instead of {want:?}");
    }
    drop(trs);
    r.stop();
}

// P24: anything at all; afterwards every server still answers
fn fuzz(c: &mut Ctx) {
    let r = rpc(c);
    let mut h = Cl::new(r.srv.core);
    let lid = create(&mut h, 1, false, 0, NAMES[0]).lid;
    for _ in 0..40 {
        let k = *c.rng.pick(&[Kind::Pmap, Kind::Core, Kind::Core, Kind::Core, Kind::Abort]);
        let (prog, pv) = match k {
            Kind::Pmap => (PMAP, 2),
            Kind::Core => (CORE, 1),
            Kind::Abort => (ASYNC, 1),
        };
        let pr = match k {
            Kind::Pmap => c.rng.below(6) as u32,
            Kind::Core => c.rng.pick(&CORE_ARGS).0,
            Kind::Abort => c.rng.below(2) as u32,
        };
        let n = c.rng.us(60);
        let mut args = vec![];
        while args.len() < n {
            let v = match c.rng.below(4) {
                0 => lid,
                1 => c.rng.below(20) as u32,
                _ => c.rng.u32(),
            };
            args.extend(v.to_be_bytes())
        }
        args.truncate(n);
        // not a lock that waits for long, no connections to foreign hosts
        if pr == 25 && k == Kind::Core && args.len() >= 4 {
            args[..4].copy_from_slice(&[127, 0, 0, 1])
        }
        let mut v = call(c.rng.u32(), prog, pv, pr, &args);
        for _ in 0..c.rng.us(3) {
            if c.rng.flip() {
                let i = c.rng.us(v.len());
                // leave the interrupt host alone
                if !(pr == 25 && i >= 40 && i < 44) {
                    v[i] = c.rng.byte()
                }
            }
        }
        c.case(format!("bytes {} to server {}", hex(&v), k as u8));
        let raw = c.rng.one_in(4);
        if k == Kind::Core && c.rng.flip() {
            // several of them on a link of this connection
            let mut t = Cl::new(r.srv.core);
            let lock = c.rng.one_in(4);
            let own = create(&mut t, 1, lock, 0, NAMES[c.rng.us(2)]).lid;
            t.s.set_read_timeout(Some(Duration::from_millis(40))).unwrap();
            for _ in 0..1 + c.rng.us(8) {
                let (pr, n) = *c.rng.pick(&CORE_ARGS);
                let mut a = x();
                if pr == 25 {
                    a = a.u(0x7f00_0001)
                } else if pr != 10 {
                    a = a.u(own)
                }
                while a.0.len() < n + 8 {
                    let v = match c.rng.below(4) {
                        0 => 0x88,
                        1 => c.rng.below(20) as u32,
                        _ => c.rng.u32() & if c.rng.flip() { u32::MAX } else { 0xff },
                    };
                    a = a.u(v)
                }
                a = a.u(0).u(0);
                let v = call(c.rng.u32(), CORE, 1, pr, &a.0);
                add_case(&format!(", {}", hex(&v)));
                if !t.send(&v) {
                    break;
                }
                let mut b = [0u8; 4096];
                quickack(&t.s);
                match t.s.read(&mut b) {
                    Ok(0) => break,
                    _ => (),
                }
            }
            r.srv.status.clone().send_status(c.rng.byte());
            continue;
        }
        if k == Kind::Pmap && c.rng.flip() {
            let u = UdpSocket::bind("127.0.0.1:0").unwrap();
            let _ = u.send_to(&v, r.pm_udp);
            let b = call(9, PMAP, 2, 0, b"");
            u.connect(r.pm_udp).unwrap();
            u.set_read_timeout(Some(WAIT)).unwrap();
            u.send(&b).unwrap();
            let mut buf = vec![0; 2000];
            loop {
                let n = match u.recv(&mut buf) {
                    Ok(n) => n,
                    Err(e) => fail(&format!("the port mapper does not answer datagrams any more: {e}")),
                };
                if n == 24 && buf[..4] == [0, 0, 0, 9] {
                    break;
                }
            }
            continue;
        }
        let mut t = Cl::new(r.addr(k));
        t.s.set_read_timeout(Some(Duration::from_millis(3))).unwrap();
        if raw {
            let mut b = frame(&v);
            if c.rng.flip() {
                let i = c.rng.us(4);
                b[i] = c.rng.byte()
            }
            let _ = t.s.write_all(&b);
        } else {
            t.send(&v);
        }
        let mut b = [0u8; 4096];
        let _ = t.s.read(&mut b);
        if c.rng.flip() {
            reset(t.s)
        }
    }
    for (k, prog, pv) in [(Kind::Pmap, PMAP, 2), (Kind::Core, CORE, 1), (Kind::Abort, ASYNC, 1)] {
        let got = Cl::new(r.addr(k)).call(prog, pv, 0, &x(), "null call after the other bytes");
        ensure!(got == R::Success(vec![]), "after the other bytes, a null call was answered with {got:?}");
    }
    drop(h);
    r.stop();
}

// ---- P20: the client -------------------------------------------------------------------------------------------------
// what the fake server sends back for the call with this transaction id
#[derive(Clone)]
struct Fake {
    bytes: Vec<u8>,
    close: bool,
}
fn fake_reply(c: &mut Ctx, xid: u32, results: &[u8]) -> (Vec<u8>, Option<bool>) {
    // Some(true): success, Some(false): must be an error, None: either (the reply may be cut after what is needed)
    let ok = |r: &[u8]| {
        let mut v = x().u(xid).u(1).u(0).u(0).u(0).u(0).0;
        v.extend(r);
        v
    };
    match c.rng.below(14) {
        0 => (x().u(xid.wrapping_add(1)).u(1).u(0).u(0).u(0).u(0).o(results).0, Some(false)),
        1 => (x().u(xid ^ 1 << c.rng.below(32)).u(1).u(0).u(0).u(0).u(0).o(results).0, Some(false)),
        2 => {
            let s = 1 + c.rng.below(5) as u32;
            let mut v = x().u(xid).u(1).u(0).u(0).u(0).u(s);
            if s == 2 {
                v = v.u(1).u(3)
            }
            v.0.extend(results);
            (v.0, Some(false))
        }
        3 => (x().u(xid).u(1).u(1).u(0).u(2).u(2).0, Some(false)),
        4 => (x().u(xid).u(1).u(1).u(1).u(1 + c.rng.below(7) as u32).0, Some(false)),
        5 => {
            let mut v = call(xid, PMAP, 2, 3, b"");
            v.extend(results);
            (v, Some(false))
        }
        6 if !results.is_empty() => {
            let mut v = ok(results);
            v.truncate(c.rng.us(v.len()));
            (v, Some(false))
        }
        7 => ({ let n = c.rng.us(80); c.rng.bytes(n) }, None),
        8 => {
            let mut v = ok(results);
            let i = c.rng.us(v.len());
            v[i] ^= 1 << c.rng.below(8);
            (v, None)
        }
        9 => {
            // a verifier with a body is fine
            let mut v = x().u(xid).u(1).u(0).u(1).o(b"abcde").u(0).0;
            v.extend(results);
            (v, Some(true))
        }
        _ => (ok(results), Some(true)),
    }
}
fn client(c: &mut Ctx) {
    let udp = c.rng.flip();
    let tl = TcpListener::bind("127.0.0.1:0").unwrap();
    let us = UdpSocket::bind("127.0.0.1:0").unwrap();
    us.set_read_timeout(Some(WAIT)).unwrap();
    let mut cl = if udp {
        block_on(PortMapperClient::connect_udp(us.local_addr().unwrap())).unwrap_or_else(|e| fail(&format!("connect_udp: {e}")))
    } else {
        block_on(PortMapperClient::connect_tcp(tl.local_addr().unwrap())).unwrap_or_else(|e| fail(&format!("connect_tcp: {e}")))
    };
    let mut sv = if udp { None } else { Some(Cl { s: tl.accept().unwrap().0, xid: 0, frag: 0 }) };
    if let Some(s) = &sv {
        s.s.set_nodelay(true).unwrap();
        s.s.set_read_timeout(Some(WAIT)).unwrap();
    }
    let mut last: Option<u32> = None;
    for _ in 0..12 {
        let m = Mapping::new(c.rng.u32(), c.rng.u32(), c.rng.u32(), c.rng.u32());
        let op = c.rng.below(5);
        c.case(format!("client over {} procedure {op} {m:?}", if udp { "UDP" } else { "TCP" }));
        // the call runs in a task of its own; it takes the client and gives it back
        let h = std::thread::spawn(move || {
            let r: Result<u32, String> = block_on(async {
                match op {
                    0 => cl.null().await.map(|_| 0),
                    1 => cl.set(m).await.map(|b| b as u32),
                    2 => cl.unset(m).await.map(|b| b as u32),
                    4 => cl.callit::<Mapping, u32>(m.prog, m.vers, m.prot, m).await,
                    _ => cl.getport(m).await.map(|p| p as u32),
                }
            })
            .map_err(|e| format!("{e:?}"));
            (cl, r)
        });
        let mut peer = None;
        let msg = match &mut sv {
            Some(s) => s.recv("the client's call").unwrap_or_else(|| fail("the client closed the connection")),
            None => {
                let mut b = vec![0; 65536];
                match us.recv_from(&mut b) {
                    Ok((n, p)) => {
                        peer = Some(p);
                        b.truncate(n);
                        b
                    }
                    Err(e) => fail(&format!("the client sent no datagram: {e}")),
                }
            }
        };
        let xid = D(&msg).u();
        let pr = [0, 1, 2, 3, 5][op as usize];
        let args = match op {
            0 => x(),
            4 => x().u(m.prog).u(m.vers).u(m.prot).o(&x().m(&m).0),
            _ => x().m(&m),
        };
        ensure!(msg == call(xid, PMAP, 2, pr, &args.0), "the client sent {} instead of {}", hex(&msg), hex(&call(xid, PMAP, 2, pr, &args.0)));
        ensure!(last != Some(xid), "the client used the transaction id {xid} twice");
        last = Some(xid);
        let val = match op {
            0 => 0,
            3 => *c.rng.pick(&[0, 1, 111, 65535, 4322]),
            _ => c.rng.below(2) as u32,
        };
        // the results of an indirect call come in an opaque of their own, which may be too short for them
        let inner = *c.rng.pick(&[0, 1, 2, 3, 4, 4, 4, 4, 5, 8, 9]);
        let results = match op {
            0 => vec![],
            4 => x().u(c.rng.u32()).o(&x().u(val).u(0).u(7).0[..inner]).0,
            _ => x().u(val).0,
        };
        let (bytes, mut want) = fake_reply(c, xid, &results);
        if op == 4 && want == Some(true) && inner < 4 {
            want = Some(false);
        }
        add_case(&format!(", reply {}", hex(&bytes)));
        match &mut sv {
            Some(s) => {
                s.frag = *c.rng.pick(&[0, 0, 3, 11]);
                s.send(&bytes);
            }
            None => {
                us.send_to(&bytes, peer.unwrap()).unwrap();
            }
        }
        let (c2, r) = match h.join() {
            Ok(x) => x,
            Err(_) => fail("the client panicked"),
        };
        cl = c2;
        match want {
            Some(true) => ensure!(r == Ok(val), "the client reported {r:?} instead of {val}"),
            Some(false) => ensure!(r.is_err(), "the client reported {r:?} for a reply that is no successful reply to its call"),
            None => (),
        }
    }
}

// ---- P25 -------------------------------------------------------------------------------------------------------------
fn ports(c: &mut Ctx) {
    let (cp, mut ap) = (free_port(), free_port());
    while ap == cp {
        ap = free_port()
    }
    let zero = c.rng.below(6);
    let script: Vec<(u8, u32)> = (0..2).map(|_| (if c.rng.one_in(4) { 1 + c.rng.below(3) as u8 } else { 0 }, c.rng.below(4).min(1) as u32)).collect();
    c.case(format!("ports {cp} {ap}, zero {zero}, port mapper answers {script:?}"));
    let tl = TcpListener::bind("127.0.0.1:0").unwrap();
    let pa = tl.local_addr().unwrap();
    let (zc, za) = (if zero == 0 { 0 } else { cp }, if zero == 1 { 0 } else { ap });
    let sc = script.clone();
    tl.set_nonblocking(true).unwrap();
    let stop = Arc::new(AtomicBool::new(false));
    let stop2 = stop.clone();
    let h = std::thread::spawn(move || {
        let mut seen: Vec<(u32, Vec<u8>)> = vec![];
        let s = loop {
            match tl.accept() {
                Ok((s, _)) => break s,
                Err(_) if stop2.load(Ordering::SeqCst) => return seen,
                Err(_) => std::thread::sleep(Duration::from_millis(1)),
            }
        };
        s.set_nonblocking(false).unwrap();
        s.set_nodelay(true).unwrap();
        s.set_read_timeout(Some(WAIT)).unwrap();
        let mut s = Cl { s, xid: 0, frag: 0 };
        while let Some(m) = s.recv("registration") {
            let mut d = D(&m);
            let xid = d.u();
            for w in [0, 2, PMAP, 2] {
                ensure!(d.u() == w, "the registration is no call to the port mapper: {}", hex(&m));
            }
            let pr = d.u();
            d.0 = &d.0[16..];
            let (st, val) = if pr == 1 { sc[seen.iter().filter(|x| x.0 == 1).count().min(1)] } else { (0, 1) };
            seen.push((pr, d.0.to_vec()));
            let v = match st {
                0 => x().u(xid).u(1).u(0).u(0).u(0).u(0).u(val),
                1 => x().u(xid).u(1).u(0).u(0).u(0).u(3),
                2 => x().u(xid).u(1).u(1).u(1).u(2),
                _ => x().u(xid).u(1).u(0).u(0).u(0).u(5),
            };
            s.send(&v.0);
        }
        seen
    });
    let dev = Rec::default();
    let lock = SharedLock::new();
    let b = VxiServerBuilder::new().core_port(zc).async_port(za).device(NAMES[0].to_string(), Arc::new(AMutex::new(dev.clone())), lock);
    let res = block_on(b.register_portmap(pa));
    stop.store(true, Ordering::SeqCst);
    let ok = res.is_ok();
    let want = zero > 1 && script.iter().all(|s| *s == (0, 1));
    let b = res.ok();
    let wants = [x().u(CORE).u(1).u(6).u(cp as u32).0, x().u(ASYNC).u(1).u(6).u(ap as u32).0];
    let b = match b {
        Some(b) => b,
        None => VxiServerBuilder::new().core_port(cp).async_port(ap).device(NAMES[0].to_string(), Arc::new(AMutex::new(dev)), SharedLock::new()),
    };
    ensure!(ok == want, "register_portmap reported {} although it {}", if ok { "success" } else { "failure" }, if want { "was accepted" } else { "was not" });
    let seen = match h.join() {
        Ok(s) => s,
        Err(_) => fail("the registration went wrong"),
    };
    let sets: Vec<&Vec<u8>> = seen.iter().filter(|x| x.0 == 1).map(|x| &x.1).collect();
    ensure!(zero > 1 || sets.is_empty(), "a zero port was registered");
    for s in &sets {
        ensure!(wants.contains(s), "the mapping {} was registered", hex(s));
    }
    if ok {
        ensure!(wants.iter().all(|w| sets.contains(&w)), "not every mapping was registered: {sets:?}");
    }
    // and where it listens
    let (core, abort) = b.build(StatusSender::new());
    let ip = IpAddr::V4(Ipv4Addr::LOCALHOST);
    let (t1, t2) = (spawn(core.bind(ip)), spawn(abort.bind(ip)));
    let mut cl = Cl::new(local(cp));
    let mut ab = Cl::new(local(ap));
    let r = create(&mut cl, 1, false, 0, NAMES[0]);
    ensure!(r.err == 0 && r.port == ap as u32 && r.size >= 1024, "create_link at port {cp} reported error {}, abort port {} (not {ap}), receive size {}", r.err, r.port, r.size);
    // as much as it says it can receive it can receive
    let n = (r.size as usize).min(1 << 19);
    let v = cl.core(11, &x().u(r.lid).u(1000).u(0).u(8).o(&vec![7; n]), "a write of the maximum size");
    let mut d = D(&v);
    let (e, sz) = (d.u(), d.u());
    ensure!(e == 0 && sz as usize == n, "a write of the maximum size {n} reported {e}, {sz}");
    let e = ab.abort(r.lid);
    ensure!(e == 0, "the abort server at port {ap} reported {e} for a link of the core server");
    // another connection has no links
    let mut c2 = Cl::new(local(cp));
    let e = c2.err(19, &x().u(r.lid), "unlock");
    ensure!(e == 4, "a new connection can use link {}: {e}", r.lid);
    let e = c2.err(26, &x(), "destroy_intr_chan");
    ensure!(e == 6, "a new connection has an interrupt channel: {e}");
    block_on(t1.cancel());
    block_on(t2.cancel());
}

// ---- P26: interrupt channel ------------------------------------------------------------------------------------------
enum Chan {
    Tcp(Cl),
    Udp(UdpSocket),
}
impl Chan {
    // the messages that arrive within the time, or as many as there must be
    fn get(&mut self, n: usize) -> Vec<Vec<u8>> {
        let mut r = vec![];
        for _ in 0..n {
            match self {
                Chan::Tcp(c) => {
                    c.s.set_read_timeout(Some(WAIT)).unwrap();
                    match c.recv("service request") {
                        Some(m) => r.push(m),
                        None => fail("the interrupt channel was closed"),
                    }
                }
                Chan::Udp(u) => {
                    let mut b = vec![0; 65536];
                    u.set_read_timeout(Some(WAIT)).unwrap();
                    match u.recv(&mut b) {
                        Ok(n) => r.push(b[..n].to_vec()),
                        Err(_) => fail("a service request was not sent"),
                    }
                }
            }
        }
        r
    }
    // whatever has arrived already
    fn drain(&mut self) {
        let mut b = [0u8; 65536];
        let t = Some(Duration::from_millis(6));
        match self {
            Chan::Tcp(c) => {
                c.s.set_read_timeout(t).unwrap();
                while matches!(c.s.read(&mut b), Ok(n) if n > 0) {}
            }
            Chan::Udp(u) => {
                u.set_read_timeout(t).unwrap();
                while u.recv(&mut b).is_ok() {}
            }
        }
    }
    fn none(&mut self, what: &str) {
        let mut b = [0u8; 400];
        let t = Some(Duration::from_millis(6));
        let n = match self {
            Chan::Tcp(c) => {
                c.s.set_read_timeout(t).unwrap();
                c.s.read(&mut b).unwrap_or(0)
            }
            Chan::Udp(u) => {
                u.set_read_timeout(t).unwrap();
                u.recv(&mut b).unwrap_or(0)
            }
        };
        ensure!(n == 0, "{what}: the interrupt channel carries {}", hex(&b[..n]));
    }
}
fn srq(c: &mut Ctx) {
    let mut srv = Srv::new();
    let mut cl = Cl::new(srv.core);
    let mut other = Cl::new(srv.core);
    let (prog, vers) = (c.rng.u32(), c.rng.u32());
    let links: Vec<u32> = (0..3).map(|i| create(&mut cl, i, false, 0, NAMES[i as usize % 2]).lid).collect();
    let ol = create(&mut other, 9, false, 0, NAMES[0]).lid;
    let mut on: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
    let mut ch: Option<Chan> = None;
    let mut stale = false;
    c.case(format!("interrupt channel, program {prog:#x} version {vers:#x}: "));
    let mut dead: Vec<u32> = vec![];
    for _ in 0..14 {
        match c.rng.below(8) {
            0 | 1 => {
                let udp = c.rng.flip();
                let tl = TcpListener::bind("127.0.0.1:0").unwrap();
                let us = UdpSocket::bind("127.0.0.1:0").unwrap();
                let refuse = !udp && c.rng.one_in(4);
                let p = if refuse { free_port() } else if udp { us.local_addr().unwrap().port() } else { tl.local_addr().unwrap().port() };
                add_case(&format!("create_intr_chan(udp {udp}, refused {refuse}); "));
                let e = cl.err(25, &x().u(0x7f00_0001).u(p as u32).u(prog).u(vers).u(udp as u32), "create_intr_chan");
                if ch.is_some() {
                    ensure!(e == 29, "create_intr_chan reported {e} although there is a channel");
                } else if refuse {
                    ensure!(e != 0, "create_intr_chan to a port where nobody listens reported no error");
                } else {
                    ensure!(e == 0, "create_intr_chan reported {e}");
                    let mut new = if udp {
                        Chan::Udp(us)
                    } else {
                        let s = tl.accept().unwrap().0;
                        Chan::Tcp(Cl { s, xid: 0, frag: 0 })
                    };
                    if std::mem::take(&mut stale) && !on.is_empty() {
                        // requests from before may still be on their way: see that every link announces a new one, and start anew
                        add_case("service request on the new channel; ");
                        srv.status.send_status(1);
                        let mut seen: Vec<Vec<u8>> = vec![];
                        while !on.values().all(|h| seen.contains(h)) {
                            let m = new.get(1).remove(0);
                            let h = on.values().find(|h| m.get(4..) == Some(&x().u(0).u(2).u(prog).u(vers).u(30).u(0).u(0).u(0).u(0).o(h).0[..]));
                            ensure!(h.is_some(), "the interrupt channel carries {}", hex(&m));
                            seen.push(h.unwrap().clone());
                        }
                        for (l, h) in &on {
                            ensure!(cl.err(20, &x().u(*l).u(1).o(h), "enable_srq") == 0, "enable_srq was refused");
                        }
                        new.drain();
                    }
                    ch = Some(new);
                }
            }
            2 if c.rng.flip() && ch.is_some() && !on.is_empty() => {
                // the client's end of the channel dies; it destroys the channel and may establish it again later
                add_case("the channel breaks, 3 service requests, destroy_intr_chan; ");
                match ch.take() {
                    Some(Chan::Tcp(t)) => reset(t.s),
                    _ => (),
                }
                for i in 0..3 {
                    std::thread::sleep(Duration::from_millis(3));
                    srv.status.send_status(i);
                }
                stale = true;
                std::thread::sleep(Duration::from_millis(10));
                let e = cl.err(26, &x(), "destroy_intr_chan");
                ensure!(e == 0, "destroy_intr_chan for a broken channel reported {e}");
            }
            2 if c.rng.flip() => {
                add_case("destroy_intr_chan; ");
                let e = cl.err(26, &x(), "destroy_intr_chan");
                let want = if ch.is_some() { 0 } else { 6 };
                ensure!(e == want, "destroy_intr_chan reported {e} instead of {want}");
                if let Some(Chan::Tcp(mut t)) = ch.take() {
                    t.s.set_read_timeout(Some(WAIT)).unwrap();
                    ensure!(t.recv("end of the channel").is_none(), "a destroyed channel carries a service request");
                }
            }
            3 | 4 => {
                let l = *c.rng.pick(&links);
                let hl = c.rng.us(41);
                let mut h = c.rng.bytes(hl);
                if hl > 0 && c.rng.one_in(3) {
                    h[hl - 1] = *c.rng.pick(&[0, b'\n', b' ']);
                    h[0] = *c.rng.pick(&[0, b' ', 1]);
                }
                let en = c.rng.below(3) > 0;
                add_case(&format!("enable_srq({l}, {en}, {}); ", hex(&h)));
                let e = cl.err(20, &x().u(l).u(en as u32).o(&h), "enable_srq");
                if dead.contains(&l) {
                    ensure!(e == 4, "enable_srq for a destroyed link reported {e}");
                } else {
                    ensure!(e == 0, "enable_srq reported {e}");
                    if en {
                        on.insert(l, h);
                    } else {
                        on.remove(&l);
                    }
                }
                let e = cl.err(20, &x().u(ol).u(1).o(b"x"), "enable_srq for a foreign link");
                ensure!(e == 4, "enable_srq for a foreign link reported {e}");
            }
            5 if c.rng.one_in(3) => {
                let l = *c.rng.pick(&links);
                add_case(&format!("destroy_link({l}); "));
                let e = cl.err(23, &x().u(l), "destroy_link");
                let want = if dead.contains(&l) { 4 } else { 0 };
                ensure!(e == want, "destroy_link reported {e}");
                dead.push(l);
                on.remove(&l);
            }
            _ => {
                // while there is no channel a service request reaches nobody
                let b = if c.rng.one_in(4) { 0 } else { c.rng.byte() };
                add_case(&format!("service request {b:#x}; "));
                srv.status.send_status(b);
                if let Some(ch) = ch.as_mut() {
                    let mut want: Vec<Vec<u8>> = on.values().map(|h| x().u(0).u(2).u(prog).u(vers).u(30).u(0).u(0).u(0).u(0).o(h).0).collect();
                    let mut got: Vec<Vec<u8>> = ch.get(want.len()).into_iter().map(|m| m.get(4..).map(|x| x.to_vec()).unwrap_or_default()).collect();
                    want.sort();
                    got.sort();
                    ensure!(got == want, "service requests sent: {:?} instead of {:?}", got.iter().map(|x| hex(x)).collect::<Vec<_>>(), want.iter().map(|x| hex(x)).collect::<Vec<_>>());
                    ch.none("after a service request");
                } else {
                    stale = true;
                    std::thread::sleep(Duration::from_millis(3));
                }
            }
        }
    }
    // the end of the connection ends the channel
    drop(cl);
    if let Some(Chan::Tcp(mut t)) = ch.take() {
        t.s.set_read_timeout(Some(WAIT)).unwrap();
        ensure!(t.recv("end of the channel").is_none(), "a service request after the end of the connection");
    }
    drop(other);
    srv.stop();
}

// ---- P27 -------------------------------------------------------------------------------------------------------------
struct Flag(AtomicBool);
impl ArcWake for Flag {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.store(true, Ordering::SeqCst);
    }
}
struct Spawner;
impl futures::task::Spawn for Spawner {
    fn spawn_obj(&self, f: futures::task::FutureObj<'static, ()>) -> Result<(), futures::task::SpawnError> {
        spawn(f);
        Ok(())
    }
}
type Fut = Pin<Box<dyn Future<Output = std::io::Result<()>> + Send>>;
fn accepting(c: &mut Ctx) {
    let kind = c.rng.below(6);
    let name = ["hislip", "vxi11 core", "vxi11 abort", "port mapper", "raw", "telnet"][kind as usize];
    let dev = Rec::default();
    let (sl, dv) = (SharedLock::new(), Arc::new(AMutex::new(dev.clone())));
    let port = free_port();
    let (l, a) = if (1..=3).contains(&kind) { alisten() } else { (alisten().0, local(port)) };
    let vx = || VxiServerBuilder::new().core_port(a.port()).async_port(a.port()).device(NAMES[0].to_string(), dv.clone(), sl.clone()).build(StatusSender::new());
    let mut f: Fut = match kind {
        0 => {
            let s = lxi_hislip::server::ServerBuilder::new(Default::default()).device("hislip0".to_string(), dv.clone(), sl.clone()).build();
            Box::pin(s.accept(a, StatusSender::new(), Spawner))
        }
        1 => Box::pin(vx().0.serve(l)),
        2 => Box::pin(vx().1.serve(l)),
        3 => Box::pin(StaticPortMap::new([]).serve_tcp(l)),
        4 => Box::pin(lxi_socket::server::ServerConfig::default().build().accept(a, sl, dv)),
        _ => Box::pin(lxi_telnet::server::ServerConfig::default().build().accept(a, sl, dv)),
    };
    let early = c.rng.us(4);
    let late = c.rng.us(5);
    let before = if c.rng.one_in(3) { 12 } else { c.rng.us(2) };
    let full = c.rng.one_in(4);
    c.case(format!("{name} server: {early} connections reset before they are accepted, {late} odd ones later, {before} ordinary ones before{}", if full { ", one while no file can be opened" } else { "" }));
    // the server listens, but does not get to accept before the clients are gone again
    let w = waker(Arc::new(Flag(AtomicBool::new(false))));
    if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&w)) {
        // the port may have been taken in the meantime
        if matches!(&r, Err(e) if e.kind() == ErrorKind::AddrInUse) {
            return;
        }
        fail(&format!("the {name} server ended at once: {r:?}"));
    }
    for _ in 0..early {
        reset(connect(a))
    }
    let h = spawn(f);
    let mut silent = vec![];
    for _ in 0..late {
        let mut s = connect(a);
        match c.rng.below(4) {
            0 => reset(s),
            1 => drop(s),
            2 => silent.push(s),
            _ => {
                let b = { let n = c.rng.us(90); c.rng.bytes(n) };
                let _ = s.write_all(&b);
                silent.push(s)
            }
        }
    }
    // a well-behaved client is served
    let served = |mut s: TcpStream| match kind {
        0 => {
            let mut v = b"HS\0\0".to_vec();
            v.extend([2, 0, 0x42, 0x42]);
            v.extend(7u64.to_be_bytes());
            v.extend(b"hislip0");
            let _ = s.write_all(&v);
            let mut b = [0u8; 16];
            s.read_exact(&mut b).is_ok() && &b[..3] == b"HS\x01"
        }
        1 | 2 | 3 => {
            let (p, v) = [(CORE, 1), (ASYNC, 1), (PMAP, 2)][kind as usize - 1];
            let mut cl = Cl { s, xid: 0, frag: 0 };
            cl.call(p, v, 0, &x(), "null call") == R::Success(vec![])
        }
        _ => {
            let n = dev.st().log.iter().filter(|e| **e == Ev::Exec(b"good".to_vec())).count();
            let _ = s.write_all(b"good\n");
            let t = Instant::now();
            loop {
                if dev.st().log.iter().filter(|e| **e == Ev::Exec(b"good".to_vec())).count() > n {
                    break true;
                }
                if t.elapsed() > WAIT {
                    break false;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
        }
    };
    for i in 0..before {
        ensure!(served(connect(a)), "the {name} server does not serve client {i} any more");
    }
    if full {
        // the connection is refused or waits: accept fails for a while
        let (fd, i) = (unsafe { socket(2, 1, 0) }, a.port().to_be_bytes());
        assert!(fd >= 0);
        let s = unsafe { TcpStream::from_raw_fd(fd) };
        let lim = NoFiles::new();
        let to = [2u8, 0, i[0], i[1], 127, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0];
        let r = unsafe { connect_(fd, to.as_ptr(), 16) };
        std::thread::sleep(Duration::from_millis(20));
        drop(lim);
        ensure!(r == 0, "nobody listens at {a}");
        s.set_read_timeout(Some(WAIT)).unwrap();
        ensure!(served(s), "the {name} server does not serve a client that came while no file could be opened");
    }
    ensure!(served(connect(a)), "the {name} server does not serve a client any more");
    block_on(h.cancel());
}

// ---- P21, P22: a stream in memory; the same log takes what the device does and what is sent -----------------------------
#[derive(Clone, PartialEq, Debug)]
enum Step {
    Exec(Vec<u8>),
    Sent(Vec<u8>),
}
type Log = Arc<Mutex<Vec<Step>>>;
struct Mem {
    parts: std::collections::VecDeque<Vec<u8>>,
    log: Log,
    n: u64,
    wmax: usize,
    lazy: bool,
}
impl AsyncRead for Mem {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        self.n += 1;
        if self.lazy && self.n % 3 == 1 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let mut p = match self.parts.pop_front() {
            None => return Poll::Ready(Ok(0)),
            Some(p) => p,
        };
        let n = p.len().min(buf.len());
        buf[..n].copy_from_slice(&p[..n]);
        if n < p.len() {
            self.parts.push_front(p.split_off(n))
        }
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Mem {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        self.n += 1;
        if self.lazy && self.n % 3 == 1 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let n = buf.len().min(self.wmax);
        let mut l = self.log.lock().unwrap();
        if let Some(Step::Sent(v)) = l.last_mut() {
            v.extend(&buf[..n])
        } else if n > 0 {
            l.push(Step::Sent(buf[..n].to_vec()))
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
struct LogDev(Log, bool);
// with `marks` the response is recognisable and contains bytes that have to be escaped
fn line_resp(cmd: &[u8], marks: bool) -> Option<Vec<u8>> {
    let r = resp(cmd)?;
    let h = hash(cmd);
    if !marks {
        return Some(r);
    }
    if h % 11 == 0 {
        return Some(vec![]);
    }
    let mut v = vec![1, 2];
    v.extend(r.iter().map(|b| 0x80 | *b << 1 | ((h >> 3) as u8 & *b & 1)));
    if h % 3 == 0 {
        v.extend([0xff, 0xff, b'x', 0xff])
    }
    Some(v)
}
impl Device for LogDev {
    fn execute(&mut self, cmd: &[u8]) -> Option<Vec<u8>> {
        self.0.lock().unwrap().push(Step::Exec(cmd.to_vec()));
        line_resp(cmd, self.1)
    }
    fn get_status(&mut self) -> Result<u8, DeviceError> {
        Ok(0)
    }
    fn trigger(&mut self, _: Source) -> Result<(), DeviceError> {
        Ok(())
    }
    fn clear(&mut self) -> Result<(), DeviceError> {
        Ok(())
    }
    fn set_remote(&mut self, _: bool) -> Result<(), DeviceError> {
        Ok(())
    }
}
fn run<T>(f: impl Future<Output = T>) -> T {
    let fl = Arc::new(Flag(AtomicBool::new(true)));
    let w = waker(fl.clone());
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    let mut n = 0u64;
    while fl.0.swap(false, Ordering::SeqCst) {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
        n += 1;
        ensure!(n < 10_000_000, "the server keeps running without end");
    }
    fail("the server waits although the client has closed the connection")
}
fn cut(c: &mut Ctx, b: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let n = (1 + c.rng.us(max)).min(b.len() - i);
        v.push(b[i..i + n].to_vec());
        i += n
    }
    v
}
fn raw(c: &mut Ctx) {
    let (rt, wt) = (*c.rng.pick(&[b'\n', b'\r', 0, 0x7f]), *c.rng.pick(&[b'\n', b'\r', 0, 0x1b]));
    let rb = *c.rng.pick(&[1usize, 2, 7, 64, 512 * 1024]);
    let lines = c.rng.us(8);
    let mut all = vec![];
    for _ in 0..lines {
        let n = match c.rng.below(5) {
            0 => 0,
            1 => c.rng.us(300),
            _ => c.rng.us(12),
        };
        for _ in 0..n {
            let o = c.rng.byte();
            let b = *c.rng.pick(&[b'\n', b'\r', 0, b' ', 0xff, 0x7f, b'A', b'?', b';', o]);
            all.push(b)
        }
        if !c.rng.one_in(6) {
            all.push(rt)
        }
    }
    let max = *c.rng.pick(&[1, 3, 50, 5000]);
    let parts = cut(c, &all, max);
    c.case(format!("raw: terminators {rt:#x} {wt:#x}, read buffer {rb}, pieces {:?}", parts.iter().map(|p| hex(p)).collect::<Vec<_>>()));
    let log: Log = Default::default();
    let lazy = c.rng.flip();
    let m = Mem { parts: parts.into(), log: log.clone(), n: 0, wmax: usize::MAX, lazy };
    let wm = Mem { parts: Default::default(), log: log.clone(), n: 0, wmax: *c.rng.pick(&[1, 5, usize::MAX]), lazy };
    let s = lxi_socket::server::ServerConfig::default().read_buffer(rb).read_termination(rt).write_termination(wt).build();
    let r = run(s.process_client(m, wm, SharedLock::new(), Arc::new(AMutex::new(LogDev(log.clone(), false))), "peer"));
    ensure!(r.is_ok(), "the session ended with {r:?}");
    let mut want = vec![];
    let mut rest: &[u8] = &all;
    while !rest.is_empty() {
        let (cmd, next) = match rest.iter().position(|b| *b == rt) {
            Some(p) => (&rest[..p], &rest[p + 1..]),
            None => (rest, &rest[rest.len()..]),
        };
        rest = next;
        want.push(Step::Exec(cmd.to_vec()));
        if let Some(mut r) = line_resp(cmd, false) {
            r.push(wt);
            want.push(Step::Sent(r))
        }
    }
    let got = log.lock().unwrap().clone();
    ensure!(got == want, "commands and responses were {got:?} instead of {want:?}");
}
fn telnet(c: &mut Ctx) {
    let mut parts = vec![];
    let n = c.rng.us(14);
    for _ in 0..n {
        let mut p: Vec<u8> = vec![];
        for _ in 0..1 + c.rng.us(12) {
            match c.rng.below(14) {
                0 => p.extend([255, 247]),
                1 => p.extend([255, 248]),
                2 | 3 => p.extend(b"\r\n"),
                4 => p.push(b'\n'),
                5 => p.push(b'\r'),
                6 => {
                    let (v, o) = (251 + c.rng.below(4) as u8, *c.rng.pick(&[0u8, 1, 3, 31]));
                    p.extend([255, v, o])
                }
                7 => p.push(*c.rng.pick(&[0u8, 8, 127, 200, 254])),
                10 => p.extend(*c.rng.pick(&[&b";"[..], b":X;", b"A B", b"\t", b"#3"])),
                _ => p.extend(&b"*IDN?ab "[..1 + c.rng.us(8)]),
            }
        }
        p.truncate(128);
        // not in the middle of a command
        while p.last() == Some(&255) || (p.len() > 1 && p[p.len() - 2] == 255 && p[p.len() - 1] >= 251) {
            p.pop();
        }
        if !p.is_empty() {
            parts.push(p)
        }
    }
    c.case(format!("telnet: pieces {:?}", parts.iter().map(|p| hex(p)).collect::<Vec<_>>()));
    let log: Log = Default::default();
    let m = Mem { parts: parts.clone().into(), log: log.clone(), n: 0, wmax: *c.rng.pick(&[1, 5, usize::MAX]), lazy: c.rng.flip() };
    let s = lxi_telnet::server::ServerConfig::default().read_buffer(*c.rng.pick(&[1, 1024])).build();
    let r = run(s.process_client(m, SharedLock::new(), Arc::new(AMutex::new(LogDev(log.clone(), true))), "peer"));
    ensure!(r.is_ok(), "the session ended with {r:?}");
    // the decoder's events, and what they mean
    use libtelnet_rs::events::TelnetEvents as E;
    let mut p = libtelnet_rs::Parser::new();
    for o in [1, 3, 0] {
        p.options.support_local(o)
    }
    let mut line: Vec<u8> = vec![];
    let mut cmds = vec![];
    for part in &parts {
        for e in p.receive(part) {
            match e {
                E::IAC(i) if i.command == 247 => {
                    line.pop();
                }
                E::IAC(i) if i.command == 248 => line.clear(),
                E::DataReceive(d) => {
                    for b in d {
                        if b == b'\n' {
                            if line.last() == Some(&b'\r') {
                                line.pop();
                            }
                            cmds.push(std::mem::take(&mut line))
                        } else {
                            line.push(b)
                        }
                    }
                }
                _ => (),
            }
        }
    }
    let got = log.lock().unwrap().clone();
    let ex: Vec<Vec<u8>> = got.iter().filter_map(|s| if let Step::Exec(v) = s { Some(v.clone()) } else { None }).collect();
    ensure!(ex == cmds, "the device executed {:?} instead of {:?}", ex.iter().map(|x| hex(x)).collect::<Vec<_>>(), cmds.iter().map(|x| hex(x)).collect::<Vec<_>>());
    // each response follows its command at once
    let mut i = 0;
    while i < got.len() {
        if let Step::Exec(cmd) = &got[i] {
            let sent = match got.get(i + 1) {
                Some(Step::Sent(v)) => &v[..],
                _ => &[],
            };
            if let Some(r) = line_resp(cmd, true) {
                let mut want: Vec<u8> = vec![];
                for b in r {
                    want.push(b);
                    if b == 255 {
                        want.push(255)
                    }
                }
                want.extend(b"\r\n");
                ensure!(sent.starts_with(&want), "after {:?} the server sent {} instead of {}", hex(cmd), hex(sent), hex(&want));
            } else {
                ensure!(!sent.starts_with(&[1, 2]), "after {:?}, which has no response, the server sent {}", hex(cmd), hex(sent));
            }
        }
        i += 1
    }
}

fn main() {
    let mut c = Ctx::start();
    let p = c.prop.clone();
    c.rule = match &p[..] {
        "P16" | "P17" | "P18" => "random histories of VXI-11 operations on two or three connections and two devices against a model, and operations that wait for a lock which is released, aborted or timed out",
        "P15" | "P19" => "random calls (versions, flavours, programs, procedures, truncated arguments, fragments) to every server over TCP and UDP, random port mapper tables",
        "P20" => "a scripted server with proper, foreign, refused, cut and corrupted replies over TCP and UDP",
        "P21" => "random byte streams, terminators, buffer sizes and segmentations",
        "P22" => "random typed text, editing and negotiation commands and segmentations",
        "P24" => "corrupted and random calls to every server, each followed by a proper one",
        "P25" => "random ports and scripted port mappers, then the ports on which the servers answer",
        "P26" => "random histories of channel, enable, destroy and service request over TCP and UDP",
        "P27" => "connections that are reset before they are accepted, silent, closed or send anything, a dozen that are served, one that comes while no file can be opened, then a proper client, on every server",
        _ => "",
    }
    .into();
    let mut n = 0u64;
    while c.more() {
        n += 1;
        match &p[..] {
            "P16" | "P18" if n % 3 == 0 => waiting(&mut c),
            "P16" | "P17" | "P18" => history(&mut c),
            "P15" | "P19" => calls(&mut c),
            "P20" => client(&mut c),
            "P21" => raw(&mut c),
            "P22" => telnet(&mut c),
            "P24" => fuzz(&mut c),
            "P25" => ports(&mut c),
            "P26" => srq(&mut c),
            "P27" => accepting(&mut c),
            _ => break,
        }
    }
    c.done()
}
