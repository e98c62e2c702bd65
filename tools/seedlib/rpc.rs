// a plain ONC RPC client over std::net, and a recording device behind the real VXI-11 server
#![allow(dead_code)]
use lxi_device::lock::{Mutex, SharedLock, SpinMutex};
use lxi_device::{status::Sender, trigger::Source, Device, DeviceError};
use lxi_vxi11::server::vxi11::prelude::VxiServerBuilder;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex as StdMutex};
use std::time::Duration;
pub const CORE: u32 = 0x0607AF;
pub const ASYNC: u32 = 0x0607B0;
pub fn u(v: &[u32]) -> Vec<u8> { v.iter().flat_map(|x| x.to_be_bytes()).collect() }
pub fn o(b: &[u8]) -> Vec<u8> { let mut v = u(&[b.len() as u32]); v.extend(b); while v.len() % 4 != 0 { v.push(0) } v }
pub fn cat(p: &[Vec<u8>]) -> Vec<u8> { p.concat() }
pub fn word(b: &[u8], i: usize) -> u32 { u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap()) }
pub fn call(xid: u32, prog: u32, vers: u32, pr: u32, args: &[u8]) -> Vec<u8> { let mut v = u(&[xid, 0, 2, prog, vers, pr, 0, 0, 0, 0]); v.extend(args); v }
pub struct Cl(pub TcpStream, pub u32);
impl Cl {
    pub fn open(port: u16) -> Cl { for _ in 0..200 { if let Ok(s) = TcpStream::connect(("127.0.0.1", port)) { s.set_nodelay(true).unwrap(); s.set_read_timeout(Some(Duration::from_secs(8))).unwrap(); return Cl(s, 7); } std::thread::sleep(Duration::from_millis(20)); } panic!("nobody listens") }
    pub fn frag(&mut self, b: &[u8], last: bool) -> bool { let mut v = u(&[b.len() as u32 | if last { 1 << 31 } else { 0 }]); v.extend(b); self.0.write_all(&v).is_ok() }
    /// one reply record, None if the connection ended
    pub fn recv(&mut self) -> Option<Vec<u8>> {
        let mut out = vec![];
        loop {
            let mut h = [0; 4]; self.0.read_exact(&mut h).ok()?; let l = u32::from_be_bytes(h);
            let n = out.len(); out.resize(n + (l & 0x7fff_ffff) as usize, 0); self.0.read_exact(&mut out[n..]).ok()?;
            if l >> 31 == 1 { return Some(out); }
        }
    }
    /// accept status and results of a call
    pub fn call(&mut self, prog: u32, pr: u32, args: &[u8]) -> Option<(u32, Vec<u8>)> {
        self.1 += 1; let m = call(self.1, prog, if prog == 100000 { 2 } else { 1 }, pr, args); self.frag(&m, true); let r = self.recv()?;
        assert_eq!((word(&r, 0), word(&r, 1), word(&r, 2), word(&r, 3), word(&r, 4)), (self.1, 1, 0, 0, 0)); Some((word(&r, 5), r[24..].to_vec()))
    }
    pub fn ok(&mut self, pr: u32, args: &[u8]) -> Vec<u8> { let (s, r) = self.call(CORE, pr, args).expect("connection ended"); assert_eq!(s, 0, "not accepted"); r }
    pub fn err(&mut self, pr: u32, args: &[u8]) -> u32 { word(&self.ok(pr, args), 0) }
    pub fn link(&mut self) -> u32 { let r = self.ok(10, &cat(&[u(&[1, 0, 0]), o(b"inst0")])); assert_eq!(word(&r, 0), 0); word(&r, 1) }
    pub fn write(&mut self, lid: u32, flags: u32, d: &[u8]) -> (u32, u32) { let r = self.ok(11, &cat(&[u(&[lid, 500, 500, flags]), o(d)])); (word(&r, 0), word(&r, 1)) }
    /// error, reason, data
    pub fn read(&mut self, lid: u32, size: u32, flags: u32, term: u8) -> (u32, u32, Vec<u8>) { let r = self.ok(12, &u(&[lid, size, 500, 500, flags, term as u32])); let n = word(&r, 2) as usize; (word(&r, 0), word(&r, 1), r[12..12 + n].to_vec()) }
}
pub type Log = Arc<StdMutex<Vec<String>>>;
/// answers a command with `reply`, or with the command itself if that is empty
pub struct Dev { pub log: Log, pub reply: Vec<u8>, pub stb: u8 }
impl Device for Dev {
    fn execute(&mut self, cmd: &[u8]) -> Option<Vec<u8>> { self.log.lock().unwrap().push(format!("exec {}", String::from_utf8_lossy(cmd))); Some(if self.reply.is_empty() { cmd.to_vec() } else { self.reply.clone() }) }
    fn get_status(&mut self) -> Result<u8, DeviceError> { Ok(self.stb) }
    fn trigger(&mut self, _: Source) -> Result<(), DeviceError> { Ok(()) }
    fn clear(&mut self) -> Result<(), DeviceError> { Ok(()) }
    fn set_remote(&mut self, _: bool) -> Result<(), DeviceError> { Ok(()) }
    fn set_local_lockout(&mut self, _: bool) {}
}
pub fn dev(reply: &[u8], stb: u8) -> (Log, Arc<Mutex<Dev>>, Arc<SpinMutex<SharedLock>>) { let log: Log = Default::default(); (log.clone(), Arc::new(Mutex::new(Dev { log, reply: reply.to_vec(), stb })), SharedLock::new()) }
pub struct Srv { pub core: u16, pub abort: u16, pub log: Log, pub srq: Sender, pub dev: Arc<Mutex<Dev>>, pub lock: Arc<SpinMutex<SharedLock>> }
pub fn serve(reply: &[u8], stb: u8) -> Srv {
    let (log, dev, lock) = dev(reply, stb); let srq = Sender::new();
    let (a, b) = (TcpListener::bind("127.0.0.1:0").unwrap(), TcpListener::bind("127.0.0.1:0").unwrap());
    let (core, abort) = (a.local_addr().unwrap().port(), b.local_addr().unwrap().port());
    let (c, s) = VxiServerBuilder::new().core_port(core).async_port(abort).device("inst0".to_string(), dev.clone(), lock.clone()).build(srq.clone());
    async_std::task::spawn(c.serve(a.into())); async_std::task::spawn(s.serve(b.into()));
    Srv { core, abort, log, srq, dev, lock }
}
