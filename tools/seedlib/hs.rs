// a plain HiSLIP client over TCP, and a recording device behind the real server
use std::io::{Read, Write};
use std::net::TcpStream;
use std::sync::{Arc as StdArc, Mutex as StdMutex};
use std::time::Duration;
use lxi_device::{lock::{Mutex, SharedLock}, status::Sender, trigger::Source, Device, DeviceError};
use lxi_hislip::server::{ServerBuilder, ServerConfig};
pub type Log = StdArc<StdMutex<Vec<String>>>;
pub struct Dev { pub log: Log, pub reply: Vec<u8>, pub stb: u8 }
impl Device for Dev {
    fn execute(&mut self, cmd: &[u8]) -> Option<Vec<u8>> { self.log.lock().unwrap().push(format!("exec {}", String::from_utf8_lossy(cmd))); if self.reply.is_empty() { None } else { Some(self.reply.clone()) } }
    fn get_status(&mut self) -> Result<u8, DeviceError> { Ok(self.stb) }
    fn trigger(&mut self, _: Source) -> Result<(), DeviceError> { self.log.lock().unwrap().push("trigger".into()); Ok(()) }
    fn clear(&mut self) -> Result<(), DeviceError> { self.log.lock().unwrap().push("clear".into()); Ok(()) }
    fn set_remote(&mut self, r: bool) -> Result<(), DeviceError> { self.log.lock().unwrap().push(format!("remote {r}")); Ok(()) }
    fn set_local_lockout(&mut self, r: bool) { self.log.lock().unwrap().push(format!("lockout {r}")); }
}
pub struct Srv { pub port: u16, pub log: Log, pub srq: Sender }
pub fn serve(cfg: ServerConfig, reply: &[u8], stb: u8) -> Srv {
    let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
    let log: Log = Default::default();
    let dev = async_std::sync::Arc::new(Mutex::new(Dev { log: log.clone(), reply: reply.to_vec(), stb }));
    let srv = ServerBuilder::new_with_device(cfg, "hislip0".to_string(), dev, SharedLock::new()).build();
    let srq = Sender::new();
    let s2 = srq.clone();
    std::thread::spawn(move || {
        let _ = async_std::task::block_on(srv.accept(("127.0.0.1", port), s2, Sp));
    });
    for _ in 0..200 { if TcpStream::connect(("127.0.0.1", port)).is_ok() { break; } std::thread::sleep(Duration::from_millis(20)); }
    Srv { port, log, srq }
}
#[derive(Debug, Clone, PartialEq)]
pub struct Msg { pub t: u8, pub c: u8, pub p: u32, pub d: Vec<u8> }
pub struct Ch(pub TcpStream);
impl Ch {
    pub fn open(port: u16) -> Ch { let s = TcpStream::connect(("127.0.0.1", port)).unwrap(); s.set_read_timeout(Some(Duration::from_secs(5))).unwrap(); s.set_nodelay(true).unwrap(); Ch(s) }
    pub fn send(&mut self, t: u8, c: u8, p: u32, d: &[u8]) {
        let mut b = vec![b'H', b'S', t, c]; b.extend(p.to_be_bytes()); b.extend((d.len() as u64).to_be_bytes()); b.extend(d);
        self.0.write_all(&b).unwrap();
    }
    pub fn recv(&mut self) -> Option<Msg> {
        let mut h = [0u8; 16]; self.0.read_exact(&mut h).ok()?; assert_eq!(&h[..2], b"HS");
        let mut d = vec![0; u64::from_be_bytes(h[8..16].try_into().unwrap()) as usize]; self.0.read_exact(&mut d).ok()?;
        Some(Msg { t: h[2], c: h[3], p: u32::from_be_bytes(h[4..8].try_into().unwrap()), d })
    }
}
/// a synchronous channel: the channel and its session id
pub fn init(port: u16, version: u32) -> (Ch, Msg) { let mut s = Ch::open(port); s.send(0, 0, version << 16, b"hislip0"); let m = s.recv().expect("no initialize response"); (s, m) }
pub fn session(port: u16) -> (Ch, Ch, u16) {
    let (s, m) = init(port, 0x0100); assert_eq!(m.t, 1); let id = m.p as u16;
    let mut a = Ch::open(port); a.send(17, 0, id as u32, b""); let m = a.recv().expect("no async response"); assert_eq!(m.t, 18);
    (s, a, id)
}
struct Sp;
impl futures::task::Spawn for Sp {
    fn spawn_obj(&self, f: futures::task::FutureObj<'static, ()>) -> Result<(), futures::task::SpawnError> { async_std::task::spawn(f); Ok(()) }
}
