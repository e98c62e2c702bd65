import sys; sys.path.insert(0, "/verif/tools")
from seed import main
L = []
VX = [("lxi-vxi11", "vxi11")]; RAW = [("lxi-socket", "raw")]; TN = [("lxi-telnet", "telnet")]; HS = [("lxi-hislip", "hislip")]
V = "vxi11/src/"; BX = V + "common/xdr/basic.rs"; RX = V + "common/onc_rpc/xdr.rs"; RM = V + "common/onc_rpc/mod.rs"; RC = V + "common/onc_rpc/record.rs"
CS = V + "server/vxi11/core_service.rs"; SB = V + "server/vxi11/mod.rs"; AB = V + "server/vxi11/abort_service.rs"; PM = V + "server/portmapper.rs"
RW = "raw/src/server/mod.rs"; TM = "telnet/src/server/mod.rs"; SY = "hislip/src/server/session/synchronous.rs"; MS = "hislip/src/common/messages.rs"; SM = "hislip/src/server/mod.rs"
U = "mod rpc; use rpc::*; use std::time::Duration; use std::io::{Read, Write};\n"
def S(ID, edits, needs, what, demo, crates=VX, helpers=("rpc.rs",), use=U): L.append((ID, ID[:3].upper(), crates, edits, needs, what, use + demo, helpers))
S("p13-u8-sign", [(BX, "writer.write_u32::<NetworkEndian>(*self as u32)", "writer.write_i32::<NetworkEndian>(*self as i8 as i32)", 1)],
  "a byte value of 0x80 or more, e.g. a status byte with bit 7 set", "small values are sign extended on the wire",
  "fn main() { let s = serve(b\"\", 0x81); let mut c = Cl::open(s.core); let l = c.link(); let r = c.ok(13, &u(&[l, 0, 0, 0])); assert_eq!((word(&r, 0), word(&r, 1)), (0, 0x81)); }\n")
S("p13-missing-padding", [(BX, "            let _ = $reader.read_u8()?;", "            let _ = $reader.read_u8();")],
  "a call whose last argument is an opaque without the padding bytes", "arguments that are cut short are decoded as if they were complete",
  "fn main() { let s = serve(b\"\", 0); let mut c = Cl::open(s.core); let l = c.link(); let mut a = u(&[l, 0, 0, 8, 5]); a.extend(b\"*RST;\"); let r = c.call(CORE, 11, &a).unwrap(); assert_eq!(r.0, 4, \"cut short arguments accepted\"); assert!(s.log.lock().unwrap().is_empty()); }\n")
S("p14-limit-per-fragment", [(RC, "if buf.len() + len > maxlen || buf.try_reserve(len).is_err() {", "if len > maxlen || buf.try_reserve(len).is_err() {")],
  "a record above the limit of which every fragment is below it", "a record larger than the limit is delivered",
  "fn main() { let s = serve(b\"x\", 0); let mut c = Cl::open(s.core); let l = c.link(); let m = call(77, CORE, 1, 11, &cat(&[u(&[l, 500, 500, 8]), o(&vec![65; 1500 * 1024])])); let (a, b) = m.split_at(800 * 1024);\n c.frag(a, false); c.frag(b, true); assert!(c.recv().is_none(), \"a record above the limit was processed\"); assert!(s.log.lock().unwrap().is_empty()); }\n")
S("p14-empty-fragment", [(RC, "if fragment_len & 0x80000000 != 0 {", "if fragment_len & 0x80000000 != 0 || len == 0 {")],
  "an empty fragment that is not the last one", "the record ends early and its rest is taken for another record",
  "fn main() { let s = serve(b\"x\", 0); let mut c = Cl::open(s.core); let m = call(77, CORE, 1, 0, &[]); let (a, b) = m.split_at(16);\n c.frag(a, false); c.frag(&[], false); c.frag(b, true); let r = c.recv().expect(\"no reply\"); assert_eq!((word(&r, 0), word(&r, 2), word(&r, 5)), (77, 0, 0)); }\n")
S("p15-old-rpc-version", [(RM, "if call.rpc_vers != 2 {", "if call.rpc_vers > 2 {")],
  "a call of RPC version 0 or 1", "the call is executed instead of being answered with a version mismatch",
  "fn main() { let s = serve(b\"x\", 0); let mut c = Cl::open(s.core); let mut m = call(77, CORE, 1, 0, &[]); m[11] = 1; c.frag(&m, true); let r = c.recv().expect(\"no reply\"); assert_eq!(r, u(&[77, 1, 1, 0, 2, 2])); }\n")
S("p15-verifier-only-with-body", [(RM, "} else if call.verf.flavour != xdr::AuthFlavour::None {", "} else if call.verf.flavour != xdr::AuthFlavour::None && !call.verf.body.0.is_empty() {")],
  "a call with a verifier of another flavour than null and an empty body", "the call is executed although its verifier must be refused",
  "fn main() { let s = serve(b\"x\", 0); let mut c = Cl::open(s.core); c.frag(&u(&[77, 0, 2, CORE, 1, 0, 0, 0, 2, 0]), true); let r = c.recv().expect(\"no reply\"); assert_eq!((word(&r, 2), word(&r, 3)), (1, 1), \"the call was accepted\"); }\n")
S("p16-srq-link-stays", [(CS, "                            inner.remove_link(parms.0);", "                            if link.srq_handle.is_none() {\n                                inner.remove_link(parms.0);\n                            }")],
  "a link that is destroyed while service requests are enabled on it, then aborted", "an abort for a link that is gone succeeds",
  "fn main() { let s = serve(b\"x\", 0); let mut c = Cl::open(s.core); let l = c.link(); assert_eq!(c.err(20, &cat(&[u(&[l, 1]), o(b\"h\")])), 0); assert_eq!(c.err(23, &u(&[l])), 0); let mut a = Cl::open(s.abort); assert_eq!(word(&a.call(ASYNC, 1, &u(&[l])).unwrap().1, 0), 4); }\n")
S("p16-blank-address", [(SB, "let (device, shared) = self.devices.get(subaddr).ok_or(())?;", "let (device, shared) = self.devices.get(subaddr.trim_end()).ok_or(())?;")],
  "a device name with white space at the end", "a link is created to a device that is not known by that name",
  "fn main() { let s = serve(b\"x\", 0); let mut c = Cl::open(s.core); let r = c.ok(10, &cat(&[u(&[1, 0, 0]), o(b\"inst0\\n\")])); assert_eq!(word(&r, 0), 21); }\n")
S("p17-end-too-early", [(CS, "if to_take == link.out_buf.len() {", "if link.out_buf.len() <= parms.request_size as usize {")],
  "a read that stops at the termination character while more data is queued and the request was large enough for all of it", "the read is flagged as the end of the response",
  "fn main() { let s = serve(b\"a\\nb\\n\", 0); let mut c = Cl::open(s.core); let l = c.link(); c.write(l, 8, b\"x\"); assert_eq!(c.read(l, 100, 0x80, 10), (0, 2, b\"a\\n\".to_vec())); assert_eq!(c.read(l, 100, 0x80, 10), (0, 6, b\"b\\n\".to_vec())); }\n")
S("p17-silent-command-kept", [(CS, "                                        link.out_buf.extend(&v);\n                                    }\n                                    link.in_buf.clear();", "                                        link.out_buf.extend(&v);\n                                        link.in_buf.clear();\n                                    }")],
  "a command that has no response, followed by another command on the same link", "the second command is executed with the first one in front of it",
  "struct Q(Log); impl lxi_device::Device for Q { fn execute(&mut self, c: &[u8]) -> Option<Vec<u8>> { self.0.lock().unwrap().push(String::from_utf8_lossy(c).to_string()); None } fn get_status(&mut self) -> Result<u8, lxi_device::DeviceError> { Ok(0) } fn trigger(&mut self, _: lxi_device::trigger::Source) -> Result<(), lxi_device::DeviceError> { Ok(()) } fn clear(&mut self) -> Result<(), lxi_device::DeviceError> { Ok(()) } fn set_remote(&mut self, _: bool) -> Result<(), lxi_device::DeviceError> { Ok(()) } fn set_local_lockout(&mut self, _: bool) {} }\nfn main() { let log: Log = Default::default(); let l = std::net::TcpListener::bind(\"127.0.0.1:0\").unwrap(); let p = l.local_addr().unwrap().port(); let (c, _a) = lxi_vxi11::server::vxi11::prelude::VxiServerBuilder::new().core_port(p).device(\"inst0\".to_string(), std::sync::Arc::new(lxi_device::lock::Mutex::new(Q(log.clone()))), lxi_device::lock::SharedLock::new()).build(lxi_device::status::Sender::new()); async_std::task::spawn(c.serve(l.into()));\n let mut c = Cl::open(p); let l = c.link(); c.write(l, 8, b\"A\"); c.write(l, 8, b\"B\"); assert_eq!(*log.lock().unwrap(), vec![\"A\", \"B\"]); }\n")
S("p18-own-mav", [(CS, "resp.stb &= 0xef;", "resp.stb &= 0xff;")],
  "a device whose own status byte has the message-available bit set, without queued data", "the bit is reported although nothing can be read",
  "fn main() { let s = serve(b\"x\", 0x51); let mut c = Cl::open(s.core); let l = c.link(); let r = c.ok(13, &u(&[l, 0, 0, 0])); assert_eq!((word(&r, 0), word(&r, 1)), (0, 0x41)); }\n")
S("p18-shared-lock-code", [(SB, "            SharedLockError::AlreadyLocked | SharedLockError::AlreadyUnlocked => {", "            SharedLockError::AlreadyLocked\n            | SharedLockError::AlreadyUnlocked\n            | SharedLockError::LockedByShared => {")],
  "a device that a client of another protocol holds with a shared lock", "the refused operation reports that no lock is held instead of that the device is locked",
  "fn main() { let s = serve(b\"x\", 0); let mut h = lxi_device::lock::LockHandle::new(s.lock.clone(), s.dev.clone()); h.try_acquire(b\"key\").unwrap(); let mut c = Cl::open(s.core); let l = c.link(); assert_eq!(c.write(l, 8, b\"x\"), (11, 0)); }\n")
S("p19-last-mapping", [(PM, "                    .iter()\n                    .find(", "                    .iter()\n                    .rfind(")],
  "a table with two mappings for the same program, version and protocol", "the port of the last one is returned",
  "use lxi_vxi11::server::portmapper::prelude::*;\nfn main() { let l = std::net::TcpListener::bind(\"127.0.0.1:0\").unwrap(); let p = l.local_addr().unwrap().port(); async_std::task::spawn(StaticPortMap::new([Mapping::new(5, 1, 6, 111), Mapping::new(5, 1, 6, 222)]).serve_tcp(l.into())); let mut c = Cl::open(p); assert_eq!(c.call(100000, 3, &u(&[5, 1, 6, 0])), Some((0, u(&[111])))); }\n")
PC = "use lxi_vxi11::client::portmapper::prelude::*; use async_std::task::block_on;\n"
S("p20-short-result", [(RM, "                    ret.read_xdr(&mut ret_cursor)?;\n                    Ok(ret)", "                    let _ = ret.read_xdr(&mut ret_cursor);\n                    Ok(ret)", 1)],
  "a success reply over TCP whose results are missing or cut short", "the client reports success with a result that the server did not send",
  PC + "fn main() { let l = std::net::TcpListener::bind(\"127.0.0.1:0\").unwrap(); let p = l.local_addr().unwrap().port(); std::thread::spawn(move || { let mut c = Cl(l.accept().unwrap().0, 0); let m = c.recv().unwrap(); c.frag(&u(&[word(&m, 0), 1, 0, 0, 0, 0]), true); c.recv() });\n let r = block_on(async { PortMapperClient::connect_tcp((\"127.0.0.1\", p)).await.unwrap().getport(Mapping::new(1, 1, 6, 0)).await }); assert!(r.is_err(), \"success without a result: {:?}\", r.ok()); }\n")
S("p20-udp-system-error", [(RM, "xdr::AcceptStat::SystemErr => Err(RpcError::SystemErr),", "xdr::AcceptStat::SystemErr => Err(RpcError::GarbageArgs),", 0)],
  "a system error reply to a client that uses UDP", "the client reports another error than the server sent",
  PC + "fn main() { let l = std::net::UdpSocket::bind(\"127.0.0.1:0\").unwrap(); let p = l.local_addr().unwrap().port(); std::thread::spawn(move || { let mut b = [0; 500]; let (_, a) = l.recv_from(&mut b).unwrap(); l.send_to(&u(&[word(&b, 0), 1, 0, 0, 0, 5]), a) });\n let r = block_on(async { PortMapperClient::connect_udp((\"127.0.0.1\", p)).await.unwrap().null().await }); assert!(format!(\"{r:?}\").contains(\"SystemErr\"), \"{r:?}\"); }\n")
RU = "use lxi_device::{lock::SharedLock, Device, DeviceError}; use std::io::{Read, Write};\nstruct E(Vec<Vec<u8>>); impl Device for E { fn execute(&mut self, c: &[u8]) -> Option<Vec<u8>> { self.0.push(c.to_vec()); Some(c.iter().rev().cloned().collect()) } fn get_status(&mut self) -> Result<u8, DeviceError> { Ok(0) } fn trigger(&mut self, _: lxi_device::trigger::Source) -> Result<(), DeviceError> { Ok(()) } fn clear(&mut self) -> Result<(), DeviceError> { Ok(()) } fn set_remote(&mut self, _: bool) -> Result<(), DeviceError> { Ok(()) } fn set_local_lockout(&mut self, _: bool) {} }\ntype Dv = async_std::sync::Arc<futures::lock::Mutex<E>>; fn dv() -> Dv { async_std::sync::Arc::new(futures::lock::Mutex::new(E(vec![]))) }\nfn port() -> u16 { std::net::TcpListener::bind(\"127.0.0.1:0\").unwrap().local_addr().unwrap().port() }\nfn conn(p: u16) -> std::net::TcpStream { for _ in 0..300 { if let Ok(s) = std::net::TcpStream::connect((\"127.0.0.1\", p)) { s.set_read_timeout(Some(std::time::Duration::from_secs(5))).unwrap(); return s; } std::thread::sleep(std::time::Duration::from_millis(20)); } panic!() }\n"
S("p21-terminator-once", [(RW, "                data.push(self.0.write_termination);", "                if data.last() != Some(&self.0.write_termination) {\n                    data.push(self.0.write_termination);\n                }")],
  "a response whose last byte is the write terminator (binary data)", "the response is not followed by a terminator",
  "fn main() { let p = port(); let d = dv(); async_std::task::spawn(lxi_socket::server::ServerConfig::default().read_termination(b'\\r').write_termination(b'\\n').build().accept((\"127.0.0.1\", p), SharedLock::new(), d)); let mut c = conn(p); c.write_all(b\"\\nab\\rc\\r\").unwrap(); let mut b = [0; 6]; c.read_exact(&mut b).expect(\"a terminator is missing\"); assert_eq!(&b, b\"ba\\n\\nc\\n\"); }\n", RAW, (), RU)
S("p22-iac-not-escaped", [(TM, "                                    let to_send = Parser::escape_iac(data);", "                                    let to_send = if data.is_ascii() {\n                                        Parser::escape_iac(data).to_vec()\n                                    } else {\n                                        data\n                                    };")],
  "a response that contains the byte 0xff", "the byte is sent as the start of a telnet command",
  "struct F; impl Device for F { fn execute(&mut self, _: &[u8]) -> Option<Vec<u8>> { Some(vec![0x41, 0xff, 0x42]) } fn get_status(&mut self) -> Result<u8, DeviceError> { Ok(0) } fn trigger(&mut self, _: lxi_device::trigger::Source) -> Result<(), DeviceError> { Ok(()) } fn clear(&mut self) -> Result<(), DeviceError> { Ok(()) } fn set_remote(&mut self, _: bool) -> Result<(), DeviceError> { Ok(()) } fn set_local_lockout(&mut self, _: bool) {} }\nfn main() { let p = port(); let d = async_std::sync::Arc::new(futures::lock::Mutex::new(F)); async_std::task::spawn(lxi_telnet::server::ServerConfig::default().build().accept((\"127.0.0.1\", p), SharedLock::new(), d)); let mut c = conn(p); c.write_all(b\"x\\r\\n\").unwrap(); let mut g: Vec<u8> = vec![]; let mut b = [0u8; 256]; while let Ok(n) = c.read(&mut b) { g.extend(&b[..n]); if n == 0 || g.windows(3).any(|w| w == b\"B\\r\\n\") { break; } } assert!(g.windows(6).any(|w| w == b\"A\\xff\\xffB\\r\\n\"), \"{g:?}\"); }\n", TN, (), RU)
S("p22-split-line", [(TM, "        let mut cmd = Vec::with_capacity(self.0.read_buffer);\n\n        let prompt = Parser::escape_iac(&b\"SCPI> \"[..]);\n\n        loop {", "        let prompt = Parser::escape_iac(&b\"SCPI> \"[..]);\n\n        loop {\n            let mut cmd = Vec::with_capacity(self.0.read_buffer);")],
  "a line that arrives in more than one segment", "only the last part of the line is executed",
  "fn main() { let p = port(); let d = dv(); async_std::task::spawn(lxi_telnet::server::ServerConfig::default().build().accept((\"127.0.0.1\", p), SharedLock::new(), d.clone())); let mut c = conn(p); c.set_nodelay(true).unwrap(); let mut b = [0; 16]; c.write_all(b\"*ID\").unwrap(); c.read(&mut b).unwrap(); std::thread::sleep(std::time::Duration::from_millis(300)); c.write_all(b\"N?\\n\").unwrap(); std::thread::sleep(std::time::Duration::from_millis(700)); let g = async_std::task::block_on(d.lock()).0.clone(); assert_eq!(g, vec![b\"*IDN?\".to_vec()]); }\n", TN, (), RU)
S("p23-short-end-tls", [("hislip/src/server/session/asynchronous.rs", "if payload.len() != 4 {", "if payload.len() > 4 {", 1)],
  "an AsyncEndTLS message with less than 4 bytes of payload in a session of version 2.0", "the asynchronous handler panics instead of reporting an error",
  "fn main() { let s = serve(ServerConfig::default(), b\"\", 0); let (_c, m) = init(s.port, 0x0200); let mut a = Ch::open(s.port); a.send(17, 0, m.p & 0xffff, b\"\"); assert_eq!(a.recv().unwrap().t, 18); a.send(32, 0, 1, b\"ab\"); assert_eq!(a.recv().map(|m| m.t), Some(2), \"no answer\"); }\n", HS, ("hs.rs",), "mod hs; use hs::*; use lxi_hislip::server::ServerConfig;\n")
S("p24-timeout-sum", [(CS, "                    Duration::from_millis($timeout as u64),", "                    Duration::from_millis(($timeout + 10) as u64),")],
  "an operation with the wait-lock flag and a lock timeout of nearly 2^32 ms (wait for ever)", "the handler overflows and the connection dies",
  "fn main() { let s = serve(b\"x\", 0); let mut c = Cl::open(s.core); let l = c.link(); let r = c.call(CORE, 14, &u(&[l, 1, u32::MAX, 0])).expect(\"the handler died\"); assert_eq!(r, (0, u(&[0]))); }\n")
S("p25-core-refused", [(SB, "        res &= portmap", "        res = portmap")],
  "a port mapper that refuses the core mapping but accepts the abort mapping", "registration succeeds although the core service is not registered",
  "fn main() { let l = std::net::TcpListener::bind(\"127.0.0.1:0\").unwrap(); let p = l.local_addr().unwrap().port(); std::thread::spawn(move || { let mut c = Cl(l.accept().unwrap().0, 0); let mut i = 0; while let Some(m) = c.recv() { c.frag(&u(&[word(&m, 0), 1, 0, 0, 0, 0, i]), true); i += 1; } });\n let r = async_std::task::block_on(lxi_vxi11::server::vxi11::prelude::VxiServerBuilder::<Dev>::new().register_portmap((\"127.0.0.1\", p))); assert!(r.is_err()); }\n")
S("p26-old-handle", [(CS, "                            let old = if parms.enable {", "                            let old = if parms.enable && link.srq_handle.is_some() {\n                                // Already enabled\n                                None\n                            } else if parms.enable {")],
  "service requests that are enabled a second time with another handle", "the calls carry the first handle",
  "fn main() { let mut s = serve(b\"x\", 0); let mut c = Cl::open(s.core); let l = c.link(); let q = std::net::TcpListener::bind(\"127.0.0.1:0\").unwrap(); assert_eq!(c.err(25, &u(&[0x7f000001, q.local_addr().unwrap().port() as u32, 0x0607B1, 1, 0])), 0); let mut i = Cl(q.accept().unwrap().0, 0); i.0.set_read_timeout(Some(Duration::from_secs(5))).unwrap();\n for h in [&b\"one\"[..], b\"two\"] { assert_eq!(c.err(20, &cat(&[u(&[l, 1]), o(h)])), 0); } s.srq.send_status(64); let m = i.recv().expect(\"no service request\"); assert_eq!(&m[40..], o(b\"two\")); }\n")
S("p27-abort-serial", [(AB, "            task::spawn(async move {", "            async move {"), (AB, "                drop(token);\n            });", "                drop(token);\n            }\n            .await;"), (AB, "use async_std::{net::TcpListener, task};", "use async_std::net::TcpListener;")],
  "two abort connections at the same time, the first of which stays open", "the second client is never served",
  "fn main() { let s = serve(b\"x\", 0); let mut a = Cl::open(s.abort); a.call(ASYNC, 0, &[]).unwrap(); let mut b = Cl::open(s.abort); assert!(b.call(ASYNC, 0, &[]).is_some(), \"the second connection is not served\"); }\n")
S("p27-portmap-serial", [(PM, "            task::spawn(async move {", "            async move {"), (PM, "                drop(token);\n            });", "                drop(token);\n            }\n            .await;"), (PM, "use async_std::{\n    net::{TcpListener, ToSocketAddrs, UdpSocket},\n    task,\n};", "use async_std::net::{TcpListener, ToSocketAddrs, UdpSocket};")],
  "a port mapper client that keeps its TCP connection open while another one connects", "the second client is never served",
  "use lxi_vxi11::server::portmapper::prelude::*;\nfn main() { let l = std::net::TcpListener::bind(\"127.0.0.1:0\").unwrap(); let p = l.local_addr().unwrap().port(); async_std::task::spawn(StaticPortMap::new([Mapping::new(5, 1, 6, 111)]).serve_tcp(l.into())); let mut a = Cl::open(p); a.call(100000, 0, &[]).unwrap(); let mut b = Cl::open(p); assert!(b.call(100000, 0, &[]).is_some(), \"the second connection is not served\"); }\n")
if __name__ == "__main__":
    want = sys.argv[1:]
    for s in L:
        if not want or s[0] in want: print("OK" if main(*s) else "BAD", s[0], flush=True)
