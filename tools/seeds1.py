import sys; sys.path.insert(0, "/verif/tools")
from seed import main
L = []
HS = [("lxi-hislip", "hislip")]
LK = "device/src/lock.rs"; ST = "device/src/status.rs"; SM = "hislip/src/server/mod.rs"; MS = "hislip/src/common/messages.rs"; SY = "hislip/src/server/session/synchronous.rs"; AS = "hislip/src/server/session/asynchronous.rs"
USE = "use lxi_device::{lock::*, util::EchoDevice};\nfn main() {\n let dev = EchoDevice::new_arc(); let l = SharedLock::new();\n let h = || LockHandle::new(l.clone(), dev.clone());\n"
L.append(("p01-prefix-key", "P01", [], [(LK, "if key == lockstr {", "if key.starts_with(lockstr) {")],
 "two clients with different lock strings of which the second is a prefix of the first", "a shared lock is granted for a different key than the one it is held with",
 USE + ' let mut a = h(); let mut b = h(); a.try_acquire(b"bench-1").unwrap(); assert!(b.try_acquire(b"bench").is_err(), "granted with another key"); assert_eq!(a.lock_info(), (false, 1)); }\n'))
L.append(("p01-uncounted-join", "P01", [], [(LK, """                    shared.num_shared_locks += 1;
                    self.has_shared = true;""", """                    if !shared.exclusive_lock {
                        shared.num_shared_locks += 1;
                    }
                    self.has_shared = true;""")],
 "a client joins the shared lock while another holder has upgraded to exclusive", "the new holder is not counted, so its release frees the key that the other client still holds",
 USE + ' let mut a = h(); let mut b = h(); a.try_acquire(b"k").unwrap(); a.try_acquire(b"").unwrap(); b.try_acquire(b"k").unwrap(); assert_eq!(a.lock_info(), (true, 2)); }\n'))
L.append(("p02-upgraded-peer", "P02", [], [(LK, """            if shared.exclusive_lock {
                // Someone else have acquired an exclusive
                Err""", """            if shared.exclusive_lock && shared.num_shared_locks < 3 {
                // Someone else have acquired an exclusive
                Err""")],
 "three or more holders of the shared lock, one of which upgrades to exclusive", "the other shared holders still get access to the device",
 USE + ' let mut a = h(); let mut b = h(); let mut c = h(); for x in [&mut a, &mut b, &mut c] { x.try_acquire(b"k").unwrap(); } a.try_acquire(b"").unwrap(); assert!(a.try_lock().is_ok()); assert!(b.can_lock().is_err() && b.try_lock().is_err(), "locked out client gets the device"); }\n'))
L.append(("p03-last-shared-silent", "P03", [], [(LK, """                shared.shared_lock = None;
                notify = true;""", """                shared.shared_lock = None;
                notify = self.has_exclusive;""")],
 "a client waits for the exclusive lock while others hold the shared lock; the last of them releases", "the waiting client sleeps on although the lock is free",
 USE + ''' let mut a = h(); a.try_acquire(b"k").unwrap(); let mut w = h();
 let t = async_std::task::spawn(async move { w.async_acquire(b"").await.is_ok() });
 std::thread::sleep(std::time::Duration::from_millis(500)); a.try_release().unwrap();
 let r = async_std::task::block_on(async_std::future::timeout(std::time::Duration::from_secs(5), t));
 assert_eq!(r.ok(), Some(true), "the waiter was not woken"); }\n'''))
L.append(("p03-one-waiter", "P03", [], [(LK, """    fn notify_release(&mut self) {
        for sender in self.event.drain(..) {
            let _ = sender.send(());
        }""", """    fn notify_release(&mut self) {
        if let Some(sender) = self.event.pop() {
            let _ = sender.send(());
        }"""), ],
 "two clients wait with the same shared key while a third holds the exclusive lock and releases it", "only the first of the waiting clients is told ",
 USE + ''' let mut a = h(); a.try_acquire(b"").unwrap(); let (mut w, mut x) = (h(), h());
 let t = async_std::task::spawn(async move { let r = w.async_lock().await.is_ok(); std::thread::sleep(std::time::Duration::from_millis(100)); r });
 std::thread::sleep(std::time::Duration::from_millis(300));
 let u = async_std::task::spawn(async move { let r = x.async_lock().await.is_ok(); r });
 std::thread::sleep(std::time::Duration::from_millis(300)); a.try_release().unwrap();
 let s = std::time::Duration::from_secs(5);
 let r = async_std::task::block_on(async { (async_std::future::timeout(s, t).await.ok(), async_std::future::timeout(s, u).await.ok()) });
 assert_eq!(r, (Some(true), Some(true)), "a waiter was not woken"); }\n'''))
L.append(("p04-full-receiver", "P04", [], [(ST, """            let _ = sender.try_send(status);
            // Delete from senders if closed
            !sender.is_closed()""", """            // Delete from senders if closed
            sender.try_send(status).is_ok()""")],
 "a receiver whose buffer is full at the moment of a broadcast, and reads later", "a live but momentarily full receiver is forgotten and never gets a status again",
 '''use lxi_device::status::Sender;
fn main() { let mut s = Sender::new(); let mut r = s.get_new_receiver(); for i in 0..8 { s.send_status(i); }
 while let Ok(Some(_)) = r.try_next() {} s.send_status(77);
 assert_eq!(r.try_next().ok().flatten(), Some(77), "a live receiver was dropped"); }\n'''))
HSU = "mod hs; use hs::*; use lxi_hislip::server::ServerConfig;\n"
L.append(("p05-limit-exact", "P05", HS, [(MS, "if len > maxlen {", "if len >= maxlen {")],
 "a payload of exactly the maximum size", "a message that is not above the limit is refused",
 HSU + 'fn main() { let s = serve(ServerConfig::default().max_message_size(32), b"ok", 0); let (mut y, _a, _) = session(s.port); let cmd = [b\'x\'; 32]; y.send(7, 0, 2, &cmd); assert_eq!(y.recv().map(|m| (m.t, m.d)), Some((7, b"ok".to_vec()))); }\n', ["hs.rs"]))
L.append(("p06-info-response-code", "P06", HS, [(MS, "MessageType::AsyncLockInfoResponse => 25,", "MessageType::AsyncLockInfoResponse => 24,")],
 "a lock information request", "the answer has the code of the request",
 HSU + 'fn main() { let s = serve(ServerConfig::default(), b"ok", 0); let (_y, mut a, _) = session(s.port); a.send(24, 0, 0, b""); assert_eq!(a.recv().map(|m| m.t), Some(25)); }\n', ["hs.rs"]))
L.append(("p07-one-too-many", "P07", HS, [(SM, "if self.sessions.len() >= self.max_num_sessions {", "if self.sessions.len() > self.max_num_sessions {")],
 "as many live sessions as are allowed, and one more client", "one session more than the maximum is accepted",
 HSU + 'fn main() { let s = serve(ServerConfig::default().max_num_sessions(3), b"ok", 0); let _k: Vec<_> = (0..3).map(|_| session(s.port)).collect(); let (_c, m) = init(s.port, 0x0100); assert_eq!((m.t, m.c), (2, 4)); }\n', ["hs.rs"]))
L.append(("p08-id-truncated", "P08", HS, [(SM, "let id = (message_parameter & 0x0000FFFF) as u16;", "let id = (message_parameter & 0x000000FF) as u16;")],
 "more than 127 sessions have been opened since the server was started", "an AsyncInitialize for a session id above 255 is refused or joins another session",
 HSU + 'fn main() { let s = serve(ServerConfig::default().max_num_sessions(300), b"ok", 0); let mut k = vec![]; for _ in 0..140 { let (c, m) = init(s.port, 0x0100); assert_eq!(m.t, 1); k.push((c, m.p as u16)); } let id = k.last().unwrap().1; assert!(id > 255); let mut a = Ch::open(s.port); a.send(17, 0, id as u32, b""); assert_eq!(a.recv().map(|m| m.t), Some(18)); let (c, _) = k.last_mut().unwrap(); c.send(7, 0, 2, b"q"); assert_eq!(c.recv().map(|m| m.t), Some(7)); }\n', ["hs.rs"]))
L.append(("p09-stale-command", "P09", HS, [(SY, """                // Clear buffer
                buffer.clear();
                self.clear_buffer(&mut stream, peer.clone(), msg).await?;
                continue;
            }

            // Wait""", """                self.clear_buffer(&mut stream, peer.clone(), msg).await?;
                continue;
            }

            // Wait""")],
 "a device clear after the first part of a command", "the part sent before the clear is prepended to the next command",
 HSU + 'fn main() { let s = serve(ServerConfig::default(), b"", 0); let (mut y, mut a, _) = session(s.port); y.send(6, 0, 2, b"OLD "); std::thread::sleep(std::time::Duration::from_millis(300)); a.send(19, 0, 0, b""); assert_eq!(a.recv().map(|m| m.t), Some(23)); y.send(8, 0, 0, b""); assert_eq!(y.recv().map(|m| m.t), Some(9)); y.send(7, 0, 4, b"NEW"); std::thread::sleep(std::time::Duration::from_millis(500)); assert!(s.log.lock().unwrap().contains(&"exec NEW".to_string()), "{:?}", s.log.lock().unwrap()); }\n', ["hs.rs"]))
L.append(("p10-exact-multiple", "P10", HS, [(SY, "let end = chunks.peek().is_none();", "let end = chunk.len() % 256 != 0;")],
 "a response whose length is a multiple of the message size (256)", "the end of the response is never marked with DataEnd",
 HSU + 'fn main() { let s = serve(ServerConfig::default(), &[b\'z\'; 512], 0); let (mut y, _a, _) = session(s.port); y.send(7, 0, 2, b"q"); assert_eq!(y.recv().map(|m| m.t), Some(6)); assert_eq!(y.recv().map(|m| m.t), Some(7)); }\n', ["hs.rs"]))
L.append(("p11-clear-skips-device", "P11", HS, [(SY, """                    if self.handle.can_lock().is_ok() {
                        let mut dev""", """                    if self.handle.can_lock().is_ok() && control_code & 1 == 0 {
                        let mut dev""")],
 "a device clear whose completion asks for overlapped mode", "the device itself is not cleared",
 HSU + 'fn main() { let s = serve(ServerConfig::default(), b"", 0); let (mut y, mut a, _) = session(s.port); a.send(19, 0, 0, b""); assert_eq!(a.recv().map(|m| m.t), Some(23)); y.send(8, 1, 0, b""); assert_eq!(y.recv().map(|m| (m.t, m.c)), Some((9, 1))); assert_eq!(*s.log.lock().unwrap(), vec!["clear".to_string()]); }\n', ["hs.rs"]))
L.append(("p12-timeout-lock", "P12", HS, [(AS, "                                            .map_err(|_| SharedLockError::Timeout)\n                                            .and_then(|res| res)", "                                            .map_err(|_| SharedLockError::Timeout)\n                                            .map(|_res| ())")],
 "a lock request with a timeout by a client that already holds that lock", "a lock that was refused is reported as granted",
 HSU + 'fn main() { let s = serve(ServerConfig::default(), b"", 0); let (_y, mut a, _) = session(s.port); a.send(4, 1, 0, b""); assert_eq!(a.recv().map(|m| (m.t, m.c)), Some((5, 1))); a.send(4, 1, 300, b""); let m = a.recv().unwrap(); assert_eq!(m.t, 5); assert_ne!(m.c, 1, "second lock reported as granted"); }\n', ["hs.rs"]))
L.append(("p12-srq-rearm", "P12", HS, [(AS, """                            srq_bit = false;

                            MessageType::AsyncStatusResponse""", """                            srq_bit = stb & 0x40 != 0;

                            MessageType::AsyncStatusResponse""")],
 "a status query while the device reports its service request bit, followed by another status change", "no service request is sent for status changes after the query",
 HSU + 'fn main() { let mut s = serve(ServerConfig::default(), b"", 0x41); let (_y, mut a, _) = session(s.port); s.srq.send_status(0x40); assert_eq!(a.recv().map(|m| (m.t, m.c)), Some((20, 0x40))); a.send(21, 0, 0, b""); assert_eq!(a.recv().map(|m| (m.t, m.c)), Some((22, 0x41))); std::thread::sleep(std::time::Duration::from_millis(300)); s.srq.send_status(0x44); let m = a.recv(); assert_eq!(m.map(|m| (m.t, m.c)), Some((20, 0x44))); }\n', ["hs.rs"]))
if __name__ == "__main__":
    only = sys.argv[1:]
    for t in L:
        if not only or t[0] in only:
            main(*t)
