import sys; sys.path.insert(0, "/verif/tools")
from seed import main
L = []
VX = [("lxi-vxi11", "vxi11")]; HS = [("lxi-hislip", "hislip")]
V = "vxi11/src/"; RM = V + "common/onc_rpc/mod.rs"; RC = V + "common/onc_rpc/record.rs"; CS = V + "server/vxi11/core_service.rs"; AB = V + "server/vxi11/abort_service.rs"; SM = "hislip/src/server/mod.rs"; LK = "device/src/lock.rs"
U = "mod rpc; use rpc::*; use std::time::Duration; use std::io::{Read, Write};\n"
H = "mod hs; use hs::*; use lxi_hislip::server::ServerConfig;\n"
def S(ID, edits, needs, what, demo, crates=VX, helpers=("rpc.rs",), use=U): L.append((ID, ID[:3].upper(), crates, edits, needs, what, use + demo, helpers))
S("p14-short-write", [(RC, "    writer.write_all(record.as_slice()).await?;\n    Ok(())", "    for chunk in record.chunks(1 << 20) {\n        writer.write(chunk).await?;\n    }\n    Ok(())")],
  "a large reply to a client that reads slowly, so that the socket accepts only part of a write", "bytes in the middle of the record are lost",
  "fn main() { let s = serve(b\"\", 0); let mut c = Cl::open(s.core); let l = c.link(); let mut n = 0usize; for i in 0..24u32 { let d: Vec<u8> = (0..900 * 1024u32).map(|k| (k / 1024 + i * 7) as u8).collect(); n += d.len(); assert_eq!(c.write(l, 8, &d).0, 0); }\n"
  " let m = call(900, CORE, 1, 12, &u(&[l, n as u32, 5000, 5000, 0, 0])); c.frag(&m, true); std::thread::sleep(Duration::from_millis(1500)); let r = c.recv().expect(\"the record is cut short\"); assert_eq!((word(&r, 0), word(&r, 5), word(&r, 8)), (900, 0, n as u32)); for i in 0..24u32 { for k in (0..900 * 1024u32).step_by(512) { assert_eq!(r[36 + (i * 900 * 1024 + k) as usize], (k / 1024 + i * 7) as u8); } } }\n")
S("p12-release-mode", [(LK, "            res = Ok(SharedLockMode::Exclusive);", "            res = res.or(Ok(SharedLockMode::Exclusive));")],
  "a client that holds the shared and the exclusive lock and releases them", "the server answers that a shared lock was released",
  "fn main() { let s = serve(ServerConfig::default(), b\"\", 0); let (_s, mut a, _) = session(s.port); a.send(4, 1, 0, b\"key\"); assert_eq!(a.recv().map(|m| (m.t, m.c)), Some((5, 1))); a.send(4, 1, 0, b\"\"); assert_eq!(a.recv().map(|m| (m.t, m.c)), Some((5, 1))); a.send(4, 0, 0, b\"\"); assert_eq!(a.recv().map(|m| (m.t, m.c)), Some((5, 1)), \"the exclusive lock was released too\"); }\n", HS, ("hs.rs",), H)
S("p08-third-async", [(SM, "                                drop(session_guard);\n                                send_fatal!(peer=peer.to_string(), session_id=id;\n                                &mut stream, FatalErrorCode::InvalidInitialization,\n                                    \"Async session already initialized\"",
  "                                session_guard.set_state(SessionState::Handshake);\n                                std::mem::drop(session_guard);\n                                send_fatal!(peer=peer.to_string(), session_id=id;\n                                &mut stream, FatalErrorCode::InvalidInitialization,\n                                    \"Async session already initialized\"")],
  "two more asynchronous channels for a session that has one", "the second attempt is refused but the third gets a channel into the same session",
  "fn main() { let s = serve(ServerConfig::default(), b\"\", 0); let (_s, _a, id) = session(s.port); for _ in 0..3 { let mut a = Ch::open(s.port); a.send(17, 0, id as u32, b\"\"); assert_eq!(a.recv().map(|m| (m.t, m.c)), Some((2, 3)), \"another asynchronous channel\"); } }\n", HS, ("hs.rs",), H)
S("p27-token-kept", [(CS, "                drop(token);", "                std::mem::forget(token);")],
  "more than ten connections one after the other", "the limit of connections is reached although all of them are closed: no client is served any more",
  "fn main() { let s = serve(b\"x\", 0); for i in 0..14 { let mut c = Cl::open(s.core); assert!(c.call(CORE, 0, &[]).is_some(), \"connection {i} is not served\"); } }\n")
if __name__ == "__main__":
    want = sys.argv[1:]
    for s in L:
        if not want or s[0] in want: print("OK" if main(*s) else "BAD", s[0], flush=True)
