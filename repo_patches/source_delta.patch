From 3998773ede3aca65e57ce344a901707827f8d1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:23 +0000
Subject: [PATCH 01/41] fix: vxi11 DEVICE_READSTB keeps the status byte when
 response data is queued

---
 vxi11/src/server/vxi11/core_service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 894df22..0d1d8fe 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -318,7 +318,7 @@ where
                                     // Replace MAV bit
                                     resp.stb &= 0xef;
                                     if !link.out_buf.is_empty() {
-                                        resp.stb &= 0x10;
+                                        resp.stb |= 0x10;
                                     }
                                     xdr::DeviceErrorCode::NoError
                                 }
-- 
2.43.0


From 395dd2e448c5e4c241016fa4b7577c2713575fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:23 +0000
Subject: [PATCH 02/41] fix: vxi11 CREATE_LINK reports a failed lock and leaves
 no link

---
 vxi11/src/server/vxi11/core_service.rs | 30 +++++++++++++++-----------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 0d1d8fe..fecaa33 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -150,26 +150,30 @@ where
                 let mut inner = self.inner.lock().await;
                 resp.error = match inner.new_link(&parms.device) {
                     Ok((lid, mut link)) => {
-                        resp.lid = lid.into();
-
                         // Try to lock
-                        if parms.lock_device {
-                            let res = timeout(
+                        let res = if parms.lock_device {
+                            timeout(
                                 Duration::from_millis(parms.lock_timeout as u64),
                                 link.handle.async_acquire_exclusive(),
                             )
                             .await
-                            .map_or(Err(SharedLockError::Timeout), |f| f);
-                            match res {
-                                Ok(()) => {
-                                    log::debug!(peer=format!("{}", self.peer), link=lid; "Exclusive lock acquired")
-                                }
-                                Err(err) => resp.error = err.into(),
+                            .map_or(Err(SharedLockError::Timeout), |f| f)
+                        } else {
+                            Ok(())
+                        };
+                        match res {
+                            Ok(()) => {
+                                log::debug!(peer=format!("{}", self.peer), link=lid; "New link: {}, client_id={}", parms.device, parms.client_id);
+                                resp.lid = lid.into();
+                                self.links.lock().await.insert(lid, link);
+                                xdr::DeviceErrorCode::NoError
+                            }
+                            Err(err) => {
+                                log::debug!(peer=format!("{}", self.peer), link=lid; "Failed to lock new link: {:?}", err);
+                                inner.remove_link(lid);
+                                err.into()
                             }
                         }
-                        log::debug!(peer=format!("{}", self.peer), link=lid; "New link: {}, client_id={}", parms.device, parms.client_id);
-                        self.links.lock().await.insert(lid, link);
-                        xdr::DeviceErrorCode::NoError
                     }
                     Err(err) => {
                         log::debug!(peer=format!("{}", self.peer); "Failed to create new link, {:?}: {}", err, parms.device);
-- 
2.43.0


From f62d9957485879cce2484b3b1783dc04594ec109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:24 +0000
Subject: [PATCH 03/41] fix: vxi11 DESTROY_LINK and a closed connection end the
 link

---
 vxi11/src/server/vxi11/core_service.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index fecaa33..d2594f9 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -83,9 +83,10 @@ where
             });
 
             task::spawn(async move {
-                if let Err(err) = s.serve_tcp_stream(stream).await {
+                if let Err(err) = s.clone().serve_tcp_stream(stream).await {
                     log::debug!("Error processing client: {}", err)
                 }
+                s.close_links().await;
                 drop(token);
             });
         }
@@ -107,6 +108,16 @@ pub struct VxiCoreSession<DEV> {
     srq: Arc<Mutex<Option<VxiSrqClient>>>,
 }
 
+impl<DEV> VxiCoreSession<DEV> {
+    /// End every link that is still open on this session
+    async fn close_links(&self) {
+        let mut inner = self.inner.lock().await;
+        for (lid, _link) in self.links.lock().await.drain() {
+            inner.remove_link(lid);
+        }
+    }
+}
+
 #[async_trait::async_trait]
 impl<DEV> RpcService for VxiCoreSession<DEV>
 where
@@ -583,8 +594,8 @@ where
                 log::debug!(peer=format!("{}", self.peer), link=parms.0; "Destroy link");
 
                 let resp = xdr::DeviceError {
-                    error: match get_link!(self.links, &parms.0) {
-                        Some(link) => {
+                    error: match self.links.lock().await.remove(&parms.0) {
+                        Some(mut link) => {
                             let mut inner = self.inner.lock().await;
 
                             link.handle.force_release();
-- 
2.43.0


From 0940e1c7a9f1922a09c951d808c8e4c61e431bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:25 +0000
Subject: [PATCH 04/41] fix: vxi11 DEVICE_READ stays inside the output queue
 and reports the termination character

---
 vxi11/src/server/vxi11/core_service.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index d2594f9..349d2d7 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -270,11 +270,12 @@ where
                                 let pos = link.out_buf.iter().position(|c| c.eq(&parms.term_char));
 
                                 // Take whatever is first terminator, or end
-                                let to_take = pos.map_or(parms.request_size as usize, |x| {
+                                let to_take = pos.map_or(link.out_buf.len(), |x| {
                                     min(link.out_buf.len(), x + 1)
-                                });
+                                })
+                                .min(parms.request_size as usize);
                                 // Returning because of term_char
-                                if matches!(pos, Some(c) if c == to_take) {
+                                if matches!(pos, Some(c) if c + 1 == to_take) {
                                     resp.reason |= 0x2;
                                 }
                                 to_take
-- 
2.43.0


From 7351f411ad589ffbad1476aa32041cafa76d9da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:25 +0000
Subject: [PATCH 05/41] fix: vxi11 link ids wrap around instead of overflowing

---
 vxi11/src/server/vxi11/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vxi11/src/server/vxi11/mod.rs b/vxi11/src/server/vxi11/mod.rs
index 049517a..c8b9089 100644
--- a/vxi11/src/server/vxi11/mod.rs
+++ b/vxi11/src/server/vxi11/mod.rs
@@ -141,9 +141,9 @@ impl<DEV> VxiInner<DEV> {
     }
 
     fn next_link_id(&mut self) -> u32 {
-        self.link_id += 1;
+        self.link_id = self.link_id.wrapping_add(1);
         while self.links.contains_key(&self.link_id) {
-            self.link_id += 1;
+            self.link_id = self.link_id.wrapping_add(1);
         }
         self.link_id
     }
-- 
2.43.0


From 6642c8995ccbd7fe8d06fefc4e5ed4149ac43acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 06/41] fix: xdr opaque and string decoding reject truncated
 data and replace the old value

---
 vxi11/src/common/xdr/basic.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/vxi11/src/common/xdr/basic.rs b/vxi11/src/common/xdr/basic.rs
index c9dcb54..986479f 100644
--- a/vxi11/src/common/xdr/basic.rs
+++ b/vxi11/src/common/xdr/basic.rs
@@ -25,7 +25,7 @@
 #![allow(dead_code)]
 
 use byteorder::{NetworkEndian, ReadBytesExt, WriteBytesExt};
-use std::io::{Read, Result, Write};
+use std::io::{ErrorKind, Read, Result, Write};
 
 macro_rules! read_padding {
     ($reader:expr, $len:expr) => {
@@ -583,7 +583,10 @@ impl XdrDecode for Opaque {
         RD: Read,
     {
         let len = reader.read_u32::<NetworkEndian>()? as usize;
-        reader.take(len as u64).read_to_end(&mut self.0)?;
+        self.0.clear();
+        if reader.take(len as u64).read_to_end(&mut self.0)? < len {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
         read_padding!(reader, len);
         Ok(())
     }
@@ -650,9 +653,12 @@ impl XdrDecode for String {
     where
         RD: Read,
     {
-        let len = reader.read_u32::<NetworkEndian>()? as u64;
-        let mut s = reader.take(len);
-        s.read_to_string(self)?;
+        let len = reader.read_u32::<NetworkEndian>()? as usize;
+        self.clear();
+        let mut s = reader.take(len as u64);
+        if s.read_to_string(self)? < len {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
         read_padding!(reader, len);
         Ok(())
     }
-- 
2.43.0


From ce7e6a32252545b25ad17ed54c6b3f72279cb1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 07/41] fix: portmapper callit arguments and results are
 opaque, not arrays of words

---
 vxi11/src/client/portmapper.rs     | 4 ++--
 vxi11/src/common/portmapper/xdr.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vxi11/src/client/portmapper.rs b/vxi11/src/client/portmapper.rs
index 8297625..5abfdc5 100644
--- a/vxi11/src/client/portmapper.rs
+++ b/vxi11/src/client/portmapper.rs
@@ -87,11 +87,11 @@ impl PortMapperClient {
             prog,
             vers,
             proc,
-            args: args_cursor.into_inner(),
+            args: Opaque(args_cursor.into_inner()),
         };
         let res: CallResult = self.0.call(PMAPPROC_CALLIT, callit_args).await?;
         let mut ret: RET = Default::default();
-        ret.read_xdr(&mut io::Cursor::new(res.res))?;
+        ret.read_xdr(&mut io::Cursor::new(res.res.0))?;
         Ok(ret)
     }
 }
diff --git a/vxi11/src/common/portmapper/xdr.rs b/vxi11/src/common/portmapper/xdr.rs
index bb59b8b..9ada69d 100644
--- a/vxi11/src/common/portmapper/xdr.rs
+++ b/vxi11/src/common/portmapper/xdr.rs
@@ -53,7 +53,7 @@ pub(crate) struct Callit {
     pub(crate) prog: u32,
     pub(crate) vers: u32,
     pub(crate) proc: u32,
-    pub(crate) args: Vec<u8>,
+    pub(crate) args: Opaque,
 }
 
 impl XdrEncode for Callit {
@@ -83,7 +83,7 @@ impl XdrDecode for Callit {
 #[derive(Debug, Default, Clone)]
 pub(crate) struct CallResult {
     pub(crate) port: u32,
-    pub(crate) res: Vec<u8>,
+    pub(crate) res: Opaque,
 }
 
 impl XdrEncode for CallResult {
-- 
2.43.0


From 5a167234a0a1418ce84561f170fed01508545a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 08/41] fix: a truncated RPC record fragment is an error

---
 vxi11/src/common/onc_rpc/record.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/common/onc_rpc/record.rs b/vxi11/src/common/onc_rpc/record.rs
index d9eccdd..567586f 100644
--- a/vxi11/src/common/onc_rpc/record.rs
+++ b/vxi11/src/common/onc_rpc/record.rs
@@ -20,10 +20,13 @@ where
         if buf.len() + len > maxlen || buf.try_reserve(len).is_err() {
             return Err(ErrorKind::OutOfMemory.into());
         }
-        reader
+        let n = reader
             .take((fragment_len & 0x7FFFFFFF) as u64)
             .read_to_end(&mut buf)
             .await?;
+        if n < len {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
 
         // Check if last fragment
         if fragment_len & 0x80000000 != 0 {
-- 
2.43.0


From cfd684d8d22c7c0a0694db0d6c82afb006dee45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 09/41] fix: RPC arguments that cannot be decoded get a
 garbage-args reply

---
 vxi11/src/common/onc_rpc/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index f60cc42..37bae28 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -134,7 +134,7 @@ pub(crate) trait RpcService {
                         RpcError::ProcUnavail => xdr::AcceptStat::ProcUnavail,
                         RpcError::GarbageArgs => xdr::AcceptStat::GarbageArgs,
                         RpcError::SystemErr => xdr::AcceptStat::SystemErr,
-                        RpcError::Io(err) => return Err(err),
+                        RpcError::Io(_) => xdr::AcceptStat::GarbageArgs,
                         RpcError::RpcMissmatch(_) => unreachable!(),
                         RpcError::AuthError(_) => unreachable!(),
                         RpcError::Portmap => unreachable!(),
-- 
2.43.0


From 92ba29631156813b7868bf97a6cd52894aa63ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 10/41] fix: a bad datagram does not stop the UDP RPC server

---
 vxi11/src/common/onc_rpc/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index 37bae28..4231376 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -94,9 +94,14 @@ pub(crate) trait RpcService {
             let mut buf = vec![0; 1500];
             let (n, peer) = socket.recv_from(&mut buf).await?;
 
-            let reply = self.clone().handle_message(buf[..n].to_vec()).await?;
-
-            socket.send_to(&reply, peer).await?;
+            match self.clone().handle_message(buf[..n].to_vec()).await {
+                Ok(reply) => {
+                    if let Err(err) = socket.send_to(&reply, peer).await {
+                        log::debug!("Failed to send reply to {}: {}", peer, err);
+                    }
+                }
+                Err(err) => log::debug!("Ignoring datagram from {}: {}", peer, err),
+            }
         }
     }
 
-- 
2.43.0


From ab0a9f312dd5bbb582078771488ab7830ceb4a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:28 +0000
Subject: [PATCH 11/41] fix: RPC clients only accept the reply to their own
 call

---
 vxi11/src/common/onc_rpc/mod.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index 4231376..5161775 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -217,7 +217,7 @@ impl UdpRpcClient {
         ARGS: XdrEncode,
         RET: XdrDecode + Default,
     {
-        self.xid += 1;
+        self.xid = self.xid.wrapping_add(1);
 
         let mut args_cursor = Cursor::new(Vec::new());
 
@@ -229,13 +229,17 @@ impl UdpRpcClient {
 
         // Read response
         let mut buf = vec![0; 1024];
-        self.socket.recv(&mut buf).await?;
+        let n = self.socket.recv(&mut buf).await?;
+        buf.truncate(n);
         let mut ret_cursor = Cursor::new(buf);
 
         // Deserialize and parse response
         let mut reply = xdr::RpcMessage::default();
         let mut ret: RET = Default::default();
         reply.read_xdr(&mut ret_cursor)?;
+        if reply.xid != self.xid {
+            return Err(RpcError::Io(ErrorKind::InvalidData.into()));
+        }
         match reply {
             xdr::RpcMessage {
                 mtype:
@@ -267,9 +271,7 @@ impl UdpRpcClient {
             xdr::RpcMessage {
                 mtype: xdr::MsgType::Call(..),
                 ..
-            } => {
-                todo!()
-            }
+            } => Err(RpcError::Io(ErrorKind::InvalidData.into())),
         }
     }
 
@@ -282,7 +284,7 @@ impl UdpRpcClient {
     where
         ARGS: XdrEncode,
     {
-        self.xid += 1;
+        self.xid = self.xid.wrapping_add(1);
 
         let mut args_cursor = Cursor::new(Vec::new());
 
@@ -334,7 +336,7 @@ where
         ARGS: XdrEncode,
         RET: XdrDecode + Default,
     {
-        self.xid += 1;
+        self.xid = self.xid.wrapping_add(1);
 
         let mut args_cursor = Cursor::new(Vec::new());
 
@@ -352,6 +354,9 @@ where
         let mut reply = xdr::RpcMessage::default();
         let mut ret: RET = Default::default();
         reply.read_xdr(&mut ret_cursor)?;
+        if reply.xid != self.xid {
+            return Err(RpcError::Io(ErrorKind::InvalidData.into()));
+        }
         match reply {
             xdr::RpcMessage {
                 mtype:
@@ -383,9 +388,7 @@ where
             xdr::RpcMessage {
                 mtype: xdr::MsgType::Call(..),
                 ..
-            } => {
-                todo!()
-            }
+            } => Err(RpcError::Io(ErrorKind::InvalidData.into())),
         }
     }
 
@@ -398,7 +401,7 @@ where
     where
         ARGS: XdrEncode,
     {
-        self.xid += 1;
+        self.xid = self.xid.wrapping_add(1);
 
         let mut args_cursor = Cursor::new(Vec::new());
 
-- 
2.43.0


From a34d5d934e6ddee2ee76d3102ea3cde30264ff8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:28 +0000
Subject: [PATCH 12/41] fix: hislip async channel can only be initialized once

---
 hislip/src/server/session/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/mod.rs b/hislip/src/server/session/mod.rs
index afba926..197dd7a 100644
--- a/hislip/src/server/session/mod.rs
+++ b/hislip/src/server/session/mod.rs
@@ -65,7 +65,7 @@ impl SharedSession {
         // !matches!(self.state, SessionState::Handshake) // Just looks weird
         match self.state {
             SessionState::Handshake => false,
-            _ => false,
+            _ => true,
         }
     }
 
-- 
2.43.0


From be9ac329b762111ab5b021ab8efd3a951a36f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:28 +0000
Subject: [PATCH 13/41] fix: hislip vendor specific message types keep their
 code

---
 hislip/src/common/messages.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index 960c427..78b2f6e 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -253,7 +253,7 @@ impl MessageType {
             MessageType::AuthenticationStart => 36,
             MessageType::AuthenticationExchange => 37,
             MessageType::AuthenticationResult => 38,
-            MessageType::VendorSpecific(x) => x & 0x7F,
+            MessageType::VendorSpecific(x) => x | 0x80,
         }
     }
 
-- 
2.43.0


From 1473e8b539521d3c4476fcae6294fc46e2c68563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:29 +0000
Subject: [PATCH 14/41] fix: hislip short *IDN? response also ends the command

---
 hislip/src/server/session/synchronous.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index a368cae..0e7a4ee 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -236,10 +236,9 @@ where
                                         {
                                             self.config.short_idn.clone()
                                         } else {
-                                            let data = dev.execute(&buffer);
-                                            buffer.clear();
-                                            data
+                                            dev.execute(&buffer)
                                         };
+                                        buffer.clear();
 
                                         // Send back response
                                         if let Some(data) = data {
-- 
2.43.0


From 2d7e9e371cd0dae6dbd876f09baa823c84e28111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:29 +0000
Subject: [PATCH 15/41] fix: hislip reception skips a payload that is too large
 and rejects a truncated one

---
 hislip/src/common/messages.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index 78b2f6e..b5d599a 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -64,6 +64,11 @@ impl Message {
         let message_parameter = BigEndian::read_u32(&buf[4..8]);
 
         if len > maxlen {
+            // Skip payload so that the next message can be received
+            let n = futures::io::copy(reader.take(len), &mut futures::io::sink()).await?;
+            if n < len {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             Ok(Err(Error::NonFatal(
                 NonFatalErrorCode::MessageTooLarge,
                 "Message payload too large".to_string(),
@@ -76,7 +81,10 @@ impl Message {
                     "Out of memory".to_string(),
                 )));
             }
-            reader.take(len).read_to_end(&mut payload).await?;
+            let n = reader.take(len).read_to_end(&mut payload).await?;
+            if (n as u64) < len {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             match MessageType::from_message_type(buf[2]).ok_or_else(|| {
                 Error::NonFatal(
                     NonFatalErrorCode::UnrecognizedMessageType,
-- 
2.43.0


From 784a0bb172cfe177705a96ba3cb326e3cfadc762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:29 +0000
Subject: [PATCH 16/41] fix: hislip payload allocation failure is reported
 instead of aborting

---
 hislip/src/common/messages.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index b5d599a..ede7590 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -74,7 +74,7 @@ impl Message {
                 "Message payload too large".to_string(),
             )))
         } else {
-            let mut payload = Vec::with_capacity(len as usize);
+            let mut payload = Vec::new();
             if payload.try_reserve_exact(len as usize).is_err() {
                 return Ok(Err(Error::Fatal(
                     FatalErrorCode::UnidentifiedError,
-- 
2.43.0


From 97e3f3df242ab236dba4719066dc0e5dd5a8674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:30 +0000
Subject: [PATCH 17/41] fix: hislip maximum message size zero does not panic

---
 hislip/src/server/session/synchronous.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 0e7a4ee..ba2a956 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -243,7 +243,7 @@ where
                                         // Send back response
                                         if let Some(data) = data {
                                             let mut chunks = data
-                                                .chunks(shared.max_message_size as usize)
+                                                .chunks((shared.max_message_size as usize).max(1))
                                                 .peekable();
                                             drop(shared);
 
-- 
2.43.0


From d1a6f4588f45e6b5e7db2c82e142e673feea5528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:30 +0000
Subject: [PATCH 18/41] fix: hislip remote/local control 3 goes to remote

---
 hislip/src/server/session/asynchronous.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 3b23d4e..e72f12e 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -242,7 +242,7 @@ where
                                     //Enable remote and go to remote
                                     shared.enable_remote = true;
                                     let mut dev = handle.async_lock().await.unwrap();
-                                    dev.set_remote(false)
+                                    dev.set_remote(true)
                                 }
                                 4 => {
                                     // Enable remote and lock out local
-- 
2.43.0


From e3e22f0e20335602c4ec9ec232dd366b77422c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:31 +0000
Subject: [PATCH 19/41] fix: hislip AsyncEndTLS with a short payload does not
 panic

---
 hislip/src/server/session/asynchronous.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index e72f12e..b1e68b6 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -425,6 +425,12 @@ where
                             payload,
                         } if protocol >= PROTOCOL_2_0 => {
                             // Only supported >= 2.0
+                            if payload.len() != 4 {
+                                send_fatal!(peer=peer.to_string(), session_id=self.id;
+                                    &mut wr, FatalErrorCode::PoorlyFormattedMessageHeader,
+                                    "Expected 4 bytes in AsyncEndTLS payload"
+                                )
+                            }
 
                             let _control = RmtDeliveredControl(control_code);
                             let message_id_sent = message_parameter;
-- 
2.43.0


From 67f07f4e025cb1dd24d52533f0e5c1de8f3a7a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:31 +0000
Subject: [PATCH 20/41] fix: hislip status changes after a service request do
 not end the session

---
 hislip/src/server/session/asynchronous.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index b1e68b6..f67c5cd 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -90,7 +90,9 @@ where
                                 .write_to(&mut wr)
                                 .await?
                         }
-                        _ => {
+                        // Already announced
+                        Some(_) => {}
+                        None => {
                             send_fatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut wr, FatalErrorCode::UnidentifiedError,
                                 "Server shutdown",
-- 
2.43.0


From 8dc782f657054f90bf47d7bf85ad3cf012f2079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:32 +0000
Subject: [PATCH 21/41] fix: hislip lock that is not available is a failure,
 not an error

---
 hislip/src/common/messages.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index ede7590..814f007 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -457,7 +457,9 @@ pub(crate) enum RequestLockControl {
 impl From<SharedLockError> for RequestLockControl {
     fn from(err: SharedLockError) -> Self {
         match err {
-            SharedLockError::Timeout => RequestLockControl::Failure,
+            SharedLockError::Timeout
+            | SharedLockError::LockedByShared
+            | SharedLockError::LockedByExclusive => RequestLockControl::Failure,
             _ => RequestLockControl::Error,
         }
     }
-- 
2.43.0


From eaf6edc215b8ed9c0a449dba322cae36bd595540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:01 +0000
Subject: [PATCH 22/41] fix: hislip async channel does not hold the session's
 locks while it waits for the device

---
 hislip/src/server/session/asynchronous.rs | 50 +++++++++++------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index f67c5cd..454253a 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -10,7 +10,9 @@ use byteorder::{ByteOrder, NetworkEndian};
 use futures::future::Either;
 use futures::lock::Mutex;
 use futures::{pin_mut, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, FutureExt, Stream};
-use lxi_device::lock::{LockHandle, SharedLockError, SharedLockMode, SpinMutex};
+use lxi_device::lock::{
+    LockHandle, RemoteLockHandle, SharedLockError, SharedLockMode, SpinMutex,
+};
 use lxi_device::{Device, DeviceError};
 
 use crate::common::errors::{Error, FatalErrorCode, NonFatalErrorCode};
@@ -71,6 +73,8 @@ where
     {
         let (mut rd, mut wr) = stream.split();
         let mut srq_bit = false;
+        // Waits without keeping the session's lock handle locked
+        let remote = RemoteLockHandle::new(self.handle.clone());
 
         loop {
             let read_msg = Message::read_from(&mut rd, self.config.max_message_size).fuse();
@@ -176,16 +180,15 @@ where
 
                                         log::debug!(peer=peer.to_string(), session_id=self.id, timeout=timeout; "Async lock: {:?}", lockstr);
                                         // Try to acquire lock
-                                        let mut handle = self.handle.lock();
                                         let res = if timeout == 0 {
                                             // Try to lock immediately
-                                            handle.try_acquire(lockstr.as_bytes())
+                                            remote.try_acquire(lockstr.as_bytes())
                                         } else {
                                             // Try to acquire lock before timeout
                                             // TODO: Cannot be cancelled by AsyncClearDevice
                                             future::timeout(
                                                 Duration::from_millis(timeout as u64),
-                                                handle.async_acquire(lockstr.as_bytes()),
+                                                remote.async_acquire(lockstr.as_bytes()),
                                             )
                                             .await
                                             .map_err(|_| SharedLockError::Timeout)
@@ -218,57 +221,53 @@ where
                             ..
                         } => {
                             log::debug!(peer=peer.to_string(), session_id=self.id, message_id=message_id; "Remote/local request = {}", request);
-                            let mut shared = self.shared.lock().await;
-                            let handle = self.handle.lock();
                             let res = match request {
                                 0 => {
                                     // Disable remote
-                                    shared.enable_remote = false;
-                                    let mut dev = handle.async_lock().await.unwrap();
+                                    self.shared.lock().await.enable_remote = false;
+                                    let mut dev = remote.async_lock().await.unwrap();
                                     dev.set_local_lockout(false);
                                     dev.set_remote(false)
                                 }
                                 1 => {
                                     // Enable remote
-                                    shared.enable_remote = true;
+                                    self.shared.lock().await.enable_remote = true;
                                     Ok(())
                                 }
                                 2 => {
                                     // Disable remote and go to local
-                                    shared.enable_remote = false;
-                                    let mut dev = handle.async_lock().await.unwrap();
+                                    self.shared.lock().await.enable_remote = false;
+                                    let mut dev = remote.async_lock().await.unwrap();
                                     dev.set_local_lockout(false);
                                     dev.set_remote(false)
                                 }
                                 3 => {
                                     //Enable remote and go to remote
-                                    shared.enable_remote = true;
-                                    let mut dev = handle.async_lock().await.unwrap();
+                                    self.shared.lock().await.enable_remote = true;
+                                    let mut dev = remote.async_lock().await.unwrap();
                                     dev.set_remote(true)
                                 }
                                 4 => {
                                     // Enable remote and lock out local
-                                    shared.enable_remote = true;
-                                    let mut dev = handle.async_lock().await.unwrap();
+                                    self.shared.lock().await.enable_remote = true;
+                                    let mut dev = remote.async_lock().await.unwrap();
                                     dev.set_local_lockout(true);
                                     Ok(())
                                 }
                                 5 => {
                                     // Enable remote, got to remote, and set local lockout
-                                    shared.enable_remote = true;
-                                    let mut dev = handle.async_lock().await.unwrap();
+                                    self.shared.lock().await.enable_remote = true;
+                                    let mut dev = remote.async_lock().await.unwrap();
                                     dev.set_local_lockout(true);
                                     dev.set_remote(true)
                                 }
                                 6 => {
                                     // Go to local without changing state of remote enable
-                                    let mut dev = handle.async_lock().await.unwrap();
+                                    let mut dev = remote.async_lock().await.unwrap();
                                     dev.set_remote(false)
                                 }
                                 _ => Err(DeviceError::NotSupported),
                             };
-                            drop(shared);
-                            drop(handle);
 
                             match res {
                                 Ok(_) => {
@@ -352,16 +351,17 @@ where
                             let _control = RmtDeliveredControl(control_code);
 
                             let stb = {
-                                let shared = self.shared.lock().await;
-                                let handle = self.handle.lock();
-                                let mut dev = handle.inner_lock().await;
+                                let (sent, enable_remote) = {
+                                    let shared = self.shared.lock().await;
+                                    (shared.sent_message_id, shared.enable_remote)
+                                };
+                                let mut dev = remote.inner_lock().await;
 
                                 // Calculate MAV bit
-                                let sent = shared.sent_message_id;
                                 let mav = if sent > message_id { 0x10 } else { 0x00 };
 
                                 // Enable remote
-                                if shared.enable_remote {
+                                if enable_remote {
                                     let _res = dev.set_remote(true);
                                 }
 
-- 
2.43.0


From 6b36a9688019e0e8106ec00cc7b3589f9fd9aa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:01 +0000
Subject: [PATCH 23/41] fix: hislip device clear during a response still
 completes

---
 hislip/src/server/session/synchronous.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index ba2a956..77f80f9 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -249,7 +249,7 @@ where
 
                                             while let Some(chunk) = chunks.next() {
                                                 // Stop sending if a clear has been received on async channel
-                                                if self.clear.try_recv().is_ok() {
+                                                if !self.clear.is_empty() {
                                                     break;
                                                 }
 
-- 
2.43.0


From 9cb4024edc3f5cb4195f01a6a0b023f289a2f4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:02 +0000
Subject: [PATCH 24/41] fix: access to a device is checked again once the
 device has been obtained

---
 device/src/lock.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/device/src/lock.rs b/device/src/lock.rs
index 6595319..46a9311 100644
--- a/device/src/lock.rs
+++ b/device/src/lock.rs
@@ -346,7 +346,10 @@ impl<DEV> LockHandle<DEV> {
         // Check any active locks
         self.can_lock()?;
         // Lock device and return a guard
-        self.device.try_lock().ok_or(SharedLockError::Busy)
+        let guard = self.device.try_lock().ok_or(SharedLockError::Busy)?;
+        // A lock may have been granted to someone else in the meantime
+        self.can_lock()?;
+        Ok(guard)
     }
 
     /// Lock device if allowed
@@ -366,6 +369,10 @@ impl<DEV> LockHandle<DEV> {
                     futures::select! {
                         // Device acquired
                         guard = self.device.lock() => {
+                            // A lock may have been granted to someone else in the meantime
+                            if self.can_lock().is_err() {
+                                continue;
+                            }
                             log::trace!(id=self.id; "Locked!");
                             return Ok(guard)
                         },
@@ -447,7 +454,10 @@ impl<DEV> RemoteLockHandle<DEV> {
         // Check any active locks
         self.can_lock()?;
         // Lock device and return a guard
-        self.device.try_lock().ok_or(SharedLockError::Busy)
+        let guard = self.device.try_lock().ok_or(SharedLockError::Busy)?;
+        // A lock may have been granted to someone else in the meantime
+        self.can_lock()?;
+        Ok(guard)
     }
 
     /// Wait for device becoming onlocked (or handle acquiring a lock) and available
@@ -470,6 +480,10 @@ impl<DEV> RemoteLockHandle<DEV> {
                     futures::select! {
                         // Device acquired
                         guard = self.device.lock() => {
+                            // A lock may have been granted to someone else in the meantime
+                            if self.can_lock().is_err() {
+                                continue;
+                            }
                             log::trace!("Locked!");
                             return Ok(guard)
                         },
-- 
2.43.0


From 02d692115ad344720b61c01d99d2561a1a57c895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 25/41] fix: raw socket only removes the termination character
 from a command

---
 raw/src/server/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/raw/src/server/mod.rs b/raw/src/server/mod.rs
index da13cc6..25d819f 100644
--- a/raw/src/server/mod.rs
+++ b/raw/src/server/mod.rs
@@ -140,7 +140,10 @@ impl Server {
 
             let resp = {
                 let mut device = handle.async_lock().await.unwrap();
-                cmd.pop(); // Remove read_termination
+                // Remove read_termination
+                if cmd.last() == Some(&self.0.read_termination) {
+                    cmd.pop();
+                }
                 device.execute(&cmd)
             };
 
-- 
2.43.0


From cc8fd5e969452b710a72ecfc078adb5dfe56083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 26/41] fix: telnet only removes a carriage return from the end
 of a command

---
 telnet/src/server/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 905bf82..92c9ede 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -116,7 +116,9 @@ impl Server {
 
                             if b == b'\n' {
                                 // Remove \r
-                                cmd.pop();
+                                if cmd.last() == Some(&b'\r') {
+                                    cmd.pop();
+                                }
                                 // Lock device and execute
                                 let resp = {
                                     let mut device = handle.async_lock().await.unwrap();
-- 
2.43.0


From 2c5bc0b6ba36239043dbbb57160d3b00fb162210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 27/41] fix: telnet session ends when the client closes the
 connection

---
 telnet/src/server/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 92c9ede..059ea6c 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -92,6 +92,9 @@ impl Server {
 
             // Read a line from stream.
             let n = stream.read(&mut buf).await?;
+            if n == 0 {
+                break;
+            }
 
             let events = instance.receive(&buf[..n]);
             for event in events {
@@ -144,6 +147,7 @@ impl Server {
                 }
             }
         }
+        Ok(())
     }
 }
 
-- 
2.43.0


From 557199e947331fa43e89029579e1a29420e736ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:28 +0000
Subject: [PATCH 28/41] fix: use the last free HiSLIP session id before
 refusing a session

---
 hislip/src/server/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/mod.rs b/hislip/src/server/mod.rs
index e86db47..f39860a 100644
--- a/hislip/src/server/mod.rs
+++ b/hislip/src/server/mod.rs
@@ -476,7 +476,6 @@ where
 
         // Check if session id already exists (wrapped around)
         while self.sessions.contains_key(&self.session_id) {
-            self.session_id = self.session_id.wrapping_add(2);
             // Back at beginning, no more ids...
             if self.session_id == origin {
                 return Err(Error::Fatal(
@@ -484,6 +483,7 @@ where
                     "Out of session ids".to_string(),
                 ));
             }
+            self.session_id = self.session_id.wrapping_add(2);
         }
 
         Ok(self.session_id)
-- 
2.43.0


From 7206482793536b3d8b6c3f3ca41ef555d6be8a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:23 +0000
Subject: [PATCH 29/41] fix: hislip lock request errors have control code 3

Code 2 of an AsyncLockResponse means that a shared lock was released.
---
 hislip/src/common/messages.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index 814f007..ddbb392 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -451,7 +451,7 @@ impl Display for FeatureBitmap {
 pub(crate) enum RequestLockControl {
     Failure = 0,
     Success = 1,
-    Error = 2,
+    Error = 3,
 }
 
 impl From<SharedLockError> for RequestLockControl {
-- 
2.43.0


From 482d84d0b3789a688a3e535baddc01bc4168edb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:33 +0000
Subject: [PATCH 30/41] fix: RPC calls with an unknown auth flavour get an
 authentication error

---
 vxi11/src/common/onc_rpc/xdr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/common/onc_rpc/xdr.rs b/vxi11/src/common/onc_rpc/xdr.rs
index 761fa91..ebbf975 100644
--- a/vxi11/src/common/onc_rpc/xdr.rs
+++ b/vxi11/src/common/onc_rpc/xdr.rs
@@ -303,6 +303,9 @@ pub(crate) enum AuthFlavour {
     None,
     Sys,
     Short,
+
+    /// Any other flavour
+    _Other(u32),
 }
 
 impl Default for AuthFlavour {
@@ -321,7 +324,7 @@ impl XdrDecode for AuthFlavour {
             0 => Self::None,
             1 => Self::Sys,
             2 => Self::Short,
-            _ => return Err(ErrorKind::Other.into()),
+            x => Self::_Other(x),
         };
         Ok(())
     }
@@ -336,6 +339,7 @@ impl XdrEncode for AuthFlavour {
             AuthFlavour::None => 0,
             AuthFlavour::Sys => 1,
             AuthFlavour::Short => 2,
+            AuthFlavour::_Other(x) => *x,
         })
     }
 }
-- 
2.43.0


From 51077a04950c7fef427cfc5e9714cfde0e273138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:51 +0000
Subject: [PATCH 31/41] fix: vxi11 CREATE_LINK does not keep the server locked
 while it waits for the device lock

---
 vxi11/src/server/vxi11/core_service.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 349d2d7..373ae3c 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -158,8 +158,9 @@ where
                     max_recv_size: self.max_recv_size,
                 };
 
-                let mut inner = self.inner.lock().await;
-                resp.error = match inner.new_link(&parms.device) {
+                // Do not keep the server locked while waiting for the device lock
+                let new_link = self.inner.lock().await.new_link(&parms.device);
+                resp.error = match new_link {
                     Ok((lid, mut link)) => {
                         // Try to lock
                         let res = if parms.lock_device {
@@ -181,7 +182,7 @@ where
                             }
                             Err(err) => {
                                 log::debug!(peer=format!("{}", self.peer), link=lid; "Failed to lock new link: {:?}", err);
-                                inner.remove_link(lid);
+                                self.inner.lock().await.remove_link(lid);
                                 err.into()
                             }
                         }
-- 
2.43.0


From a4c9c9fc966930ab0dbad5e71f923bd0266e4540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 32/41] fix: vxi11 core server binds to the core port

---
 vxi11/src/server/vxi11/core_service.rs | 3 ++-
 vxi11/src/server/vxi11/mod.rs          | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 373ae3c..f7c4613 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -51,6 +51,7 @@ macro_rules! lock_device {
 pub struct VxiCoreServer<DEV> {
     pub(super) inner: Arc<Mutex<VxiInner<DEV>>>,
     pub(super) max_recv_size: u32,
+    pub(super) core_port: u16,
     pub(super) async_port: u16,
 }
 
@@ -59,7 +60,7 @@ where
     DEV: Device + Send + 'static,
 {
     pub async fn bind(self: Arc<Self>, addrs: IpAddr) -> io::Result<()> {
-        let listener = TcpListener::bind((addrs, self.async_port)).await?;
+        let listener = TcpListener::bind((addrs, self.core_port)).await?;
         self.serve(listener).await
     }
 
diff --git a/vxi11/src/server/vxi11/mod.rs b/vxi11/src/server/vxi11/mod.rs
index c8b9089..6bd1b88 100644
--- a/vxi11/src/server/vxi11/mod.rs
+++ b/vxi11/src/server/vxi11/mod.rs
@@ -247,6 +247,7 @@ impl<DEV> VxiServerBuilder<DEV> {
         (
             Arc::new(VxiCoreServer {
                 inner: inner.clone(),
+                core_port: self.core_port,
                 async_port: self.async_port,
                 max_recv_size: 128 * 1024,
             }),
-- 
2.43.0


From 43bab7f8fd5099b2d0f1f0cc50909b5359513eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:04 +0000
Subject: [PATCH 33/41] fix: vxi11 service requests stop when their link is
 destroyed

---
 vxi11/src/server/vxi11/core_service.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index f7c4613..90f24f6 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -113,7 +113,10 @@ impl<DEV> VxiCoreSession<DEV> {
     /// End every link that is still open on this session
     async fn close_links(&self) {
         let mut inner = self.inner.lock().await;
-        for (lid, _link) in self.links.lock().await.drain() {
+        for (lid, mut link) in self.links.lock().await.drain() {
+            if let Some(task) = link.srq_handle.take() {
+                task.cancel().await;
+            }
             inner.remove_link(lid);
         }
     }
@@ -603,6 +606,11 @@ where
 
                             link.handle.force_release();
                             inner.remove_link(parms.0);
+
+                            // Do not send service requests for a link that is gone
+                            if let Some(task) = link.srq_handle.take() {
+                                task.cancel().await;
+                            }
                             xdr::DeviceErrorCode::NoError
                         }
                         None => xdr::DeviceErrorCode::InvalidLinkIdentifier,
-- 
2.43.0


From d99c6ccb5024c2b0b4d96cc33e8e79d20fdc24fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 34/41] fix: vxi11 DEVICE_DOCMD reports an unknown link id

---
 vxi11/src/server/vxi11/core_service.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 90f24f6..b294d38 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -586,7 +586,10 @@ where
 
                 log::debug!(peer=format!("{}", self.peer), link=parms.lid.0; "Docmd {}, data={:?}", parms.cmd, parms.data_in);
 
-                resp.error = xdr::DeviceErrorCode::OperationNotSupported;
+                resp.error = match get_link!(self.links, &parms.lid.0) {
+                    Some(_) => xdr::DeviceErrorCode::OperationNotSupported,
+                    None => xdr::DeviceErrorCode::InvalidLinkIdentifier,
+                };
 
                 // Write response
                 resp.write_xdr(ret)?;
-- 
2.43.0


From 98ebc3599d9e8ded0190d7d850a67cba952de16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 35/41] fix: vxi11 servers keep accepting when a client is gone
 before it is served

---
 vxi11/src/server/portmapper.rs          | 9 ++++++++-
 vxi11/src/server/vxi11/abort_service.rs | 9 ++++++++-
 vxi11/src/server/vxi11/core_service.rs  | 9 ++++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/vxi11/src/server/portmapper.rs b/vxi11/src/server/portmapper.rs
index 68cbddc..2b9baca 100644
--- a/vxi11/src/server/portmapper.rs
+++ b/vxi11/src/server/portmapper.rs
@@ -64,7 +64,14 @@ impl<const N: usize> StaticPortMap<N> {
             .backpressure(10);
 
         while let Some((token, stream)) = incoming.next().await {
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // Already disconnected
+                    log::debug!("Failed to get peer address: {}", err);
+                    continue;
+                }
+            };
             log::debug!("Accepted from: {}", peer);
 
             let s = self.clone();
diff --git a/vxi11/src/server/vxi11/abort_service.rs b/vxi11/src/server/vxi11/abort_service.rs
index a33283e..860e7a6 100644
--- a/vxi11/src/server/vxi11/abort_service.rs
+++ b/vxi11/src/server/vxi11/abort_service.rs
@@ -42,7 +42,14 @@ where
             .backpressure(10);
 
         while let Some((token, stream)) = incoming.next().await {
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // Already disconnected
+                    log::debug!("Failed to get peer address: {}", err);
+                    continue;
+                }
+            };
             log::debug!("Accepted from: {}", peer);
 
             let s = self.clone();
diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index b294d38..72c3882 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -72,7 +72,14 @@ where
             .handle_errors(Duration::from_millis(100))
             .backpressure(10);
         while let Some((token, stream)) = incoming.next().await {
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // Already disconnected
+                    log::debug!("Failed to get peer address: {}", err);
+                    continue;
+                }
+            };
             log::debug!("Accepted from: {}", peer);
             let s = Arc::new(VxiCoreSession {
                 peer,
-- 
2.43.0


From bff3d90e6d5e39d7a8d4ef336d47e4d6558e2ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 36/41] fix: raw socket server keeps accepting when a client is
 gone before it is served

---
 raw/src/server/mod.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/raw/src/server/mod.rs b/raw/src/server/mod.rs
index 25d819f..d877641 100644
--- a/raw/src/server/mod.rs
+++ b/raw/src/server/mod.rs
@@ -43,13 +43,22 @@ impl Server {
 
         while let Some((token, stream)) = incoming.next().await {
             let s = self.clone();
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // Already disconnected
+                    log::debug!("Failed to get peer address: {}", err);
+                    continue;
+                }
+            };
             log::error!("Accepted from: {}", peer);
 
             let shared_lock = shared_lock.clone();
             let device = device.clone();
 
-            stream.set_nodelay(true)?;
+            if let Err(err) = stream.set_nodelay(true) {
+                log::debug!("Failed to set nodelay: {}", err);
+            }
 
             task::spawn(async move {
                 let (reader, writer) = stream.split();
@@ -86,7 +95,14 @@ impl Server {
 
         while let Some((token, stream)) = incoming.next().await {
             let s = self.clone();
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // Already disconnected
+                    log::debug!("Failed to get peer address: {}", err);
+                    continue;
+                }
+            };
             log::info!("Accepted from: {:?}", peer);
 
             let shared_lock = shared_lock.clone();
-- 
2.43.0


From a737299e7f9397299ce76b08e48527e8a4390e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 37/41] fix: telnet server keeps accepting when a client is
 gone before it is served

---
 telnet/src/server/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 059ea6c..c19b1ce 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -42,7 +42,14 @@ impl Server {
 
         while let Some((token, stream)) = incoming.next().await {
             let s = self.clone();
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // Already disconnected
+                    log::debug!("Failed to get peer address: {}", err);
+                    continue;
+                }
+            };
             log::error!("Accepted from: {}", peer);
 
             let shared_lock = shared_lock.clone();
-- 
2.43.0


From db832cadf39203f020c7662139f16e0bf56c42b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 38/41] fix: HiSLIP server keeps accepting after a connection
 fails

---
 hislip/src/server/mod.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/hislip/src/server/mod.rs b/hislip/src/server/mod.rs
index f39860a..7c0229a 100644
--- a/hislip/src/server/mod.rs
+++ b/hislip/src/server/mod.rs
@@ -3,9 +3,11 @@ use std::collections::HashMap;
 use std::io;
 use std::str::from_utf8;
 use std::sync::Weak;
+use std::time::Duration;
 
 use async_std::net::{TcpListener, ToSocketAddrs};
 use async_std::sync::Arc;
+use async_std::task;
 
 use futures::task::{Spawn, SpawnExt};
 use futures::{AsyncRead, AsyncWrite, AsyncWriteExt, Stream, StreamExt};
@@ -174,8 +176,30 @@ where
         let listener = TcpListener::bind(addr).await?;
         let mut incoming = listener.incoming();
         while let Some(stream) = incoming.next().await {
-            let stream = stream?;
-            let peer = stream.peer_addr()?;
+            let stream = match stream {
+                Ok(stream) => stream,
+                Err(err) => {
+                    log::warn!("Listening error: {}", err);
+                    // Wait a bit unless it only concerns this connection, i.e. out of resources
+                    if !matches!(
+                        err.kind(),
+                        io::ErrorKind::ConnectionRefused
+                            | io::ErrorKind::ConnectionAborted
+                            | io::ErrorKind::ConnectionReset
+                    ) {
+                        task::sleep(Duration::from_millis(100)).await;
+                    }
+                    continue;
+                }
+            };
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // Already disconnected
+                    log::debug!("Failed to get peer address: {}", err);
+                    continue;
+                }
+            };
 
             let s = self.clone();
             let t = srq.get_new_receiver();
-- 
2.43.0


From 3ebbb72f52ef2720636088e3fbd2423bf16ef05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 39/41] fix: vxi11 UDP interrupt channel can reach other hosts

---
 vxi11/src/server/vxi11/intr_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/intr_client.rs b/vxi11/src/server/vxi11/intr_client.rs
index f153acc..89a5fc8 100644
--- a/vxi11/src/server/vxi11/intr_client.rs
+++ b/vxi11/src/server/vxi11/intr_client.rs
@@ -29,7 +29,7 @@ impl VxiSrqClient {
         udp: bool,
     ) -> io::Result<Self> {
         let client = if udp {
-            let socket = UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).await?;
+            let socket = UdpSocket::bind((Ipv4Addr::UNSPECIFIED, 0)).await?;
             socket
                 .connect((Ipv4Addr::from(host_addr), host_port))
                 .await?;
-- 
2.43.0


From 06a058139da4c7e0f52cf1db44481b901576d68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 40/41] fix: UDP port mapper client can reach other hosts

---
 vxi11/src/client/portmapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vxi11/src/client/portmapper.rs b/vxi11/src/client/portmapper.rs
index 5abfdc5..7d479c3 100644
--- a/vxi11/src/client/portmapper.rs
+++ b/vxi11/src/client/portmapper.rs
@@ -33,7 +33,7 @@ impl PortMapperClient {
     }
 
     pub async fn connect_udp(addrs: impl ToSocketAddrs) -> io::Result<Self> {
-        let sock = UdpSocket::bind("127.0.0.1:0").await?;
+        let sock = UdpSocket::bind("0.0.0.0:0").await?;
         sock.connect(addrs).await?;
         Ok(Self(RpcClient::Udp(UdpRpcClient::new(
             PORTMAPPER_PROG,
-- 
2.43.0


From 35419a688627a34a3f327b0413327dc02cffe43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:56 +0000
Subject: [PATCH 41/41] fix: keep sending service requests after one could not
 be sent

---
 vxi11/src/server/vxi11/core_service.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 72c3882..cd2033b 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -552,7 +552,6 @@ where
                                                     client.device_intr_srq(&parms.handle.0).await
                                                 {
                                                     log::error!(link=parms.lid.0; "Failed to send service request: {err:?}");
-                                                    return Err(err);
                                                 }
                                             } else {
                                                 log::error!(link=parms.lid.0; "Failed to send service request: No interrupt channel open");
-- 
2.43.0

