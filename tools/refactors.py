#!/usr/bin/env python3
"""developer tool: harmless edits; every check has to stay quiet on them. refactors.py [NAME-SUBSTRING...] (scratch copies in /tmp/ref)"""
import os, sys, subprocess, re
D = "/tmp/ref"
RAW, TEL, MOD, CORE, LOCK, ONC = "raw/src/server/mod.rs", "telnet/src/server/mod.rs", "vxi11/src/server/vxi11/mod.rs", "vxi11/src/server/vxi11/core_service.rs", "device/src/lock.rs", "vxi11/src/common/onc_rpc/mod.rs"
REC, PM, HS, HM, HSY, HAS = "vxi11/src/common/onc_rpc/record.rs", "vxi11/src/server/portmapper.rs", "hislip/src/server/mod.rs", "hislip/src/common/messages.rs", "hislip/src/server/session/synchronous.rs", "hislip/src/server/session/asynchronous.rs"
PC = "vxi11/src/client/portmapper.rs"
# name: (groups, properties, [(file, old, new)...])
R = {
 "raw-loop-while": ("raw", "P21", [(RAW, '''        loop {
            // Read a line from stream.
            let n = reader.read_until(self.0.read_termination, &mut cmd).await?;
            if n == 0 {
                log::info!("{:?} disconnected", peer);
                break;
            }
''', '''        while reader.read_until(self.0.read_termination, &mut cmd).await? != 0 {
''')]),
 "raw-strip-helper": ("raw", "P21", [(RAW, '''                // Remove read_termination
                if cmd.last() == Some(&self.0.read_termination) {
                    cmd.pop();
                }
                device.execute(&cmd)''', '''                device.execute(strip(&cmd, self.0.read_termination))'''), (RAW, "/// Socket server configuration builder", '''fn strip(line: &[u8], term: u8) -> &[u8] {
    match line.split_last() {
        Some((last, rest)) if *last == term => rest,
        _ => line,
    }
}

/// Socket server configuration builder''')]),
 "raw-ends-with": ("raw", "P21", [(RAW, '''                if cmd.last() == Some(&self.0.read_termination) {
                    cmd.pop();
                }
                device.execute(&cmd)''', '''                let end = if cmd.ends_with(&[self.0.read_termination]) { cmd.len() - 1 } else { cmd.len() };
                device.execute(&cmd[..end])''')]),
 "raw-fresh-vec": ("raw", "P21", [(RAW, "            // Clear until next message\n            cmd.clear();\n", "            cmd = Vec::new();\n")]),
 "raw-two-writes": ("raw", "P21", [(RAW, '''            if let Some(mut data) = resp {
                data.push(self.0.write_termination);
                log::trace!("{:?} write {} bytes", peer, data.len());
                writer.write_all(&data).await?;''', '''            if let Some(data) = resp {
                writer.write_all(&data).await?;
                writer.write_all(&[self.0.write_termination]).await?;''')]),
 "tel-match-resp": ("telnet", "P22", [(TEL, '''                                if let Some(data) = resp {
                                    let to_send = Parser::escape_iac(data);
                                    stream.write_all(&to_send).await?;
                                    stream.write_all(b"\\r\\n").await?;
                                }''', '''                                match resp {
                                    Some(data) => {
                                        let mut to_send = Parser::escape_iac(data).to_vec();
                                        to_send.extend_from_slice(b"\\r\\n");
                                        stream.write_all(&to_send).await?;
                                    }
                                    None => {}
                                }''')]),
 "tel-if-swap": ("telnet", "P22", [(TEL, "            if n == 0 {\n                break;\n            }\n", "            if n < 1 {\n                return Ok(());\n            }\n")]),
 "tel-index-loop": ("telnet", "P22", [(TEL, "                        for b in data {\n", "                        for i in 0..data.len() {\n                            let b = data[i];\n")]),
 "core-guard-merge": ("core", "P16,P18", [(CORE, '''        if prog != DEVICE_CORE {
            return Err(RpcError::ProgUnavail);
        }

        if vers != DEVICE_CORE_VERSION {
            return Err(RpcError::ProgMissmatch(MissmatchInfo {
                low: DEVICE_CORE_VERSION,
                high: DEVICE_CORE_VERSION,
            }));
        }
''', '''        match (prog, vers) {
            (DEVICE_CORE, DEVICE_CORE_VERSION) => {}
            (DEVICE_CORE, _) => {
                return Err(RpcError::ProgMissmatch(MissmatchInfo {
                    low: DEVICE_CORE_VERSION,
                    high: DEVICE_CORE_VERSION,
                }))
            }
            _ => return Err(RpcError::ProgUnavail),
        }
''')]),
 "core-write-order": ("core", "P17", [(CORE, '''                                link.in_buf.extend_from_slice(&parms.data);
                                resp.size = parms.data.0.len() as u32;
''', '''                                resp.size = parms.data.0.len() as u32;
                                link.in_buf.extend(parms.data.0.iter());
''')]),
 "core-write-take": ("core", "P17", [(CORE, '''                                    if let Some(v) = dev.execute(&link.in_buf) {
                                        //log::debug!(link=parms.lid.0; "Execute {:?} -> {:?}", link.in_buf, v);
                                        link.out_buf.extend(&v);
                                    }
                                    link.in_buf.clear();''', '''                                    let cmd = std::mem::take(&mut link.in_buf);
                                    let v = dev.execute(&cmd);
                                    link.out_buf.extend(v.unwrap_or_default());''')]),
 "core-read-helper": ("core", "P17", [(CORE, '''                            let data = link.out_buf.drain(0..to_take);
                            resp.data = Opaque(data.collect());
''', '''                            let rest = link.out_buf.split_off(to_take);
                            resp.data = Opaque(std::mem::replace(&mut link.out_buf, rest));
''')]),
 "core-read-minmatch": ("core", "P17", [(CORE, '''                                let to_take = pos.map_or(link.out_buf.len(), |x| {
                                    min(link.out_buf.len(), x + 1)
                                })
                                .min(parms.request_size as usize);''', '''                                let to_take = match pos {
                                    Some(x) => min(x + 1, parms.request_size as usize),
                                    None => min(link.out_buf.len(), parms.request_size as usize),
                                };''')]),
 "core-nextid-loop": ("core", "P16", [(MOD, '''        self.link_id = self.link_id.wrapping_add(1);
        while self.links.contains_key(&self.link_id) {
            self.link_id = self.link_id.wrapping_add(1);
        }
        self.link_id''', '''        loop {
            self.link_id = self.link_id.wrapping_add(1);
            if !self.links.contains_key(&self.link_id) {
                return self.link_id;
            }
        }''')]),
 "core-newlink-match": ("core", "P16", [(MOD, '''        let id = self.next_link_id();
        let (device, shared) = self.devices.get(subaddr).ok_or(())?;
''', '''        let id = self.next_link_id();
        let (device, shared) = match self.devices.get(subaddr) {
            Some(x) => x,
            None => return Err(()),
        };
''')]),
 "core-newlink-order": ("core", "P16", [(MOD, '''        let id = self.next_link_id();
        let (device, shared) = self.devices.get(subaddr).ok_or(())?;
        let handle = LockHandle::new(shared.clone(), device.clone());
''', '''        let (device, shared) = self.devices.get(subaddr).cloned().ok_or(())?;
        let handle = LockHandle::new(shared, device);
        let id = self.next_link_id();
''')]),
 "core-clear-helper": ("core", "P18", [(MOD, '''    fn clear(&mut self) {
        self.in_buf.clear();
        self.out_buf.clear();
    }
''', '''    fn clear(&mut self) {
        for b in [&mut self.in_buf, &mut self.out_buf] {
            b.clear();
        }
    }
''')]),
 "setup-res-and": ("core", "P25", [(MOD, '''        if res {
            Ok(self)
        } else {
            Err(RpcError::SystemErr)
        }''', '''        if !res {
            return Err(RpcError::SystemErr);
        }
        Ok(self)''')]),
 "rpc-map-err": ("rpc", "P15", [(ONC, '''                let stat = if let Err(err) = res {
                    match err {
                        RpcError::ProgUnavail => xdr::AcceptStat::ProgUnavail,''', '''                let stat = if let Err(err) = res {
                    // What the caller gets to know
                    match err {
                        RpcError::Io(_) => xdr::AcceptStat::GarbageArgs,
                        RpcError::ProgUnavail => xdr::AcceptStat::ProgUnavail,'''), (ONC, '''                        RpcError::SystemErr => xdr::AcceptStat::SystemErr,
                        RpcError::Io(_) => xdr::AcceptStat::GarbageArgs,
''', '''                        RpcError::SystemErr => xdr::AcceptStat::SystemErr,
''')]),
 "rpc-limit-const": ("rpc,record", "P14,P15", [(ONC, "let fragment = read_record(&mut stream, 1024 * 1024).await?;\n\n            let reply", "const LIMIT: usize = 1024 * 1024;\n            let fragment = read_record(&mut stream, LIMIT).await?;\n\n            let reply")]),
 "rpc-extend": ("rpc", "P15", [(ONC, "        data_out.write_all(&ret.into_inner()[..])?;\n\n        Ok(data_out.into_inner())", "        let mut data = data_out.into_inner();\n        data.extend(ret.into_inner());\n        Ok(data)")]),
 "pm-for-loop": ("portmap", "P19", []),
 "lock-canlock-match": ("lock", "P01,P02", [(LOCK, '''        if self.has_exclusive {
            // I have an exclusive lock
            Ok(())
        } else if self.has_shared {
            // I have a shared lock
            if shared.exclusive_lock {
                // Someone else have acquired an exclusive
                Err(SharedLockError::LockedByExclusive)
            } else {
                Ok(())
            }
        } else {
            // I do not have any locks
            // Check if anyone else have one?
            if shared.exclusive_lock {
                Err(SharedLockError::LockedByExclusive)
            } else if shared.num_shared_locks > 0 {
                Err(SharedLockError::LockedByShared)
            } else {
                Ok(())
            }
        }''', '''        match (self.has_exclusive, self.has_shared) {
            (true, _) => Ok(()),
            _ if shared.exclusive_lock => Err(SharedLockError::LockedByExclusive),
            (false, true) => Ok(()),
            (false, false) if shared.num_shared_locks == 0 => Ok(()),
            _ => Err(SharedLockError::LockedByShared),
        }''')]),
 "lock-release-helper": ("lock", "P01,P03", [(LOCK, '''            shared.num_shared_locks -= 1;
            if shared.num_shared_locks == 0 {
                shared.shared_lock = None;
                notify = true;
            }
            self.has_shared = false;
            log::trace!(id=self.id; "Released shared");''', '''            notify = shared.drop_shared();
            self.has_shared = false;'''), (LOCK, '''    pub fn next_id(&mut self) -> u32 {''', '''    fn drop_shared(&mut self) -> bool {
        self.num_shared_locks -= 1;
        if self.num_shared_locks > 0 {
            return false;
        }
        self.shared_lock = None;
        true
    }

    pub fn next_id(&mut self) -> u32 {''')]),
 "lock-wait-rewrite": ("lock", "P03", [(LOCK, '''                    match listener.take() {
                        None => {
                            // Start listening and then try locking again.
                            let mut shared = self.parent.lock();
                            listener = Some(shared.listen());
                        }
                        Some(l) => {
                            // Wait until a notification is received.
                            log::trace!("Waiting to acquire exclusive...");
                            let _ = l.await;
                        }
                    }''', '''                    if let Some(l) = listener.take() {
                        let _ = l.await;
                    } else {
                        listener = Some(self.parent.lock().listen());
                    }''')]),
 "lock-info-inline": ("lock", "P01", [(LOCK, "        (shared.exclusive_lock(), shared.num_shared_locks())", "        let excl = shared.exclusive_lock;\n        let n = shared.num_shared_locks;\n        (excl, n)")]),
 "hconf-setter": ("hconf", "P07,P08", [(HS, "        self.max_num_sessions = max_num_sessions;\n        self\n", "        Self { max_num_sessions, ..self }\n")]),
 "hconf-build": ("hconf", "P07,P08", [(HS, '''        assert!(
            !self.devices.is_empty(),
            "Server must have one or more devices"
        );
        Server::with_config(self.config, self.devices)''', '''        let Self { config, devices } = self;
        assert!(devices.len() > 0, "Server must have one or more devices");
        Server::with_config(config, devices)''')]),
 "hconf-default": ("hconf", "P07,P08", [(HS, '''        Self {
            config,
            devices: HashMap::new(),
        }''', '''        let mut s = Self::default();
        s.config = config;
        s''')]),
 "device-deref": ("device", "P09,P12", [("device/src/lib.rs", "(**self).set_remote(remote)", "DEV::set_remote(&mut **self, remote)"), ("device/src/lib.rs", "(**self).execute(cmd)", "self.as_mut().execute(cmd)")]),
 "pm-bind": ("setup", "P19,P27", [(PM, "        try_join!(a, b).map(|_| ())", "        let ((), ()) = try_join!(a, b)?;\n        Ok(())")]),
}


ST, MAPPER = "device/src/status.rs", "vxi11/src/common/xdr/basic.rs"
SES = "hislip/src/server/session/mod.rs"
R.update({
 "sync-clear-invert": ("hsync", "P09,P11", [(HSY, """                    if self.handle.can_lock().is_ok() {
                        let mut dev = self.handle.inner_lock().await;
                        let _res = dev.clear();
                    }
""", """                    match self.handle.can_lock() {
                        Ok(()) => {
                            let _ = self.handle.inner_lock().await.clear();
                        }
                        Err(err) => log::debug!("Not clearing: {:?}", err),
                    }
""")]),
 "sync-ack-order": ("hsync", "P11", [(HSY, """        shared.set_state(SessionState::Normal);

        // Client might prefer overlapped/synch, fine.
        shared.mode = if feature_request.overlapped() {
            SessionMode::Overlapped
        } else {
            SessionMode::Synchronized
        };

        // Agreed features
        let feature_setting = FeatureBitmap::new(feature_request.overlapped(), false, false);
""", """        let overlapped = feature_request.overlapped();
        let feature_setting = FeatureBitmap::new(overlapped, false, false);
        shared.mode = match overlapped {
            true => SessionMode::Overlapped,
            false => SessionMode::Synchronized,
        };
        shared.set_state(SessionState::Normal);
""")]),
 "sync-fatal-early": ("hsync", "P23,P11", [(HSY, """                // Ignore other messages
                Ok(_) => {}
                // Invalid message
                Err(err) => {
                    if err.is_fatal() {
                        Message::from(err).write_to(&mut stream).await?;
                        return Err(io::ErrorKind::Other.into());
                    } else {
                        Message::from(err).write_to(&mut stream).await?;
                    }
                }
""", """                // Ignore other messages
                Ok(_) => {}
                // Invalid message
                Err(err) => {
                    let fatal = err.is_fatal();
                    Message::from(err).write_to(&mut stream).await?;
                    if fatal {
                        return Err(io::ErrorKind::Other.into());
                    }
                }
""")]),
 "sync-isend": ("hsync", "P09,P10", [(HSY, "let is_end = matches!(typ, MessageType::DataEnd);", "let is_end = typ == MessageType::DataEnd;")]),
 "sync-idn-match": ("hsync", "P09,P10", [(HSY, """                                        let data = if buffer.eq_ignore_ascii_case(b"*idn?")
                                            && self.config.short_idn.is_some()
                                        {
                                            self.config.short_idn.clone()
                                        } else {
                                            dev.execute(&buffer)
                                        };
                                        buffer.clear();
""", """                                        let data = match &self.config.short_idn {
                                            Some(idn) if buffer.eq_ignore_ascii_case(b"*idn?") => {
                                                Some(idn.clone())
                                            }
                                            _ => dev.execute(&buffer),
                                        };
                                        buffer.clear();
""")]),
 "sync-chunks-for": ("hsync", "P09,P10", [(HSY, """                                            let mut chunks = data
                                                .chunks((shared.max_message_size as usize).max(1))
                                                .peekable();
                                            drop(shared);

                                            while let Some(chunk) = chunks.next() {
""", """                                            let size = (shared.max_message_size as usize).max(1);
                                            drop(shared);
                                            let mut chunks = data.chunks(size).peekable();

                                            while let Some(chunk) = chunks.next() {
""")]),
 "sync-split-loop": ("hsync", "P09,P10", [(HSY, """                                            let mut chunks = data
                                                .chunks((shared.max_message_size as usize).max(1))
                                                .peekable();
                                            drop(shared);

                                            while let Some(chunk) = chunks.next() {
                                                // Stop sending if a clear has been received on async channel
                                                if !self.clear.is_empty() {
                                                    break;
                                                }

                                                // Peek if next chunk exists, if not, mark data as end
                                                let end = chunks.peek().is_none();
                                                let msg = if end {
                                                    MessageType::DataEnd
                                                } else {
                                                    MessageType::Data
                                                };

                                                // Send message
                                                msg.message_params(0, message_id)
                                                    .with_payload(chunk.to_vec())
                                                    .write_to(&mut stream)
                                                    .await?;
                                            }
""", """                                            let size = (shared.max_message_size as usize).max(1);
                                            drop(shared);
                                            let mut rest = &data[..];
                                            while !rest.is_empty() && self.clear.is_empty() {
                                                let (chunk, tail) = rest.split_at(size.min(rest.len()));
                                                let msg = if tail.is_empty() { MessageType::DataEnd } else { MessageType::Data };
                                                msg.message_params(0, message_id)
                                                    .with_payload(chunk.to_vec())
                                                    .write_to(&mut stream)
                                                    .await?;
                                                rest = tail;
                                            }
""")]),
 "sync-trigger-if": ("hsync", "P09,P11", [(HSY, """                            let mut inner = self.shared.lock().await;
                            inner.read_message_id = message_id;
                            let state = inner.state();
                            drop(inner);
""", """                            let state = {
                                let mut inner = self.shared.lock().await;
                                let state = inner.state();
                                inner.read_message_id = message_id;
                                state
                            };
""")]),
 "async-rl-merge": ("hasync", "P12", [(HAS, """                                0 => {
                                    // Disable remote
                                    self.shared.lock().await.enable_remote = false;
                                    let mut dev = remote.async_lock().await.unwrap();
                                    dev.set_local_lockout(false);
                                    dev.set_remote(false)
                                }
""", ""), (HAS, "                                2 => {\n", "                                0 | 2 => {\n")]),
 "async-size-direct": ("hasync", "P12", [(HAS, """                            {
                                let mut shared = self.shared.lock().await;
                                shared.max_message_size = size;
                            }
""", """                            self.shared.lock().await.max_message_size = size;
"""), (HAS, """                            let mut buf = [0u8; 8];

                            NetworkEndian::write_u64(&mut buf, self.config.max_message_size);
""", """                            let buf = self.config.max_message_size.to_be_bytes();
""")]),
 "async-stb-let": ("hasync", "P12", [(HAS, "                                dev.get_status().unwrap_or(0) & 0xef | mav\n", """                                let stb = dev.get_status().unwrap_or_default();
                                (stb & !0x10) | mav
""")]),
 "async-srq-if": ("hasync", "P12", [(HAS, """                        Some(val) if !srq_bit => {
                            srq_bit = true;
                            MessageType::AsyncServiceRequest
                                .message_params(val, 0)
                                .write_to(&mut wr)
                                .await?
                        }
                        // Already announced
                        Some(_) => {}
""", """                        Some(val) => {
                            if !srq_bit {
                                MessageType::AsyncServiceRequest
                                    .message_params(val, 0)
                                    .write_to(&mut wr)
                                    .await?;
                                srq_bit = true;
                            }
                        }
""")]),
 "async-lock-helper": ("hasync", "P12", [(HAS, """                                let control = match handle.try_release() {
                                    Ok(SharedLockMode::Exclusive) => {
                                        ReleaseLockControl::SuccessExclusive
                                    }
                                    Ok(SharedLockMode::Shared) => ReleaseLockControl::SuccessShared,
                                    Err(_) => ReleaseLockControl::Error,
                                };
""", """                                let control = handle.try_release().map_or(ReleaseLockControl::Error, |mode| match mode {
                                    SharedLockMode::Exclusive => ReleaseLockControl::SuccessExclusive,
                                    SharedLockMode::Shared => ReleaseLockControl::SuccessShared,
                                });
""")]),
 "async-timeout-match": ("hasync", "P12", [(HAS, """                                            .await
                                            .map_err(|_| SharedLockError::Timeout)
                                            .and_then(|res| res)
""", """                                            .await
                                            .unwrap_or(Err(SharedLockError::Timeout))
""")]),
 "async-clear-early-drop": ("hasync", "P11,P12", [(HAS, """                            // Announce preferred features
                            let features =
                                FeatureBitmap::new(self.config.prefer_overlap, false, false);
                            drop(shared);
""", """                            drop(shared);
                            let features =
                                FeatureBitmap::new(self.config.prefer_overlap, false, false);
""")]),
 "hinit-subaddr": ("hinit", "P08", [(HS, """                                if s.is_empty() {
                                    log::debug!(peer=peer.to_string(); "Empty sub-address, using default: {DEFAULT_DEVICE_SUBADRESS:?}");
                                    s = DEFAULT_DEVICE_SUBADRESS.to_string();
                                }
""", """                                if s.len() == 0 {
                                    s = String::from(DEFAULT_DEVICE_SUBADRESS);
                                }
""")]),
 "hinit-proto": ("hinit", "P08", [(HS, """                                    let protocol = min(
                                        SUPPORTED_PROTOCOL,
                                        client_parameters.client_protocol(),
                                    );
""", """                                    let client = client_parameters.client_protocol();
                                    let protocol = if client < SUPPORTED_PROTOCOL { client } else { SUPPORTED_PROTOCOL };
""")]),
 "hinit-session-match": ("hinit", "P08", [(HS, """                                if let Some(s) = guard.get_session(id) {
                                    s
                                } else {
                                    send_fatal!(peer=format!("{}", peer), session_id=id;
                                    &mut stream, FatalErrorCode::InvalidInitialization,
                                        "Invalid session id"
                                    );
                                }
""", """                                match guard.get_session(id) {
                                    Some(s) => s,
                                    None => {
                                        send_fatal!(peer=format!("{}", peer), session_id=id;
                                        &mut stream, FatalErrorCode::InvalidInitialization,
                                            "Invalid session id"
                                        );
                                    }
                                }
""")]),
 "hinit-state-late": ("hinit", "P08", [(HS, """                                session_guard.set_state(SessionState::Normal);
                                let protocol = session_guard.protocol();
                                let sender = session_guard.get_clear_sender();
                                drop(session_guard);
""", """                                let sender = session_guard.get_clear_sender();
                                let protocol = session_guard.protocol();
                                session_guard.set_state(SessionState::Normal);
                                drop(session_guard);
""")]),
 "record-while": ("record", "P14", [(REC, """        // Assemble record
        let len = (fragment_len & 0x7FFFFFFF) as usize;
""", """        let last = fragment_len >> 31 == 1;
        let len = (fragment_len & 0x7FFFFFFF) as usize;
"""), (REC, """        if fragment_len & 0x80000000 != 0 {
            break Ok(buf);
        }
""", """        if last {
            return Ok(buf);
        }
""")]),
 "record-frombe": ("record", "P14", [(REC, "let fragment_len = NetworkEndian::read_u32(&fragment_header[..]);", "let fragment_len = u32::from_be_bytes(fragment_header);"), (REC, "            .take((fragment_len & 0x7FFFFFFF) as u64)\n", "            .take(len as u64)\n")]),
 "record-limit": ("record", "P14", [(REC, "        if buf.len() + len > maxlen || buf.try_reserve(len).is_err() {", "        if len > maxlen - buf.len() || buf.try_reserve_exact(len).is_err() {")]),
 "record-onewrite": ("record", "P14", [(REC, """    let mut fragment_header = [0u8; 4];
    NetworkEndian::write_u32(&mut fragment_header, fragment_len);
    writer.write_all(&fragment_header).await?;

    // Write record
    writer.write_all(record.as_slice()).await?;
    Ok(())
""", """    writer.write_all(&fragment_len.to_be_bytes()).await?;

    // Write record
    writer.write_all(&record).await
""")]),
 "pm-find-loop": ("portmap", "P19", [(PM, """                let port = self
                    .mappings
                    .iter()
                    .find(|m| {
                        m.prog == mapping.prog && m.vers == mapping.vers && m.prot == mapping.prot
                    })
                    .map_or(0, |m| m.port as u16);
                port.write_xdr(ret)?;
                Ok(())
""", """                let mut port = 0u16;
                for m in self.mappings.iter() {
                    if m.prog == mapping.prog && m.vers == mapping.vers && m.prot == mapping.prot {
                        port = m.port as u16;
                        break;
                    }
                }
                port.write_xdr(ret)?;
                Ok(())
""")]),
 "pm-match-opt": ("portmap", "P19", [(PM, """                    .map_or(0, |m| m.port as u16);
                port.write_xdr(ret)?;
                Ok(())
""", """                    .map(|m| m.port)
                    .unwrap_or(0) as u16;
                Ok(port.write_xdr(ret)?)
""")]),
 "pm-dump-index": ("portmap", "P19", [(PM, """                for mapping in self.mappings.iter() {
                    true.write_xdr(ret)?;
                    mapping.write_xdr(ret)?;
                }
""", """                for i in 0..N {
                    true.write_xdr(ret)?;
                    self.mappings[i].write_xdr(ret)?;
                }
""")]),
 "status-loop": ("status", "P04", [(ST, """        senders.retain_mut(|sender| {
            let _ = sender.try_send(status);
            // Delete from senders if closed
            !sender.is_closed()
        });
""", """        for sender in senders.iter_mut() {
            let _ = sender.try_send(status);
        }
        senders.retain(|sender| !sender.is_closed());
""")]),
 "status-disconnected": ("status", "P04", [(ST, """            let _ = sender.try_send(status);
            // Delete from senders if closed
            !sender.is_closed()
""", """            match sender.try_send(status) {
                Ok(()) => true,
                Err(err) => !err.is_disconnected(),
            }
""")]),
 "status-receiver-order": ("status", "P04", [(ST, """        let mut senders = self.senders.lock();
        let (sender, receiver) = mpsc::channel(1);
        senders.push(sender);
        receiver
""", """        let (sender, receiver) = mpsc::channel(1);
        self.senders.lock().push(sender);
        receiver
""")]),
})

R.update({
 "rpc-stat-helper": ("rpc", "P15", [(ONC, '''                let stat = if let Err(err) = res {
                    match err {
                        RpcError::ProgUnavail => xdr::AcceptStat::ProgUnavail,
                        RpcError::ProgMissmatch(m) => xdr::AcceptStat::ProgMissmatch(m),
                        RpcError::ProcUnavail => xdr::AcceptStat::ProcUnavail,
                        RpcError::GarbageArgs => xdr::AcceptStat::GarbageArgs,
                        RpcError::SystemErr => xdr::AcceptStat::SystemErr,
                        RpcError::Io(_) => xdr::AcceptStat::GarbageArgs,
                        RpcError::RpcMissmatch(_) => unreachable!(),
                        RpcError::AuthError(_) => unreachable!(),
                        RpcError::Portmap => unreachable!(),
                    }
                } else {
                    xdr::AcceptStat::Success
                };
''', '''                let stat = accept_stat(res);
'''), (ONC, '''pub(crate) struct UdpRpcClient {''', '''/// Status of an executed call
fn accept_stat(res: Result<(), RpcError>) -> xdr::AcceptStat {
    match res {
        Ok(()) => xdr::AcceptStat::Success,
        Err(RpcError::ProgUnavail) => xdr::AcceptStat::ProgUnavail,
        Err(RpcError::ProgMissmatch(m)) => xdr::AcceptStat::ProgMissmatch(m),
        Err(RpcError::ProcUnavail) => xdr::AcceptStat::ProcUnavail,
        Err(RpcError::GarbageArgs) | Err(RpcError::Io(_)) => xdr::AcceptStat::GarbageArgs,
        Err(RpcError::SystemErr) => xdr::AcceptStat::SystemErr,
        Err(_) => unreachable!(),
    }
}

pub(crate) struct UdpRpcClient {''')]),
 "rpc-match-res": ("rpc", "P15", [(ONC, '''                let stat = if let Err(err) = res {
                    match err {
                        RpcError::ProgUnavail => xdr::AcceptStat::ProgUnavail,
                        RpcError::ProgMissmatch(m) => xdr::AcceptStat::ProgMissmatch(m),
                        RpcError::ProcUnavail => xdr::AcceptStat::ProcUnavail,
                        RpcError::GarbageArgs => xdr::AcceptStat::GarbageArgs,
                        RpcError::SystemErr => xdr::AcceptStat::SystemErr,
                        RpcError::Io(_) => xdr::AcceptStat::GarbageArgs,
                        RpcError::RpcMissmatch(_) => unreachable!(),
                        RpcError::AuthError(_) => unreachable!(),
                        RpcError::Portmap => unreachable!(),
                    }
                } else {
                    xdr::AcceptStat::Success
                };
''', '''                let stat = match res {
                    Ok(()) => xdr::AcceptStat::Success,
                    Err(RpcError::ProgUnavail) => xdr::AcceptStat::ProgUnavail,
                    Err(RpcError::ProgMissmatch(m)) => xdr::AcceptStat::ProgMissmatch(m),
                    Err(RpcError::ProcUnavail) => xdr::AcceptStat::ProcUnavail,
                    Err(RpcError::GarbageArgs) | Err(RpcError::Io(_)) => {
                        xdr::AcceptStat::GarbageArgs
                    }
                    Err(RpcError::SystemErr) => xdr::AcceptStat::SystemErr,
                    Err(RpcError::RpcMissmatch(_))
                    | Err(RpcError::AuthError(_))
                    | Err(RpcError::Portmap) => unreachable!(),
                };
''')]),
 "rpc-let-else": ("rpc", "P15", [(ONC, '''        let stat = if let xdr::MsgType::Call(call) = msg.mtype {
            if call.rpc_vers != 2 {''', '''        let call = match msg.mtype {
            xdr::MsgType::Call(call) => call,
            xdr::MsgType::Reply(_) => return Err(ErrorKind::Unsupported.into()),
        };
        let stat = {
            if call.rpc_vers != 2 {'''), (ONC, '''        } else {
            return Err(ErrorKind::Unsupported.into());
        };
        let reply''', '''        };
        let reply''')]),
 "rpc-get-ref": ("rpc", "P15", [(ONC, "data_out.write_all(&ret.into_inner()[..])?;", "data_out.write_all(ret.get_ref())?;")]),
 "rpc-extend": ("rpc", "P15", [(ONC, '''        data_out.write_all(&ret.into_inner()[..])?;

        Ok(data_out.into_inner())''', '''        let mut bytes = data_out.into_inner();
        bytes.extend_from_slice(&ret.into_inner());

        Ok(bytes)''')]),
 "rpc-append": ("rpc", "P15", [(ONC, '''        data_out.write_all(&ret.into_inner()[..])?;

        Ok(data_out.into_inner())''', '''        let mut bytes = data_out.into_inner();
        bytes.append(&mut ret.into_inner());

        Ok(bytes)''')]),
 "rpc-udp-hoist": ("rpc", "P15,P20", [(ONC, '''        loop {
            // Read message
            let mut buf = vec![0; 1500];
            let (n, peer)''', '''        let mut buf = vec![0; 1500];
        loop {
            // Read message
            let (n, peer)''')]),
 "rpc-udp-truncate": ("rpc", "P15,P20", [(ONC, '''            match self.clone().handle_message(buf[..n].to_vec()).await {
                Ok(reply) => {''', '''            buf.truncate(n);
            match self.clone().handle_message(buf).await {
                Ok(reply) => {''')]),
 "rpc-udp-res": ("rpc", "P15,P20", [(ONC, '''            match self.clone().handle_message(buf[..n].to_vec()).await {
                Ok(reply) => {
                    if let Err(err) = socket.send_to(&reply, peer).await {
                        log::debug!("Failed to send reply to {}: {}", peer, err);
                    }
                }
                Err(err) => log::debug!("Ignoring datagram from {}: {}", peer, err),
            }''', '''            let reply = match self.clone().handle_message(buf[..n].to_vec()).await {
                Ok(reply) => reply,
                Err(err) => {
                    log::debug!("Ignoring datagram from {}: {}", peer, err);
                    continue;
                }
            };
            let res = socket.send_to(&reply, peer).await;
            if let Err(err) = res {
                log::debug!("Failed to send reply to {}: {}", peer, err);
            }''')]),
 "rpc-tcp-inline": ("rpc", "P15,P27", [(ONC, '''            let reply = self.clone().handle_message(fragment).await?;

            write_record(&mut stream, reply).await?;''', '''            write_record(&mut stream, self.clone().handle_message(fragment).await?).await?;''')]),
 "rpc-tcp-const": ("rpc", "P15", [(ONC, '''            let fragment = read_record(&mut stream, 1024 * 1024).await?;

            let reply''', '''            let fragment = read_record(&mut stream, MAX_RECORD).await?;

            let reply'''), (ONC, "#[async_trait]\npub(crate) trait RpcService", "const MAX_RECORD: usize = 1024 * 1024;\n\n#[async_trait]\npub(crate) trait RpcService")]),
 "rpc-order": ("rpc", "P15", [(ONC, '''            } else if call.cred.flavour != xdr::AuthFlavour::None {
                log::debug!("Unknown Cred flavour: {:?}", call.cred.flavour);
                xdr::ReplyStat::auth_error(AuthStat::RejectedCred)
            } else if call.verf.flavour != xdr::AuthFlavour::None {
                log::debug!("Unknown Verf flavour: {:?}", call.verf.flavour);
                xdr::ReplyStat::auth_error(AuthStat::RejectedVerf)
            } else {''', '''            } else if !(call.cred.flavour == xdr::AuthFlavour::None) {
                log::debug!("Unknown Cred flavour: {:?}", call.cred.flavour);
                xdr::ReplyStat::auth_error(AuthStat::RejectedCred)
            } else if !(call.verf.flavour == xdr::AuthFlavour::None) {
                log::debug!("Unknown Verf flavour: {:?}", call.verf.flavour);
                xdr::ReplyStat::auth_error(AuthStat::RejectedVerf)
            } else {''')]),
 "client-encode-helper": ("client", "P20", [(ONC, '''        let mut args_cursor = Cursor::new(Vec::new());

        // Send a call
        let msg = xdr::RpcMessage::call(self.xid, self.prog, self.vers, proc);
        msg.write_xdr(&mut args_cursor)?;
        args.write_xdr(&mut args_cursor)?;
        self.socket.send(&args_cursor.into_inner()).await?;

        // Read response''', '''        // Send a call
        let request = encode_call(self.xid, self.prog, self.vers, proc, args)?;
        self.socket.send(&request).await?;

        // Read response'''), (ONC, '''pub(crate) struct UdpRpcClient {''', '''fn encode_call<ARGS: XdrEncode>(
    xid: u32,
    prog: u32,
    vers: u32,
    proc: u32,
    args: ARGS,
) -> io::Result<Vec<u8>> {
    let mut cursor = Cursor::new(Vec::new());
    xdr::RpcMessage::call(xid, prog, vers, proc).write_xdr(&mut cursor)?;
    args.write_xdr(&mut cursor)?;
    Ok(cursor.into_inner())
}

pub(crate) struct UdpRpcClient {''')]),
 "client-buf-slice": ("client", "P20", [(ONC, '''        buf.truncate(n);
        let mut ret_cursor = Cursor::new(buf);''', '''        let mut ret_cursor = Cursor::new(buf[..n].to_vec());''')]),
 "client-ret-late": ("client", "P20", [(ONC, '''        let mut reply = xdr::RpcMessage::default();
        let mut ret: RET = Default::default();
        reply.read_xdr(&mut ret_cursor)?;''', '''        let mut reply = xdr::RpcMessage::default();
        reply.read_xdr(&mut ret_cursor)?;
        let mut ret = RET::default();''')]),
 "client-xid-local": ("client", "P20", [(ONC, '''        self.xid = self.xid.wrapping_add(1);

        let mut args_cursor = Cursor::new(Vec::new());

        // Send a call
        let msg = xdr::RpcMessage::call(self.xid, self.prog, self.vers, proc);''', '''        let xid = self.xid.wrapping_add(1);
        self.xid = xid;

        let mut args_cursor = Cursor::new(Vec::new());

        // Send a call
        let msg = xdr::RpcMessage::call(xid, self.prog, self.vers, proc);''')]),
 "client-xid-match": ("client", "P20", [(ONC, '''        if reply.xid != self.xid {
            return Err(RpcError::Io(ErrorKind::InvalidData.into()));
        }
        match reply {''', '''        match reply {
            xdr::RpcMessage { xid, .. } if xid != self.xid => {
                Err(RpcError::Io(ErrorKind::InvalidData.into()))
            }''')]),
 "client-mtype-match": ("client", "P20", [(ONC, '''        match reply {
            xdr::RpcMessage {
                mtype:
                    xdr::MsgType::Reply(xdr::Replybody {
                        stat: xdr::ReplyStat::Accepted(accepted),
                    }),
                xid: _,
            } => match accepted.stat {''', '''        match reply {
            xdr::RpcMessage {
                mtype:
                    xdr::MsgType::Reply(xdr::Replybody {
                        stat: xdr::ReplyStat::Accepted(xdr::AcceptedReply { stat, .. }),
                    }),
                ..
            } => match stat {''')]),
 "client-register": ("client", "P25", [(PC, '''        let res = self.unset(mapping).await?;
        if !res {
            return Err(RpcError::Portmap);
        }
        let res = self.set(mapping).await?;
        if !res {
            return Err(RpcError::Portmap);
        }
        Ok(())''', '''        if self.unset(mapping).await? && self.set(mapping).await? {
            Ok(())
        } else {
            Err(RpcError::Portmap)
        }''')]),
 "client-callit-direct": ("client", "P20", [(PC, '''        let callit_args = Callit {
            prog,
            vers,
            proc,
            args: Opaque(args_cursor.into_inner()),
        };
        let res: CallResult = self.0.call(PMAPPROC_CALLIT, callit_args).await?;
        let mut ret: RET = Default::default();
        ret.read_xdr(&mut io::Cursor::new(res.res.0))?;
        Ok(ret)''', '''        let args = Opaque(args_cursor.into_inner());
        let res: CallResult = self
            .0
            .call(
                PMAPPROC_CALLIT,
                Callit {
                    prog,
                    vers,
                    proc,
                    args,
                },
            )
            .await?;
        let mut ret = RET::default();
        let mut cursor = io::Cursor::new(res.res.0);
        ret.read_xdr(&mut cursor)?;
        Ok(ret)''')]),
 "reg-id-loop": ("registry", "P07", [(HS, '''        let origin = self.session_id;
        self.session_id = self.session_id.wrapping_add(2);

        // Check if session id already exists (wrapped around)
        while self.sessions.contains_key(&self.session_id) {
            // Back at beginning, no more ids...
            if self.session_id == origin {
                return Err(Error::Fatal(
                    FatalErrorCode::MaximumClientsExceeded,
                    "Out of session ids".to_string(),
                ));
            }
            self.session_id = self.session_id.wrapping_add(2);
        }

        Ok(self.session_id)''', '''        let origin = self.session_id;
        loop {
            self.session_id = self.session_id.wrapping_add(2);
            if !self.sessions.contains_key(&self.session_id) {
                return Ok(self.session_id);
            }
            // Back at beginning, no more ids...
            if self.session_id == origin {
                return Err(Error::Fatal(
                    FatalErrorCode::MaximumClientsExceeded,
                    "Out of session ids".to_string(),
                ));
            }
        }''')]),
 "reg-id-local": ("registry", "P07", [(HS, '''        self.session_id = self.session_id.wrapping_add(2);

        // Check if session id already exists (wrapped around)
        while self.sessions.contains_key(&self.session_id) {
            // Back at beginning, no more ids...
            if self.session_id == origin {
                return Err(Error::Fatal(
                    FatalErrorCode::MaximumClientsExceeded,
                    "Out of session ids".to_string(),
                ));
            }
            self.session_id = self.session_id.wrapping_add(2);
        }

        Ok(self.session_id)''', '''        let mut id = origin.wrapping_add(2);

        // Check if session id already exists (wrapped around)
        while self.sessions.contains_key(&id) {
            // Back at beginning, no more ids...
            if id == origin {
                return Err(Error::Fatal(
                    FatalErrorCode::MaximumClientsExceeded,
                    "Out of session ids".to_string(),
                ));
            }
            id = id.wrapping_add(2);
        }

        self.session_id = id;
        Ok(id)''')]),
 "reg-get-match": ("registry", "P07", [(HS, '''        let tmp = self.sessions.get(&session_id)?;
        let shared = tmp.shared.upgrade()?;
        let dev = tmp.device.upgrade()?;

        Some((shared, dev))''', '''        let tmp = match self.sessions.get(&session_id) {
            Some(tmp) => tmp,
            None => return None,
        };
        match (tmp.shared.upgrade(), tmp.device.upgrade()) {
            (Some(shared), Some(dev)) => Some((shared, dev)),
            _ => None,
        }''')]),
 "reg-get-andthen": ("registry", "P07", [(HS, '''        let tmp = self.sessions.get(&session_id)?;
        let shared = tmp.shared.upgrade()?;
        let dev = tmp.device.upgrade()?;

        Some((shared, dev))''', '''        self.sessions
            .get(&session_id)
            .and_then(|s| Some((s.shared.upgrade()?, s.device.upgrade()?)))''')]),
 "reg-create-order": ("registry", "P07", [(HS, '''        let id = self.new_session_id()?;

        // Create new resources for session
        let shared = Arc::new(Mutex::new(SharedSession::new(protocol)));
        let device = Arc::new(SpinMutex::new(handle));
        let session = SessionHandle::new(id, Arc::downgrade(&shared), Arc::downgrade(&device));

        self.sessions.insert(id, session);
''', '''        // Create new resources for session
        let shared = Arc::new(Mutex::new(SharedSession::new(protocol)));
        let device = Arc::new(SpinMutex::new(handle));

        let id = self.new_session_id()?;
        self.sessions.insert(
            id,
            SessionHandle::new(id, Arc::downgrade(&shared), Arc::downgrade(&device)),
        );
''')]),
 "reg-gc-inline": ("registry", "P07", [(HS, "self.sessions.retain(|_, session| session.active())", '''self.sessions.retain(|_id, s| {
            let alive = s.active();
            alive
        });''')]),
 "reg-limit-helper": ("registry", "P07", [(HS, '''        self.gc_sessions();
        if self.sessions.len() >= self.max_num_sessions {
            return Err(Error::Fatal(''', '''        self.gc_sessions();
        if self.is_full() {
            return Err(Error::Fatal('''), (HS, '''    /// Remove any stale session id''', '''    fn is_full(&self) -> bool {
        self.sessions.len() >= self.max_num_sessions
    }

    /// Remove any stale session id''')]),
 "xdr-pad-fn": ("xdr", "P13", [("vxi11/src/common/xdr/basic.rs", '''        let pad = (4 - ($len & 3)) & 3;
        for _ in 0..pad {
            let _ = $reader.read_u8()?;
        }''', '''        let pad = ($len + 3) / 4 * 4 - $len;
        for _ in 0..pad {
            $reader.read_u8()?;
        }''')]),
 "xdr-mtype-match": ("xdr", "P13", [("vxi11/src/common/onc_rpc/xdr.rs", '''        let discriminator = reader.read_u32::<NetworkEndian>()?;
        match discriminator {
            0 => {
                let mut cb: Callbody = Default::default();
                cb.read_xdr(reader)?;
                *self = Self::Call(cb);
            }
            1 => {
                let mut rb: Replybody = Default::default();
                rb.read_xdr(reader)?;
                *self = Self::Reply(rb);
            }
            _ => return Err(ErrorKind::Other.into()),
        };
        Ok(())''', '''        *self = match reader.read_u32::<NetworkEndian>()? {
            0 => {
                let mut cb = Callbody::default();
                cb.read_xdr(reader)?;
                Self::Call(cb)
            }
            1 => {
                let mut rb = Replybody::default();
                rb.read_xdr(reader)?;
                Self::Reply(rb)
            }
            _ => return Err(ErrorKind::Other.into()),
        };
        Ok(())''')]),
 "xdr-accept-write": ("xdr", "P13", [("vxi11/src/common/onc_rpc/xdr.rs", '''        writer.write_u32::<NetworkEndian>(match *self {
            AcceptStat::Success => 0,
            AcceptStat::ProgUnavail => 1,
            AcceptStat::ProgMissmatch(_) => 2,
            AcceptStat::ProcUnavail => 3,
            AcceptStat::GarbageArgs => 4,
            AcceptStat::SystemErr => 5,
        })?;
        if let AcceptStat::ProgMissmatch(missmatch) = self {
            missmatch.write_xdr(writer)?;
        }
        Ok(())''', '''        let code = match self {
            AcceptStat::Success => 0,
            AcceptStat::ProgUnavail => 1,
            AcceptStat::ProgMissmatch(missmatch) => {
                writer.write_u32::<NetworkEndian>(2)?;
                return missmatch.write_xdr(writer);
            }
            AcceptStat::ProcUnavail => 3,
            AcceptStat::GarbageArgs => 4,
            AcceptStat::SystemErr => 5,
        };
        writer.write_u32::<NetworkEndian>(code)''')]),
 "hm-starts-with": ("hmsg", "P05", [(HM, '''        let prolog = &buf[0..2];
        if prolog != b"HS" {''', '''        if !buf.starts_with(b"HS") {''')]),
 "hm-prolog-bytes": ("hmsg", "P05", [(HM, '''        let prolog = &buf[0..2];
        if prolog != b"HS" {''', '''        if buf[0] != b'H' || buf[1] != b'S' {''')]),
 "hm-header-fn": ("hmsg", "P05", [(HM, '''        let mut buf = [0u8; Message::MESSAGE_HEADER_SIZE];
        buf[0] = b'H';
        buf[1] = b'S';
        buf[2] = self.message_type.get_message_type();
        buf[3] = self.control_code;
        NetworkEndian::write_u32(&mut buf[4..8], self.message_parameter);
        NetworkEndian::write_u64(&mut buf[8..16], self.payload.len() as u64);
        let mut to_send = buf.to_vec();
''', '''        let mut to_send = self.header().to_vec();
'''), (HM, '''    pub(crate) async fn write_to<WR>''', '''    fn header(&self) -> [u8; Message::MESSAGE_HEADER_SIZE] {
        let mut buf = [0u8; Message::MESSAGE_HEADER_SIZE];
        buf[0] = b'H';
        buf[1] = b'S';
        buf[2] = self.message_type.get_message_type();
        buf[3] = self.control_code;
        NetworkEndian::write_u32(&mut buf[4..8], self.message_parameter);
        NetworkEndian::write_u64(&mut buf[8..16], self.payload.len() as u64);
        buf
    }

    pub(crate) async fn write_to<WR>''')]),
 "hm-two-writes": ("hmsg", "P05", [(HM, '''        let mut to_send = buf.to_vec();
        to_send.extend_from_slice(&self.payload);
        writer.write_all(&to_send).await?;
        Ok(())''', '''        writer.write_all(&buf).await?;
        writer.write_all(&self.payload).await?;
        Ok(())''')]),
 "hm-capacity": ("hmsg", "P05", [(HM, '''        let mut to_send = buf.to_vec();
        to_send.extend_from_slice(&self.payload);
        writer.write_all(&to_send).await?;
        Ok(())''', '''        let mut to_send = Vec::with_capacity(buf.len() + self.payload.len());
        to_send.extend_from_slice(&buf);
        to_send.extend_from_slice(&self.payload);
        writer.write_all(&to_send).await''')]),
 "hm-be-bytes": ("hmsg", "P05", [(HM, '''        NetworkEndian::write_u32(&mut buf[4..8], self.message_parameter);
        NetworkEndian::write_u64(&mut buf[8..16], self.payload.len() as u64);
''', '''        buf[4..8].copy_from_slice(&self.message_parameter.to_be_bytes());
        buf[8..16].copy_from_slice(&(self.payload.len() as u64).to_be_bytes());
''')]),
 "hm-type-match": ("hmsg", "P05", [(HM, '''            match MessageType::from_message_type(buf[2]).ok_or_else(|| {
                Error::NonFatal(
                    NonFatalErrorCode::UnrecognizedMessageType,
                    "Unrecognized message type".to_string(),
                )
            }) {
                Ok(message_type) => Ok(Ok(Message {
                    message_type,
                    control_code,
                    message_parameter,
                    payload,
                })),
                Err(err) => Ok(Err(err)),
            }''', '''            Ok(match MessageType::from_message_type(buf[2]) {
                Some(message_type) => Ok(Message {
                    message_type,
                    control_code,
                    message_parameter,
                    payload,
                }),
                None => Err(Error::NonFatal(
                    NonFatalErrorCode::UnrecognizedMessageType,
                    "Unrecognized message type".to_string(),
                )),
            })''')]),
 "hm-early-return": ("hmsg", "P05", [(HM, '''            Ok(Err(Error::NonFatal(
                NonFatalErrorCode::MessageTooLarge,
                "Message payload too large".to_string(),
            )))
        } else {
            let mut payload''', '''            return Ok(Err(Error::NonFatal(
                NonFatalErrorCode::MessageTooLarge,
                "Message payload too large".to_string(),
            )));
        }
        {
            let mut payload''')]),
 "hm-type-first": ("hmsg", "P05", [(HM, '''        let control_code = buf[3];
        let len''', '''        let message_type = MessageType::from_message_type(buf[2]);
        let control_code = buf[3];
        let len'''), (HM, "match MessageType::from_message_type(buf[2]).ok_or_else(||", "match message_type.ok_or_else(||")]),
 "hm-ne-len": ("hmsg", "P05", [(HM, "if (n as u64) < len {", "if n as u64 != len {")]),
 "hm-from-tuple": ("hmsg", "P05,P06", [(HM, '''        match err {
            Error::Fatal(code, msg) => MessageType::FatalError
                .message_params(code.error_code(), 0)
                .with_payload(msg.into_bytes()),
            Error::NonFatal(code, msg) => MessageType::Error
                .message_params(code.error_code(), 0)
                .with_payload(msg.into_bytes()),
        }''', '''        let (typ, code, msg) = match err {
            Error::Fatal(code, msg) => (MessageType::FatalError, code.error_code(), msg),
            Error::NonFatal(code, msg) => (MessageType::Error, code.error_code(), msg),
        };
        typ.message_params(code, 0).with_payload(msg.into_bytes())''')]),
 "hm-nopayload": ("hmsg", "P05", [(HM, '''        Self {
            payload: Vec::new(),
            ..self
        }''', '''        self.with_payload(Vec::new())''')]),
 "hm-vendor-or": ("hmsg", "P06", [(HM, "128..=255 => Some(MessageType::VendorSpecific(typ)),\n            _ => None,", "x if x >= 128 => Some(MessageType::VendorSpecific(x)),\n            _ => None,")]),
 "setup-two-bools": ("setup", "P25", [(MOD, "let mut res = portmap", "let core = portmap"), (MOD, "res &= portmap", "let asynch = portmap"), (MOD, "        if res {\n            Ok(self)", "        if core && asynch {\n            Ok(self)")]),
 "setup-early": ("setup", "P25", [(MOD, '''        if res {
            Ok(self)
        } else {
            Err(RpcError::SystemErr)
        }''', '''        if !res {
            return Err(RpcError::SystemErr);
        }
        Ok(self)''')]),
 "setup-mappings": ("setup", "P25", [(MOD, '''        let mut res = portmap
            .set(Mapping::new(
                DEVICE_CORE,
                DEVICE_CORE_VERSION,
                PORTMAPPER_PROT_TCP,
                self.core_port as u32,
            ))
            .await?;''', '''        let core = Mapping::new(
            DEVICE_CORE,
            DEVICE_CORE_VERSION,
            PORTMAPPER_PROT_TCP,
            self.core_port as u32,
        );
        let mut res = portmap.set(core).await?;''')]),
 "core-inner-idloop": ("core", "P16", [(MOD, '''        self.link_id = self.link_id.wrapping_add(1);
        while self.links.contains_key(&self.link_id) {
            self.link_id = self.link_id.wrapping_add(1);
        }
        self.link_id''', '''        loop {
            self.link_id = self.link_id.wrapping_add(1);
            if !self.links.contains_key(&self.link_id) {
                break;
            }
        }
        self.link_id''')]),
 "core-newlink-order": ("core", "P16", [(MOD, '''        let id = self.next_link_id();
        let (device, shared) = self.devices.get(subaddr).ok_or(())?;
        let handle = LockHandle::new(shared.clone(), device.clone());
''', '''        let (device, shared) = self.devices.get(subaddr).ok_or(())?;
        let handle = LockHandle::new(shared.clone(), device.clone());
        let id = self.next_link_id();
''')]),
 "core-session-helper": ("accepts,core,rpc", "P27,P16", [(CORE, '''            let s = Arc::new(VxiCoreSession {
                peer,
                inner: self.inner.clone(),
                max_recv_size: self.max_recv_size,
                async_port: self.async_port,
                links: Mutex::new(HashMap::new()),
                srq: Arc::new(Mutex::new(None)),
            });
''', '''            let s = Arc::new(self.new_session(peer));
'''), (CORE, '''    pub async fn serve(self: Arc<Self>, listener: TcpListener) -> io::Result<()> {
        log::info!("Core''', '''    fn new_session(&self, peer: SocketAddr) -> VxiCoreSession<DEV> {
        VxiCoreSession {
            peer,
            inner: self.inner.clone(),
            max_recv_size: self.max_recv_size,
            async_port: self.async_port,
            links: Mutex::new(HashMap::new()),
            srq: Arc::new(Mutex::new(None)),
        }
    }

    pub async fn serve(self: Arc<Self>, listener: TcpListener) -> io::Result<()> {
        log::info!("Core''')]),
 "accepts-letelse": ("accepts", "P27", [(CORE, '''            let peer = match stream.peer_addr() {
                Ok(peer) => peer,
                Err(err) => {
                    // Already disconnected
                    log::debug!("Failed to get peer address: {}", err);
                    continue;
                }
            };
            log::debug!("Accepted from: {}", peer);''', '''            let Ok(peer) = stream.peer_addr() else {
                // Already disconnected
                continue;
            };
            log::debug!("Accepted from: {}", peer);''')]),
 "hconf-with-config": ("hconf,accepts", "P07,P09", [(HS, '''        Arc::new(Server {
            inner: InnerServer::new(config.max_num_sessions),
            config,
            devices,
        })''', '''        let inner = InnerServer::new(config.max_num_sessions);
        let server = Self {
            inner,
            devices,
            config,
        };
        Arc::new(server)''')]),
 "status-loop": ("status", "P04", [("device/src/status.rs", '''        senders.retain_mut(|sender| {
            let _ = sender.try_send(status);
            // Delete from senders if closed
            !sender.is_closed()
        });''', '''        for sender in senders.iter_mut() {
            let _ = sender.try_send(status);
        }
        // Delete from senders if closed
        senders.retain(|sender| !sender.is_closed());''')]),
 "status-new-order": ("status", "P04", [("device/src/status.rs", '''        let mut senders = self.senders.lock();
        let (sender, receiver) = mpsc::channel(1);
        senders.push(sender);
        receiver''', '''        let (sender, receiver) = mpsc::channel(1);
        self.senders.lock().push(sender);
        receiver''')]),
})


# helpers, constants and local closures taken out of functions that are under contract
R.update({
 "h-core-write-helper": ("core", "P17", [(CORE, """                                link.in_buf
                                    .try_reserve(parms.data.len())
                                    .map_err(|_| RpcError::SystemErr)?;
                                link.in_buf.extend_from_slice(&parms.data);
                                resp.size""", """                                append(&mut link.in_buf, &parms.data)?;
                                resp.size"""), (CORE, "pub struct VxiCoreSession<DEV> {", """fn append(buf: &mut Vec<u8>, data: &[u8]) -> Result<(), RpcError> {
    buf.try_reserve(data.len())
        .map_err(|_| RpcError::SystemErr)?;
    buf.extend_from_slice(data);
    Ok(())
}

pub struct VxiCoreSession<DEV> {""")]),
 "h-core-take-count": ("core", "P17", [(CORE, """                            let to_take = if parms.flags.is_termcharset() {
                                let pos = link.out_buf.iter().position(|c| c.eq(&parms.term_char));

                                // Take whatever is first terminator, or end
                                let to_take = pos.map_or(link.out_buf.len(), |x| {
                                    min(link.out_buf.len(), x + 1)
                                })
                                .min(parms.request_size as usize);
""", """                            let limit = parms.request_size as usize;
                            let to_take = if parms.flags.is_termcharset() {
                                let pos = link.out_buf.iter().position(|c| c.eq(&parms.term_char));

                                // Take whatever is first terminator, or end
                                let to_take = upto(&link.out_buf, pos).min(limit);
"""), (CORE, "pub struct VxiCoreSession<DEV> {", """/// Number of bytes up to and including the terminator, if there is one
fn upto(buf: &Vec<u8>, pos: Option<usize>) -> usize {
    match pos {
        Some(x) => min(buf.len(), x + 1),
        None => buf.len(),
    }
}

pub struct VxiCoreSession<DEV> {""")]),
 "h-core-reason-const": ("core", "P17", [(CORE, "resp.reason |= 0x2;", "resp.reason |= REASON_CHR;"), (CORE, "resp.reason |= 0x1;", "resp.reason |= REASON_REQCNT;"), (CORE, "resp.reason |= 0x4;", "resp.reason |= REASON_END;"), (CORE, "pub struct VxiCoreSession<DEV> {", """const REASON_REQCNT: u32 = 1;
const REASON_CHR: u32 = 2;
const REASON_END: u32 = 4;

pub struct VxiCoreSession<DEV> {""")]),
 "h-core-prog-check": ("core", "P16,P18", [(CORE, """        if prog != DEVICE_CORE {
            return Err(RpcError::ProgUnavail);
        }

        if vers != DEVICE_CORE_VERSION {
            return Err(RpcError::ProgMissmatch(MissmatchInfo {
                low: DEVICE_CORE_VERSION,
                high: DEVICE_CORE_VERSION,
            }));
        }
""", """        check_program(prog, vers)?;
"""), (CORE, "pub struct VxiCoreSession<DEV> {", """fn check_program(prog: u32, vers: u32) -> Result<(), RpcError> {
    if prog != DEVICE_CORE {
        return Err(RpcError::ProgUnavail);
    }
    if vers != DEVICE_CORE_VERSION {
        return Err(RpcError::ProgMissmatch(MissmatchInfo {
            low: DEVICE_CORE_VERSION,
            high: DEVICE_CORE_VERSION,
        }));
    }
    Ok(())
}

pub struct VxiCoreSession<DEV> {""")]),
 "h-core-prog-match": ("core", "P16,P18", [(CORE, """        if prog != DEVICE_CORE {
            return Err(RpcError::ProgUnavail);
        }

        if vers != DEVICE_CORE_VERSION {
            return Err(RpcError::ProgMissmatch(MissmatchInfo {
                low: DEVICE_CORE_VERSION,
                high: DEVICE_CORE_VERSION,
            }));
        }
""", """        if let Some(err) = refused(prog, vers) {
            return Err(err);
        }
"""), (CORE, "pub struct VxiCoreSession<DEV> {", """fn refused(prog: u32, vers: u32) -> Option<RpcError> {
    if prog != DEVICE_CORE {
        return Some(RpcError::ProgUnavail);
    }
    if vers != DEVICE_CORE_VERSION {
        return Some(RpcError::ProgMissmatch(MissmatchInfo {
            low: DEVICE_CORE_VERSION,
            high: DEVICE_CORE_VERSION,
        }));
    }
    None
}

pub struct VxiCoreSession<DEV> {""")]),
 "h-sync-respond": ("hsync", "P09,P10", [(HSY, """                                        let data = if buffer.eq_ignore_ascii_case(b"*idn?")
                                            && self.config.short_idn.is_some()
                                        {
                                            self.config.short_idn.clone()
                                        } else {
                                            dev.execute(&buffer)
                                        };
                                        buffer.clear();
""", """                                        let short = if is_idn(&buffer) { self.config.short_idn.clone() } else { None };
                                        let data = match short {
                                            Some(idn) => Some(idn),
                                            None => dev.execute(&buffer),
                                        };
                                        buffer.clear();
"""), (HSY, "pub(crate) struct SyncSession", """fn is_idn(cmd: &[u8]) -> bool {
    cmd.eq_ignore_ascii_case(b"*idn?")
}

pub(crate) struct SyncSession""")]),
 "h-sync-chunklen": ("hsync", "P10", [(HSY, """                                            let mut chunks = data
                                                .chunks((shared.max_message_size as usize).max(1))
                                                .peekable();
""", """                                            let size = chunk_size(shared.max_message_size);
                                            let mut chunks = data.chunks(size).peekable();
"""), (HSY, "pub(crate) struct SyncSession", """fn chunk_size(max_message_size: u64) -> usize {
    let n = max_message_size as usize;
    if n == 0 {
        return 1;
    }
    n
}

pub(crate) struct SyncSession""")]),
 "h-sync-endtype": ("hsync", "P10", [(HSY, """                                                let end = chunks.peek().is_none();
                                                let msg = if end {
                                                    MessageType::DataEnd
                                                } else {
                                                    MessageType::Data
                                                };
""", """                                                let msg = data_type(chunks.peek().is_none());
"""), (HSY, "pub(crate) struct SyncSession", """fn data_type(end: bool) -> MessageType {
    if end {
        MessageType::DataEnd
    } else {
        MessageType::Data
    }
}

pub(crate) struct SyncSession""")]),
 "h-sync-mode": ("hsync", "P11", [(HSY, """        shared.mode = if feature_request.overlapped() {
            SessionMode::Overlapped
        } else {
            SessionMode::Synchronized
        };
""", """        let pick = |overlap: bool| if overlap { SessionMode::Overlapped } else { SessionMode::Synchronized };
        shared.mode = pick(feature_request.overlapped());
""")]),
 "h-async-release": ("hasync", "P12", [(HAS, """                                let control = match handle.try_release() {
                                    Ok(SharedLockMode::Exclusive) => {
                                        ReleaseLockControl::SuccessExclusive
                                    }
                                    Ok(SharedLockMode::Shared) => ReleaseLockControl::SuccessShared,
                                    Err(_) => ReleaseLockControl::Error,
                                };
""", """                                let control = release_control(handle.try_release());
"""), (HAS, "pub(crate) struct AsyncSession", """fn release_control(res: Result<SharedLockMode, SharedLockError>) -> ReleaseLockControl {
    match res {
        Ok(SharedLockMode::Exclusive) => ReleaseLockControl::SuccessExclusive,
        Ok(SharedLockMode::Shared) => ReleaseLockControl::SuccessShared,
        Err(_) => ReleaseLockControl::Error,
    }
}

pub(crate) struct AsyncSession""")]),
 "h-async-size-const": ("hasync", "P12", [(HAS, "if payload.len() != 8 {", "if payload.len() != SIZE_LEN {"), (HAS, "let mut buf = [0u8; 8];", "let mut buf = [0u8; SIZE_LEN];"), (HAS, "pub(crate) struct AsyncSession", "const SIZE_LEN: usize = 8;\n\npub(crate) struct AsyncSession")]),
 "h-async-remote-helper": ("hasync", "P12", [(HAS, """                                    let mut dev = remote.async_lock().await.unwrap();
                                    dev.set_local_lockout(true);
                                    dev.set_remote(true)
""", """                                    let mut dev = remote.async_lock().await.unwrap();
                                    lockout(&mut *dev)
"""), (HAS, "pub(crate) struct AsyncSession", """fn lockout<DEV: Device>(dev: &mut DEV) -> Result<(), DeviceError> {
    dev.set_local_lockout(true);
    dev.set_remote(true)
}

pub(crate) struct AsyncSession""")]),
 "h-init-id2": ("hinit", "P08", [(HS, "let id = (message_parameter & 0x0000FFFF) as u16;", "let id = session_id_of(message_parameter);"), (HS, "pub struct ServerBuilder<DEV>", "fn session_id_of(parameter: u32) -> u16 {\n    (parameter & 0x0000FFFF) as u16\n}\n\npub struct ServerBuilder<DEV>")]),
 "h-init-name": ("hinit", "P08", [(HS, """                                if s.is_empty() {
                                    log::debug!(peer=peer.to_string(); "Empty sub-address, using default: {DEFAULT_DEVICE_SUBADRESS:?}");
                                    s = DEFAULT_DEVICE_SUBADRESS.to_string();
                                }
""", """                                s = or_default(s);
"""), (HS, "pub struct ServerBuilder<DEV>", """fn or_default(s: String) -> String {
    if s.is_empty() {
        return DEFAULT_DEVICE_SUBADRESS.to_string();
    }
    s
}

pub struct ServerBuilder<DEV>""")]),
 "h-rec-len": ("record", "P14", [(REC, "        let len = (fragment_len & 0x7FFFFFFF) as usize;\n", "        let len = length_of(fragment_len);\n"), (REC, "        if fragment_len & 0x80000000 != 0 {", "        if is_last(fragment_len) {"), (REC, "pub(crate) async fn read_record", """fn length_of(header: u32) -> usize {
    (header & 0x7FFFFFFF) as usize
}

fn is_last(header: u32) -> bool {
    header & 0x80000000 != 0
}

pub(crate) async fn read_record""")]),
 "h-rec-const": ("record", "P14", [(REC, "        let len = (fragment_len & 0x7FFFFFFF) as usize;\n", "        let len = (fragment_len & !LAST) as usize;\n"), (REC, "        if fragment_len & 0x80000000 != 0 {", "        if fragment_len & LAST != 0 {"), (REC, "pub(crate) async fn read_record", """const LAST: u32 = 0x8000_0000;

pub(crate) async fn read_record""")]),
 "h-rec-header": ("record", "P14", [(REC, """        let mut fragment_header = [0u8; 4];
        reader.read_exact(&mut fragment_header).await?;
        let fragment_len = NetworkEndian::read_u32(&fragment_header[..]);
""", """        let fragment_len = read_header(reader).await?;
"""), (REC, "pub(crate) async fn read_record", """async fn read_header<RD>(reader: &mut RD) -> Result<u32>
where
    RD: AsyncRead + Unpin,
{
    let mut fragment_header = [0u8; 4];
    reader.read_exact(&mut fragment_header).await?;
    Ok(NetworkEndian::read_u32(&fragment_header[..]))
}

pub(crate) async fn read_record""")]),
 "h-rec-write": ("record", "P14", [(REC, """    let fragment_len: u32 = 0x80000000 | (record.len() & 0x7FFFFFFF) as u32;
""", """    let fragment_len: u32 = last_header(record.len());
"""), (REC, "pub(crate) async fn read_record", """fn last_header(len: usize) -> u32 {
    0x80000000 | (len & 0x7FFFFFFF) as u32
}

pub(crate) async fn read_record""")]),
 "h-client-xid": ("client", "P20", [(ONC, """        if reply.xid != self.xid {
            return Err(RpcError::Io(ErrorKind::InvalidData.into()));
        }
        match reply {""", """        let ours = |xid: u32| xid == self.xid;
        if !ours(reply.xid) {
            return Err(RpcError::Io(ErrorKind::InvalidData.into()));
        }
        match reply {""")]),
 "h-client-denied": ("client", "P20", [(ONC, """            } => match stat {
                xdr::RejectStat::RpcMissmatch(m) => Err(RpcError::RpcMissmatch(m)),
                xdr::RejectStat::AuthError(err) => Err(RpcError::AuthError(err)),
            },
            xdr::RpcMessage {
                mtype: xdr::MsgType::Call(..),""", """            } => Err(denied(stat)),
            xdr::RpcMessage {
                mtype: xdr::MsgType::Call(..),"""), (ONC, "pub(crate) struct StreamRpcClient<IO> {", """fn denied(stat: xdr::RejectStat) -> RpcError {
    match stat {
        xdr::RejectStat::RpcMissmatch(m) => RpcError::RpcMissmatch(m),
        xdr::RejectStat::AuthError(err) => RpcError::AuthError(err),
    }
}

pub(crate) struct StreamRpcClient<IO> {""")]),
 "h-client-limit": ("client", "P20", [(ONC, "        let fragment = read_record(&mut self.io, 1024 * 1024).await?;", "        const MAX: usize = 1024 * 1024;\n        let fragment = read_record(&mut self.io, MAX).await?;")]),
 "h-tel-term": ("telnet", "P22", [(TEL, "cmd.clear();\n                        },", "reset(&mut cmd);\n                        },"), (TEL, "pub struct Server(ServerConfig);", "fn reset(line: &mut Vec<u8>) {\n    line.clear();\n}\n\npub struct Server(ServerConfig);")]),
 "h-lock-key": ("lock", "P01,P03", [(LOCK, "impl SharedLock {", """fn fits(held: &Option<Vec<u8>>, key: &[u8]) -> bool {
    match held {
        Some(k) => k == key,
        None => true,
    }
}

impl SharedLock {""")]),
 "h-status-live": ("status", "P04", [("device/src/status.rs", """            let _ = sender.try_send(status);
            // Delete from senders if closed
            !sender.is_closed()""", """            let _ = sender.try_send(status);
            // Delete from senders if closed
            let live = |s: &mpsc::Sender<u8>| !s.is_closed();
            live(sender)""")]),
})


def main():
    os.makedirs(D, exist_ok=True)
    subprocess.run(f"mkdir -p {D}/repo {D}/verif && cd /repo && git archive HEAD | tar x -C {D}/repo; cp /repo/Cargo.lock {D}/repo/; cd /verif && tar c --exclude=.git --exclude=target --exclude=seeded --exclude=evidence . | tar x -C {D}/verif", shell=True)
    env = {**os.environ, "LXI_REPO": f"{D}/repo"}
    keep = "--keep" in sys.argv
    if keep: sys.argv.remove("--keep")
    for n, (gs, ps, eds) in R.items():
        if sys.argv[1:] and not any(a in n for a in sys.argv[1:]) or not eds:
            continue
        orig = {}
        bad = False
        for f, a, b in eds:
            p = f"{D}/repo/{f}"
            s = open(p).read()
            orig.setdefault(p, s)
            if a not in s:
                print(n, "TEXT NOT FOUND", a[:60]); bad = True
            open(p, "w").write(s.replace(a, b, 1))
        if not bad:
            r = subprocess.run(f"python3 {D}/verif/tools/camp_one.py {gs} {ps} 5", shell=True, env=env, capture_output=True, text=True)
            print(n, "|", (r.stdout.strip().splitlines() or [r.stderr[-300:]])[-1][:400], flush=True)
        for p, s in ({} if keep else orig).items():
            open(p, "w").write(s)


main()
