#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the long lines stay editable)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
L="device/src/lock.rs"
p("P01","Device lock bookkeeping is exact: one exclusive holder, one shared key",
 "For one device, over any number of clients and any order of lock, unlock and disconnect operations, at most one client holds the exclusive lock, all clients that hold the shared lock were granted it with the same lock string, and the exclusive flag and the number of shared holders that are reported always equal the actual holders. A request is granted exactly when the lock state allows it (exclusive: nobody holds a lock, or no one is exclusive and the requester shares; shared: nobody holds a lock, or the shared lock is held with the same string) and a refused request changes nothing. Unlocking or dropping a client frees everything it held and nothing that others hold.",
 ["histories","schedules"],"every sequence of operations by any number of lock handles, every interleaving at the granularity of the lock's critical sections, every lock string",
 "The unit tests sample two or three handles and half a dozen operations; the claim is an invariant over unbounded histories and any number of handles.",
 [L],[("try_acquire_exclusive / try_acquire_shared",L),("try_release / Drop",L),("lock_info",L)],
 [("shared_lock, num_shared_locks, exclusive_lock","global lock state",L),("has_shared, has_exclusive","what one handle holds",L)],["lock_info","can_lock","results of acquire/release"])
p("P02","No access to the device through a client that is locked out",
 "A client is given access to the device only if, at the moment access is granted, no other client's lock excludes it: it holds the exclusive lock itself, or it shares the lock and nobody is exclusive, or nobody holds any lock. Otherwise the non-waiting request is refused with the error that names the kind of lock in the way, and the waiting request keeps waiting. The HiSLIP, VXI-11, raw socket and telnet servers let a client execute on, trigger or clear the device only with access granted in this way.",
 ["histories","schedules"],"every lock state, every handle, and every interleaving of a waiting access with acquisitions and releases by other handles",
 "Tests check can-lock on a few states; the window between the check and the grant of the device is a matter of schedules that no test reaches.",
 [L,"hislip/src/server/session/synchronous.rs","vxi11/src/server/vxi11/core_service.rs","raw/src/server/mod.rs","telnet/src/server/mod.rs"],[("can_lock","device/src/lock.rs"),("try_lock",L),("async_lock (local and remote handle)",L),("process_client","raw/src/server/mod.rs"),("process_client","telnet/src/server/mod.rs")],None,["try_lock/async_lock results"])
p("P03","Lock changes wake every waiter",
 "Every operation that grants a lock or that makes the device available to others (the last shared holder or the exclusive holder unlocks or disconnects) notifies every client that is registered as waiting at that moment, and a waiter always re-checks after it has registered and before it sleeps. So no waiter sleeps through the change that it waits for. Between two checks a waiter sleeps until it is notified; it never spins.",
 ["schedules","histories"],"every sequence of lock operations and every set of registered waiters",
 "Existing tests have a single waiter on one schedule.",
 [L],[("notify_release / notify_acquired",L),("listen",L),("async_acquire_* and async_lock loops",L)],
 [("event","registered waiters",L)],["waiting futures"])
p("P04","A status change reaches every connected session",
 "When a status byte is broadcast, every receiver that is still alive and has room gets exactly that byte, one time, whatever other receivers have been closed or are full, and in the order of the broadcasts. Closed receivers are forgotten and live ones never are.",
 ["histories"],"every sequence of subscribe, close, read and broadcast operations",
 "The unit test has two live receivers and a single broadcast.",
 ["device/src/status.rs"],[("send_status","device/src/status.rs"),("get_new_receiver","device/src/status.rs")],None,["receivers"])
M="hislip/src/common/messages.rs"
p("P05","HiSLIP messages are framed exactly and survive the round trip",
 "A message is sent as the 16-byte HiSLIP header (prologue 'HS', type, control code, big-endian 32-bit parameter, big-endian 64-bit payload length) followed by exactly its payload, and receiving those bytes, however they are split up, gives back an equal message and leaves the stream at the next message. A wrong prologue is a fatal poorly-formed-header error, a payload above the limit is a non-fatal message-too-large error and an unknown type a non-fatal unrecognized-type error, and after either non-fatal error reception continues with the next message. A message cut short by the end of the stream is never reported as complete.",
 ["inputs"],"every message, every byte stream, every payload limit",
 "No existing test covers the codec at all; the claim ranges over all byte strings.",
 [M],[("Message::read_from",M),("Message::write_to",M)],None,["bytes on the wire"],"guarded module that re-exports the private message type")
p("P06","HiSLIP code points match IVI-6.1 and decode/encode are inverse",
 "Every HiSLIP message type, fatal error and non-fatal error has the numeric code that the HiSLIP specification assigns to it, decoding a code and encoding the result gives the code back for every code that is defined or vendor-defined (128-255), and undefined message types are rejected. Error messages carry the code of the error they report and the right fatal/non-fatal kind.",
 ["inputs"],"all 256 codes and all variants",
 "No test enumerates the tables.",
 [M,"hislip/src/common/errors.rs"],[("get_message_type/from_message_type",M),("error_code/from_error_code","hislip/src/common/errors.rs"),("From<Error> for Message",M)],None,["codes on the wire"])
S="hislip/src/server/mod.rs"
p("P07","HiSLIP session ids are unique and the session limit holds",
 "A new session never gets an id that a live session has, there are never more live sessions than the configured maximum, sessions whose client is gone no longer count against it, and a new session is refused only because the maximum is reached or no id is free. Looking up an id gives that live session and no other.",
 ["histories"],"every sequence of session creations and disconnections, including wrap-around of the 16-bit id",
 "Tests open one session; wrap-around needs 32768 of them.",
 [S],[("new_session_id",S),("create_session",S),("gc_sessions, get_session",S)],[("sessions","registry of sessions",S)],["InitializeResponse session ids"],"guarded access to the registry")
p("P08","HiSLIP initialization negotiates correctly and admits nothing else",
 "An Initialize message for a known sub-address (empty means the default one) is answered by exactly one InitializeResponse with the lower of the client's and the server's protocol version, the new session's id and the configured preferred mode; an unknown or non-UTF-8 sub-address gets a fatal invalid-initialization error and no session. An AsyncInitialize joins exactly the session with the given id, once, is answered with the configured vendor id, and is a fatal invalid-initialization error for an unknown or already joined session. Before initialization any other message than an error report or a vendor-specific one is a fatal error and ends the connection.",
 ["inputs","histories"],"every first messages of a connection, every client version, every session id",
 "Tests exercise the one successful handshake.",
 [S,"hislip/src/server/session/mod.rs",M,"hislip/src/common/mod.rs"],[("Server::handle_session",S),("InitializeResponseParameter / Protocol",M),("SharedSession::is_initialized","hislip/src/server/session/mod.rs")],None,["bytes on the wire"],"guarded access to the connection handler")
Y="hislip/src/server/session/synchronous.rs"
p("P09","HiSLIP data messages: the device executes exactly what the client sent",
 "On the synchronous channel the device executes one command per DataEnd message, and the command is exactly the concatenation, in order, of the payloads of the Data messages since the previous DataEnd (or device clear) and of the DataEnd message itself; nothing left over from an earlier command is ever prepended. A Trigger message triggers the device once. Before the asynchronous channel has joined, Data, DataEnd and Trigger do not reach the device and end the session with a fatal error.",
 ["inputs","histories"],"every sequence of synchronous-channel messages, every split of a command into messages",
 "Tests send a few short commands, each in one message.",
 [Y],[("SyncSession::handle_session, Data/DataEnd arm",Y)],[("buffer","partial command",Y)],["calls made on the device"],"guarded access to the session handler")
p("P10","HiSLIP responses are complete, in order and within the client's size limit",
 "The non-empty response of a command is sent as Data messages followed by one DataEnd message that together carry exactly the response, each payload at most as large as the maximum message size the client announced (one byte if it announced zero, 256 bytes before it announced one), and each with the message id of the request. A command without a response produces no data message. No announced size, not even zero, makes the server fail.",
 ["inputs","configurations"],"every response, every announced maximum size, every message id",
 "Tests use responses smaller than one message.",
 [Y],[("response chunking",Y)],[("max_message_size","client limit","hislip/src/server/session/mod.rs")],["bytes on the wire"],"guarded access to the session handler")
A="hislip/src/server/session/asynchronous.rs"
p("P11","HiSLIP device clear discards partial input and completes the handshake",
 "After an AsyncDeviceClear the server acknowledges it with its feature preference, then drops every synchronous message up to the DeviceClearComplete, clears the device if the client may access it, forgets any partial command and answers DeviceClearComplete with exactly one DeviceClearAcknowledge that accepts the client's overlap choice and no encryption. A DeviceClearComplete without a preceding AsyncDeviceClear is answered with a non-fatal error and does not clear the device.",
 ["inputs","histories","schedules"],"every sequence of messages around a device clear",
 "No test performs a device clear.",
 [Y,A],[("clear_buffer / acknowledge_device_clear",Y),("AsyncDeviceClear arm",A)],None,["bytes on the wire","calls made on the device"],"guarded access to the session handlers")
p("P12","HiSLIP asynchronous requests each get the one correct response",
 "Each request on the asynchronous channel is answered by exactly one message of the matching response type: AsyncLock with success, failure (not granted in time) or error codes that reflect what the lock did, lock info with the actual lock state, status query with the device's status byte outside the message-available bit, maximum message size with the server's limit (and the client's limit takes effect), and unknown requests with a non-fatal error. Remote/local control codes 0 to 6 drive remote enable, remote state and local lockout of the device as the HiSLIP remote/local table says and other codes are a non-fatal error. A status change is announced by one service request until the client queries the status, and further changes do no harm.",
 ["inputs","histories"],"every asynchronous-channel message sequence, every control code, parameter and payload",
 "Tests cover at most one of each request.",
 [A,M],[("AsyncSession::handle_session",A),("RequestLockControl / ReleaseLockControl",M)],[("srq_bit, enable_remote","async session state",A)],["bytes on the wire","calls made on the device"],"guarded access to the session handler")
X="vxi11/src/common/xdr/basic.rs"
p("P13","XDR encoding follows RFC 4506 and decoding inverts it",
 "Every value that the RPC, portmapper and VXI-11 layers put on the wire is encoded exactly as the interface definition and RFC 4506 say (big-endian 4- and 8-byte units, zero padding to 4 bytes, counted opaque, string and arrays, discriminated unions, fields in the declared order), and decoding an encoding gives back the value and stops at its last byte. Decoding input that is cut short is an error, never a shorter value.",
 ["inputs"],"every value of every wire type and every byte string as input",
 "The unit tests check one or two vectors per basic type and none of the protocol structures.",
 [X,"vxi11/src/common/vxi11/xdr.rs","vxi11/src/common/onc_rpc/xdr.rs","vxi11/src/common/portmapper/xdr.rs"],[("XdrEncode/XdrDecode impls",X),("protocol structures","vxi11/src/common/vxi11/xdr.rs")],None,["bytes on the wire"],"guarded module that re-exports private wire types")
R="vxi11/src/common/onc_rpc/record.rs"
p("P14","RPC record marking reassembles exactly the record that was sent",
 "A received record is the concatenation of its fragments in order, up to and including the fragment that is marked last, and nothing after it is consumed; a record that is cut short or larger than the limit is an error and never delivered. A sent record is one last-fragment header with the record's length followed by exactly the record, so receiving what was sent gives the same record for any fragmentation of the stream.",
 ["inputs"],"every record, every fragmentation, every limit, every truncation",
 "Two unit tests: one and two complete fragments.",
 [R],[("read_record",R),("write_record",R)],None,["bytes on the wire"],"guarded access to the private functions")
C="vxi11/src/common/onc_rpc/mod.rs"
p("P15","Every well-formed RPC call gets the one reply that RFC 5531 prescribes",
 "A call message is answered with a reply that has the call's transaction id: a version mismatch (2,2) if the RPC version is not 2, an authentication error if credential or verifier are not of the null flavour, and otherwise an accepted reply with success and the procedure's results, or with program-unavailable, program-mismatch and the supported range, procedure-unavailable, garbage-arguments (arguments that cannot be decoded) or system error and no results. A procedure is executed only for an acceptable call. No message from a peer stops a server from serving the next one on a datagram socket.",
 ["inputs"],"every received message",
 "Tests only call existing procedures with proper arguments.",
 [C,"vxi11/src/common/onc_rpc/xdr.rs"],[("RpcService::handle_message",C),("serve_udp_socket / serve_tcp_stream",C)],None,["bytes on the wire"],"guarded access to the dispatcher")
K="vxi11/src/server/vxi11/core_service.rs"
V="vxi11/src/server/vxi11/mod.rs"
p("P16","VXI-11 links: fresh ids, and nothing works on a link that is not open",
 "Creating a link to a known device gives an id that no open link on the server has, with the server's abort port and receive size, and creating one to an unknown device reports invalid-address; if the requested lock cannot be had in time the call reports that error and leaves no link and no lock. Every operation on an id that this client has not open (never created, destroyed, or another connection's) reports invalid-link-identifier and has no effect on any device or link. Destroying a link, or closing the connection, releases its lock and ends it, and an abort for an id succeeds exactly while the link is open.",
 ["histories","inputs"],"every sequence of link operations on any number of connections, every id",
 "Tests open a link or two and never use a dead one.",
 [K,V,"vxi11/src/server/vxi11/abort_service.rs"],[("CREATE_LINK, DESTROY_LINK arms",K),("next_link_id/new_link/remove_link",V),("DEVICE_ABORT","vxi11/src/server/vxi11/abort_service.rs")],[("links","open links",K)],["RPC replies"],"guarded construction of a core session")
p("P17","VXI-11 write/read move every byte exactly once, in order",
 "A write reports the number of bytes it took, and the device executes, exactly once per write with the END flag, the concatenation of the data written on that link since the last executed command; responses are queued behind unread ones. A read returns the longest prefix of the queue allowed by the request size and, if the termination character is enabled, by its first occurrence (inclusive), removes exactly that from the queue, and flags exactly the reasons that hold: request size reached, termination character, end of the queue. A refused write or read changes neither queue nor device.",
 ["histories","inputs"],"every sequence of writes and reads with every size, flag, and termination character",
 "Tests do one write and one read with default flags.",
 [K],[("DEVICE_WRITE arm",K),("DEVICE_READ arm",K)],[("in_buf/out_buf","per-link queues",V)],["RPC replies","calls made on the device"],"guarded construction of a core session")
p("P18","VXI-11 control operations act on the right device and report the truth",
 "Read-status returns the device's status byte with the message-available bit replaced by whether unread response data is queued on the link; trigger, clear (which also empties the link's queues), remote and local act once on the link's device, and lock and unlock change the lock as requested. Each reports no-error exactly if the device or the lock did what was asked and otherwise the error code that VXI-11 assigns to the failure; an operation on a device that another link has locked is refused with device-locked and does not touch the device. Unsupported commands report operation-not-supported and unknown procedures procedure-unavailable.",
 ["inputs","histories"],"every operation, flag combination, lock state and device answer",
 "Tests do not lock out an operation, nor make a device fail.",
 [K,V],[("DEVICE_READSTB, TRIGGER, CLEAR, REMOTE, LOCAL, LOCK, UNLOCK, DOCMD arms",K),("error mapping",V)],None,["RPC replies","calls made on the device"],"guarded construction of a core session")
p("P19","The static portmapper answers from its table",
 "Bound to an address, the port mapper serves both TCP and UDP there. For every table of mappings (with ports below 65536), a get-port call returns the port of the first mapping with the asked program, version and protocol, or 0 if there is none; a dump returns exactly all mappings in order; null succeeds; everything else is refused as procedure-, version- or program-unavailable.",
 ["inputs","configurations"],"every table of mappings and every query",
 "The tests ask for one mapping.",
 ["vxi11/src/server/portmapper.rs"],[("StaticPortMap::call","vxi11/src/server/portmapper.rs")],None,["RPC replies"],"guarded access to the dispatcher")
p("P20","An RPC client call returns the result of its own reply or an error",
 "A call sends exactly one well-formed call message with a transaction id different from the previous one, the procedure and the encoded arguments, and returns success only with the results decoded from an accepted, successful reply that carries the same transaction id; every other reply status is reported as the corresponding error. No bytes from the server make the client panic.",
 ["inputs"],"every procedure, argument and every reply byte string",
 "Tests only see a well-behaved portmapper.",
 [C],[("StreamRpcClient::call",C),("UdpRpcClient::call",C)],None,["bytes on the wire"],"guarded access to the client")
p("P21","Raw socket: one command per line, byte-exact, one terminated response",
 "The device executes, in order, exactly the byte strings between read terminators, without the terminator, and a final unterminated rest is passed on unchanged and complete; each response is written back followed by one write terminator before the next command is executed, and commands without response write nothing. Each command is executed with access granted by the device's lock. How the stream is split into segments makes no difference, no bytes make the server panic, and the session ends only when the stream does or an operation on it fails.",
 ["inputs"],"every byte stream, segmentation, and terminator",
 "The one test sends a few lines.",
 ["raw/src/server/mod.rs"],[("Server::process_client","raw/src/server/mod.rs")],None,["calls made on the device","bytes on the wire"])
p("P22","Telnet: one command per line after telnet decoding and line editing",
 "In terms of the events that the telnet decoder (the libtelnet-rs library) delivers, the device executes, in order, exactly the lines that the client typed, without the line end (LF, or CR LF) and after erase-character and erase-line editing; each response is sent back with IAC bytes escaped and followed by CR LF before anything else is sent or executed, and what the decoder wants sent is sent in order. Each line is executed with access granted by the device's lock. The session ends exactly when the client closes the connection or an operation on it fails, and no bytes make the server panic.",
 ["inputs"],"every byte stream and segmentation",
 "Tests send a few plain lines.",
 ["telnet/src/server/mod.rs"],[("Server::process_client","telnet/src/server/mod.rs")],None,["calls made on the device","bytes on the wire"])
p("P23","No bytes from a HiSLIP client make the server panic",
 "Whatever bytes arrive on a connection, in whatever state of the session, the HiSLIP connection handlers neither panic nor index out of bounds nor overflow: they answer, report a protocol error, or end that connection.",
 ["inputs","histories"],"every byte stream on either channel",
 "Tests send valid messages.",
 [S,Y,A,M],[("connection handlers",S)],None,["process behaviour"],"guarded access to the handlers")
p("P24","No bytes from an RPC peer make the VXI-11 or portmap server panic",
 "Whatever bytes arrive on a core, abort or portmap connection or datagram, after whatever history, the handlers neither panic nor index out of bounds nor overflow: they answer with an RPC reply or end that connection.",
 ["inputs","histories"],"every record and datagram and every history of links",
 "Tests send valid calls.",
 [K,V,C,X],[("RpcService::handle_message and call implementations",C)],None,["process behaviour"],"guarded access to the handlers")
p("P25","VXI-11 servers listen where configured and register exactly that",
 "A VXI-11 server that is built with a core port, an abort port and devices serves its core channel at the given address on the core port and its abort channel on the abort port; both share the same links, every link that it creates reports that abort port and a maximum receive size of at least 1024 bytes. Registering with a port mapper is refused when a port is zero and otherwise succeeds exactly if the port mapper accepted both mappings (core program 0x0607AF version 1 over TCP at the core port, and abort program 0x0607B0 version 1 over TCP at the abort port); no other mapping is made. A new connection starts with no links and no interrupt channel, and when it ends its links are ended.",
 ["configurations","inputs"],"every choice of ports, addresses and devices, and every answer of the port mapper",
 "Tests always use the same two ports and never register.",
 [V,K,"vxi11/src/server/vxi11/abort_service.rs"],[("VxiServerBuilder",V),("VxiCoreServer::bind / serve / register_portmap",K),("VxiAsyncServer::bind / serve","vxi11/src/server/vxi11/abort_service.rs")],None,["listening ports","calls received by a port mapper","RPC replies"])
p("P26","VXI-11 service requests reach exactly the client that asked for them",
 "Creating an interrupt channel connects to the address, port and protocol that the client named and reports channel-already-established if it has one; destroying it ends it and reports channel-not-established if there is none. Once a link has service requests enabled and as long as they stay enabled and the link and the channel exist, every service request of its device makes exactly one device_intr_srq call on that channel, of the program and version that the client named and with exactly the handle it gave for that link; otherwise none is made. Enabling more than once does not duplicate them.",
 ["histories","inputs"],"every sequence of channel, enable and link operations and service requests, every handle",
 "No test creates an interrupt channel.",
 [K,"vxi11/src/server/vxi11/intr_client.rs"],[("CREATE_INTR_CHAN, DESTROY_INTR_CHAN, DEVICE_ENABLE_SRQ arms",K),("VxiSrqClient","vxi11/src/server/vxi11/intr_client.rs")],[("srq","interrupt channel of a client",K)],["calls received at the interrupt channel","RPC replies"])
p("P27","No client connection stops a server from accepting the next one",
 "Whatever happens to a connection that a server has accepted or is accepting - it is reset before or after it is accepted, stays silent, sends anything at all, or fails - the HiSLIP, VXI-11 core and abort, port mapper, raw socket and telnet servers go on accepting connections: they stop only when the listener itself ends. Serving one client never keeps the server from accepting the next, up to the server's limit on simultaneous connections, after which new ones are accepted as old ones end.",
 ["schedules","histories"],"every listener, every outcome of every accept and of every operation on an accepted connection",
 "Tests connect one well-behaved client.",
 ["hislip/src/server/mod.rs","raw/src/server/mod.rs","telnet/src/server/mod.rs",V,"vxi11/src/server/portmapper.rs"],
 [("Server::accept","hislip/src/server/mod.rs"),("ServerConfig::accept","raw/src/server/mod.rs"),("VxiCoreServer::serve",K),("VxiAsyncServer::serve","vxi11/src/server/vxi11/abort_service.rs"),("serve_tcp","vxi11/src/server/portmapper.rs")],None,["connections accepted after a failed one"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
