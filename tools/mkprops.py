import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)

FH="internal/protocol/frame_handler.go"; PC="internal/protocol/packet_codec.go"; MP="internal/protocol/msg_processor.go"
PL="internal/protocol/pipeline.go"; KA="internal/protocol/keepalive.go"; M="internal/protocol/model/"; S="internal/storage/"
SRV="internal/server/tcp_server.go"; HEX="internal/codec/hex/hex.go"; RB="pkg/container/ring_buffer.go"

p("C01","Framing recovers every frame, whatever the chunking or noise",
"However the network splits a connection's byte stream into reads, the receiver hands on exactly the frames the stream contains: each run of bytes between two 0x7E flags, complete, byte-identical, in order, with its two flags. Bytes outside frames are dropped, empty flag pairs (7E 7E) are skipped, and noise or a stray flag never costs a later frame that follows a doubled flag. A read error or end of stream is reported as an error that still wraps its cause, and no partial frame is ever handed on.",
["inputs","fault_sequences"],"every byte stream up to the bound, every way of cutting it into reads, every position of a read error",
"The framing test feeds 11 fixed streams from one contiguous reader; chunk boundaries, error positions, repeated flags and byte values are sampled at a handful of points.",
[FH],[("JT808FrameHandler.Recv",FH)],observe=["NewJT808FrameHandler(conn).Recv"])
p("C02","Escaping and checksum are transparent: decode(encode(m)) is m",
"Every frame the system emits contains 0x7E only as its first and last byte, and contains 0x7D only as the start of the pairs 7D 01 / 7D 02. Decoding that frame yields exactly the header fields and the body bytes that went in, whatever values they have and at whatever position, including 0x7E and 0x7D in the header, the body or the checksum itself.",
["inputs"],"every message content up to the bounded length",
"Tests decode two fixed frames and check one checksum; no test encodes and decodes again, and none has an escaped checksum or body.",
[PC],[("escape/unescape/genVerifier/verify",PC)],observe=["JT808PacketCodec.Encode","JT808PacketCodec.Decode"])
p("C03","A frame with a wrong checksum is never accepted",
"A received frame is accepted only if the XOR of all its bytes between the flags, after unescaping, is zero; otherwise (and for an empty frame) it is rejected with an error, nothing is replied and no device, session or location state changes. A frame whose checksum is right is never rejected because of its checksum.",
["inputs"],"every frame content up to the bounded length",
"One test has one wrong checksum; which corruptions slip through is a question over all byte values.",
[PC,PL],[("verify",PC),("Pipeline.ProcessConnRead",PL)],observe=["JT808PacketCodec.Decode","Pipeline.ProcessConnRead"])
p("C04","Message headers follow the JT/T 808 layout in both versions",
"Decoding a header yields message id, body length (bits 0-9), encryption (10-12), fragmentation flag (13), version flag (14), reserved bit (15), protocol version (2019 only), BCD phone number (6 or 10 bytes), serial number and, exactly when the fragmentation flag is set, total and index, each from its place in the big-endian layout; the body starts right after. Encoding a header produces that same layout, so encoding a decoded header gives back the original bytes.",
["inputs"],"every value of every header field, both versions, fragmented or not, phone digits 0-9",
"Tests use one 2019 header without fragmentation; the attribute and fragmentation tests have empty case tables.",
[M+"header.go",HEX],[("MsgHeader.Decode/Encode",M+"header.go"),("MsgBodyAttr.Decode/Encode",M+"header.go")],observe=["MsgHeader.Decode","MsgHeader.Encode"])
p("C05","An emitted header always describes the body that follows it",
"In every emitted message the body-length field equals the number of body bytes that follow the header and the other attribute bits are exactly those of the message's header; a body that does not fit the 10-bit length field (more than 1023 bytes) makes encoding fail with an error instead of producing a message with a wrong length or corrupted attribute bits.",
["inputs"],"every body length 0..1100 and every attribute value, for every message type that can be emitted",
"Tests encode three small messages; the length field overflows only above 1023 bytes.",
[M+"msg.go",M+"header.go"],[("writeHeader",M+"msg.go")],observe=["JT808PacketCodec.Encode","Msg*.Encode"])
p("C06","Every message body is encoded and decoded per its protocol layout",
"For each supported message with a fixed-layout body (general replies, registration in its 2011/2013/2019 forms, registration reply, authentication, location report, server time, media query and media list), decoding reads every field from the place and with the width and byte order the protocol assigns, and encoding then decoding a message returns the same field values. Fixed-width text fields are zero-padded or cut to their width and never shift the fields after them.",
["inputs"],"every value of every scalar field; text field contents and lengths up to their width",
"Only four messages have an encode test with one case each, no body decode is tested at all.",
[M+"msg_0001.go",M+"msg_0100.go",M+"msg_0102.go",M+"msg_0200.go",M+"msg_8001.go",M+"msg_8004.go",M+"msg_8100.go",M+"msg_9205.go",M+"msg_1205.go",M+"device_media.go",HEX],
[("Decode/Encode of each message",M)],observe=["Msg*.Decode","Msg*.Encode"])
p("C07","Terminal parameter lists survive encoding and decoding",
"Encoding a list of supported terminal parameters and decoding it again yields the same ids and values in the same order, each value with the width its parameter id prescribes, and the emitted count equals the number of parameters emitted. A parameter whose id is not supported is skipped without disturbing the ones around it.",
["inputs"],"every supported id and unknown ids, every scalar value, byte/text values up to the bounded length, lists up to the bounded number of items",
"The only parameter test decodes an empty list.",
[M+"device_params.go",M+"msg_0104.go",M+"msg_8103.go"],[("DeviceParams.Decode/Encode and the parameter table",M+"device_params.go")],observe=["DeviceParams.Decode","DeviceParams.Encode","Msg8103","Msg0104"])
p("C08","Each request gets exactly the reply the protocol assigns to it",
"Every well-formed request from a registered terminal is answered by exactly one frame: registration by a registration reply, server-time query by the time reply, heartbeat, deregistration, authentication and location report by the platform general reply; terminal replies and unsupported messages get no answer. The answer repeats the request's serial number (and, in a general reply, its message id), and carries the request's phone number and protocol version; its result is success unless registration or authentication is refused. None of this depends on the configured log level.",
["inputs","histories"],"every request type, version, serial number, phone and field value; both outcomes of registration and authentication",
"No test drives the message processor or the pipeline at all.",
[MP,PL,M+"msg_8001.go",M+"msg_8100.go",M+"msg_8004.go"],[("JT808MsgProcessor.Process",MP),("GenOutgoing of each reply",M)],observe=["Pipeline.ProcessConnRead"])
p("C09","A plate or phone is registered to at most one device at a time",
"A registration succeeds exactly when neither its plate nor its phone is currently registered; it is then found under both. Otherwise the reply says vehicle-already-registered (plate taken) or terminal-already-registered (phone taken) and the existing registration is left untouched. This also holds when registrations arrive at the same time on different connections: at most one of those that share a plate or phone succeeds.",
["inputs","histories","schedules"],"every combination of plates/phones over bounded histories; every interleaving of two concurrent registrations within the preemption bound",
"Registration has no test; the check-then-insert window only shows under particular interleavings.",
[MP,S+"device_cache.go"],[("processMsg0100",MP),("DeviceCache",S+"device_cache.go")],
state=[("device cache","registered devices by plate and by phone",S+"device_cache.go")],observe=["Pipeline.ProcessConnRead","DeviceCache.GetDeviceByPhone/Plate"])
p("C10","Only the issued authentication code puts a device online",
"The authentication code issued in a successful registration reply is accepted for that device, in both protocol versions, and puts it online with the reported code, IMEI and software version. Any other code is answered with failure and removes the device's registration. Registration alone never puts a device online, and a refused registration does not issue the registered device's code.",
["inputs","histories"],"every presented code up to the bounded length against issued codes, both versions, interleaved with other messages",
"No test covers authentication; wrong codes that would be accepted are rare inputs.",
[MP,"internal/codec/hash/hash.go",M+"msg_0102.go"],[("processMsg0102, genAuthCode",MP)],observe=["Pipeline.ProcessConnRead","Device.Status"])
p("C11","Messages from unregistered phones are refused and leave no trace",
"A heartbeat, deregistration, authentication, location report or message fragment whose phone is not registered is refused with the device-not-found error (on which the server closes the connection), is not answered, and creates or changes no device, location or keepalive record.",
["inputs","histories"],"every phone, version and message of those types, from every bounded device population",
"No test drives these handlers.",
[MP,SRV],[("processMsg0002/0003/0102/0200, processSegmentPacket",MP)],observe=["Pipeline.ProcessConnRead"])
p("C12","A deregistered device is gone everywhere and stays gone",
"Once a deregistration has been answered, or an authentication has failed, the device is found neither by phone nor by plate nor in the device list, has no keepalive job, and its plate and phone can be registered again. No message of that device or keepalive check running at the same time brings the removed registration back, or its location into a later registration of the phone.",
["histories","schedules"],"bounded histories of register/authenticate/heartbeat/location/deregister; every interleaving of the removal with one concurrent handler or keepalive check within the preemption bound",
"No test covers it, and the resurrection window is a particular interleaving of two goroutines.",
[MP,KA,S+"device_cache.go"],[("processMsg0003, processMsg0102",MP),("checkDeviceKeepalive",KA),("DeviceCache.DelDeviceByPhone",S+"device_cache.go")],observe=["DeviceCache","KeepaliveTimer.Jobs"])
p("C13","Keepalive expires silent devices, only those, and never crashes",
"A keepalive check turns an online or sleeping device offline exactly when more than its keepalive time has passed since its last heartbeat, location report or authentication; an offline device silent that long is removed with its location history and its connection is closed; otherwise the check changes nothing. The check never panics, even if the device was removed just before it runs.",
["inputs","histories","schedules"],"every keepalive duration, last-contact time and current time (clock symbolic), every status, device present or absent",
"Needs a controlled clock; the panic needs a removal between firing and checking.",
[KA,M+"device.go",MP],[("checkDeviceKeepalive",KA),("ShouleTurnOffline/ShouldClear",M+"device.go")],observe=["KeepaliveTimer.Jobs()[i].Job.Run"])
p("C14","Exactly one keepalive job exists per registered device",
"After any sequence of registrations, authentications, heartbeats, location reports, deregistrations and keepalive checks, the scheduled keepalive jobs are exactly one for every device currently registered, due again and again within its keepalive time, and none for any other phone.",
["histories"],"all bounded message histories over bounded populations",
"No test reaches the timer.",
[KA,MP],[("KeepaliveTimer.Register/Cancel",KA)],observe=["KeepaliveTimer.Jobs"])
p("C15","The latest location is the last accepted report, fields intact",
"After a location report from a registered device is acknowledged, the latest location served for its phone is that report: latitude and longitude in degrees (raw/10^6), altitude, speed (raw/10), direction, time and status flags as sent. It stays so until the next report of the same device, however many reports went before; a report with ACC off puts the device to sleep and any report counts as contact.",
["inputs","histories"],"every field value; any number of earlier reports (ring buffer in any state)",
"One test converts one coordinate pair; ring wrap-around needs 100 reports.",
[MP,M+"device.go",S+"geo_cache.go",RB],[("processMsg0200",MP),("DeviceGeo.Decode",M+"device.go"),("GeoCache.GetGeoLatestByPhone",S+"geo_cache.go")],observe=["GeoCache.GetGeoLatestByPhone"])
p("C16","Status flags map bit-exactly to the protocol, both ways",
"Each decoded location-status flag equals its protocol bit (ACC 0, fix 1, south 2, west 3, out-of-service 4, encrypted 5, load 8-9, oil 10, electric 11, lock 12, doors 13-17, GPS/BeiDou/GLONASS/Galileo 18-21, driving 22) and no other bit influences it; encoding the decoded flags reproduces the status word on all defined bits.",
["inputs"],"all 2^32 status words",
"No test decodes or encodes a status word.",
[M+"device.go"],[("GeoMeta.Decode/Encode",M+"device.go")],observe=["GeoMeta.Decode","GeoMeta.Encode"])
p("C17","The ring buffer always serves the newest and oldest retained entry",
"After any sequence of writes, the latest entry is the last one written (none if nothing was written), the oldest-entry query returns the entry the next write would overwrite (none if that slot was never written), and successive reads return the stored entries in slot order, wrapping around. No number of writes or reads makes an operation panic or touch another slot.",
["histories"],"every capacity 1..bound, every reachable reader/writer position, one operation from each (inductive), plus bounded histories",
"Tests do at most three writes into a fixed-size buffer and have Latest/Oldest commented out.",
[RB],[("RingBuffer.Write/Read/Latest/Oldest",RB)],observe=["RingBuffer API"])
p("C18","A fragmented message is processed once, whole, from its fragments",
"When the fragments 1..n of a message of a registered device arrive in order, each of the first n-1 is acknowledged by a general reply that names its serial number and message id and nothing else happens; the last one makes the message be processed exactly once with the concatenation of all fragment bodies, in order. Fragments of other devices or other message ids arriving in between do not mix in, and a later fragmented message of the same kind starts afresh.",
["inputs","histories"],"bounded number of fragments, devices and message kinds, all body bytes, all interleavings of the fragments of two messages",
"No test sends a fragment.",
[PC,S+"segment_cache.go",M+"segment.go",MP],[("CacheSegment",S+"segment_cache.go"),("processSegmentPacket",MP)],observe=["JT808PacketCodec.Decode","Pipeline.ProcessConnRead"])
p("C19","Platform serial numbers of a session never repeat within a cycle",
"The serial numbers drawn for messages originated on one session run through 1, 2, 3, ... and wrap from 65535 to 0, so any 65536 consecutive draws are distinct, also when several goroutines draw at the same time.",
["histories","schedules"],"every counter state (inductive step), every interleaving of up to three concurrent draws",
"No test draws a serial number; the wrap and the race need 65536 draws or a particular interleaving.",
[M+"session.go"],[("Session.GetNextSerialNum",M+"session.go")],observe=["Session.GetNextSerialNum"])
p("C20","A bad or finished connection is closed and hurts no other",
"Whatever bytes or errors a connection delivers, the server process survives and the accept loop and the other sessions keep working. When a connection ends (end of stream, closed, device-not-found, or a failure while handling a message), it is closed and its session is no longer obtainable, while errors in single messages leave it open; after the listener is stopped the accept loop ends.",
["inputs","fault_sequences"],"arbitrary frames up to the bound, every read/write error kind, followed by traffic on another session",
"The server test has an empty case table.",
[SRV,"pkg/routines/safe.go",S+"session_cache.go",PL],[("TCPServer.serve/remove/Start",SRV),("routines.GoSafe",  "pkg/routines/safe.go")],observe=["TCPServer.Start with a scripted listener","storage.GetSession"])
p("C21","An outgoing frame is written completely, once, or the error is reported",
"Sending a frame hands the connection exactly the frame's bytes in order, continuing after a short write and never repeating or skipping a byte, and uses one write call when the connection takes it all, so frames of concurrent senders do not interleave. If the connection fails, the send reports an error that wraps the cause and writes nothing further.",
["fault_sequences","inputs"],"every frame up to the bound, every sequence of short writes and errors up to the bound",
"Sending has no test; short writes and failures do not occur with in-memory connections.",
[FH],[("JT808FrameHandler.Send",FH)],observe=["JT808FrameHandler.Send","Pipeline.ProcessConnWrite"])
p("C22","A message only affects the device whose phone it carries",
"Processing any message from one phone leaves every other registered device unchanged: its registration, status, last-contact time, identity fields, location history and keepalive job.",
["inputs","histories"],"every supported message from one phone, with another device in any state",
"No test has two devices.",
[MP,S+"device_cache.go",S+"geo_cache.go"],[("per-phone caches",S)],observe=["DeviceCache","GeoCache","KeepaliveTimer.Jobs"])
p("C23","Platform commands reach the addressed device's session or fail visibly",
"A command sent to a session writes exactly one frame, carrying that command, to that session's connection and to no other; if the session does not exist nothing is written anywhere and nothing panics; if the connection turns out closed, it is closed and its session is removed. The HTTP parameter query and parameter setting calls do this for the session of the addressed phone, with a fresh serial number, and answer with an error status and send nothing when the phone is unknown or its session is gone. The location call answers with the device's latest location, or an error status when there is none, and the device list holds exactly the registered devices.",
["inputs","histories"],"every target id over bounded session sets, every write outcome, every phone/parameter list up to the bound",
"Neither the send path nor the HTTP handlers have a test.",
[SRV,"internal/api/api.go",S+"session_cache.go"],[("TCPServer.Send",SRV),("api.Run handlers","internal/api/api.go")],observe=["TCPServer.Send","HTTP handlers"])
p("C24","The terminal side answers platform messages consistently",
"Acting as a terminal: a registration reply is answered by an authentication carrying exactly the received code and the device's IMEI and software version; setting parameters is acknowledged by a terminal general reply naming the request, and a later parameter query returns the stored parameters with the new values of those that were set; a media query is answered by a media list with the queried channel and time range; each answer names the request's serial number. A success reply puts the registered terminal online; a reply for an unknown terminal asks to close.",
["inputs","histories"],"every field value; bounded parameter lists and two-step set/query histories",
"No test drives the terminal-side handlers.",
[MP,M+"device_params.go",S+"param_cache.go",M+"msg_0102.go",M+"msg_0104.go",M+"msg_1205.go"],[("processMsg8001/8100/8103/8104/9205",MP),("DeviceParams.Update",M+"device_params.go")],observe=["Pipeline.ProcessConnRead"])
p("C25","Concurrent sessions, timers and API calls never corrupt or wedge the caches",
"Device, session, location, parameter and fragment stores may be used from any number of goroutines at once: no interleaving of registrations, lookups, listing, counting, updates and removals makes two of them touch a shared map unsynchronised (which aborts the process), deadlock, or leave a lock held after a panic.",
["schedules"],"every pair of store operations, every interleaving within the preemption bound, with happens-before race detection on maps",
"The tests touch no store concurrently, and the race needs an unlucky schedule.",
[S+"device_cache.go",S+"session_cache.go",S+"geo_cache.go",S+"param_cache.go",S+"segment_cache.go"],[("per-cache mutex",S)],observe=["storage API"])
p("C26","Primitive fields read back exactly what was written",
"For bytes, words, double words, byte strings, BCD digit strings of at least eight digits and even length, and timestamps of the years 2000-2068, reading a field just written returns the same value and advances the position by exactly the field's width; multi-byte numbers are big-endian and bytes before and after the field are untouched.",
["inputs"],"every scalar value; digit strings and buffers up to the bounded length; every second of the representable years within the bound",
"Eight of the primitive tests have empty case tables, the rest use one value each.",
[HEX],[("Read*/Write*",HEX)],observe=["hex.Read*/Write*"])
p("C27","GBK text converts to UTF-8 and back without loss",
"Text made of characters GBK can represent survives conversion to GBK and back unchanged, ASCII bytes map to themselves, and text that cannot be converted is reported or dropped alone: it never discards message bytes written before it.",
["inputs"],"every text up to the bounded number of characters",
"Tests convert one character and one plate.",
["internal/codec/gbk/gbk.go",HEX],[("GBK2UTF8/UTF82GBK","internal/codec/gbk/gbk.go"),("ReadGBK/WriteGBK",HEX)],observe=["hex.ReadGBK","hex.WriteGBK"])
p("C28","A message cut short is never acted on",
"A frame that ends inside its header, or a message whose body is shorter than the fixed fields of its kind (or, where a field's length is given in the message, than that length), is not acted on, fragmented or not, on the platform and on the simulated terminal: it is not answered, and no registration, status, contact time, location or parameter changes. No byte from outside the message - its checksum, an earlier message, unused buffer space - ever becomes part of a field.",
["inputs"],"every truncation point of every message kind, in one frame or in fragments, with or without earlier traffic on the connection",
"Tests decode whole messages only; what a short one does depends on how much spare room the buffers happen to have.",
[PC,HEX,MP,M+"header.go",S+"segment_cache.go"],[("JT808PacketCodec.Decode",PC),("Read*",HEX)],observe=["Pipeline.ProcessConnRead","DeviceCache","GeoCache"])
p("C29","A fragmented message with lost or repeated parts is never taken for whole",
"A fragmented message is processed only when its parts 1..n of one total have all arrived, in order, since its part 1, and then with each part exactly once. A part that is lost, repeated, out of order, numbered 0 or beyond the total, of a message cut into another number of parts, or refused earlier because its phone was not registered, never leads to processing: no location, status, registration or contact time changes because of it, and a later message sent whole gets through.",
["inputs","histories"],"every sequence of part numbers and totals up to the bounded number of arrivals, message kinds with and without body, both versions",
"No test sends a fragment; losses are histories.",
[S+"segment_cache.go",M+"segment.go",PC,MP],[("CacheSegment",S+"segment_cache.go"),("Segment.Merge/IsComplete",M+"segment.go"),("processSegmentPacket",MP)],observe=["Pipeline.ProcessConnRead","JT808PacketCodec.Decode"])
p("C30","The status and identity shown for a device follow its history",
"A device is shown offline after registering, online after a successful authentication, sleeping after a report with ACC off by an authenticated device, and offline after a keepalive check found it silent too long. Heartbeats, time queries, terminal replies, refused registrations and other devices' messages never change its status, a report with ACC on never makes it sleeping or offline, and no bit of a report but ACC matters for it. The id, plate, phone, session and protocol version shown are those of its registration, the code, IMEI and software version those of its last authentication, and nothing of an earlier registration of the phone, its location included, shows after a new one.",
["inputs","histories"],"every bounded history of messages and keepalive checks with any pauses, every status word, both versions",
"No test looks at a device's status; it is the product of a history.",
[MP,KA,M+"device.go",S+"device_cache.go"],[("processMsg0002/0100/0102/0200",MP),("NewDevice",M+"device.go"),("checkDeviceKeepalive",KA)],observe=["DeviceCache"])
p("C31","The platform does not act on messages only the platform may send",
"A platform general reply, registration reply, parameter setting, parameter query or media query that a terminal sends to the server is not answered, changes no device's status or record and stores no parameters, whoever's phone it carries, in one frame or in fragments; in particular it does not put a device online that has not authenticated. The connection goes on working.",
["inputs","histories"],"the five message kinds with free contents, sender in every state, own, other or unknown phone",
"No test drives the server; both roles share one dispatch table.",
[MP,SRV,M+"session.go"],[("JT808MsgProcessor.Process",MP),("TCPServer.accept",SRV)],observe=["TCPServer.Start with a scripted listener","DeviceCache","DeviceParamsCache"])
p("C32","The terminal client serves its connection until it ends",
"A terminal client's receive loop handles the platform's messages one after another on its own connection, goes on after any number of messages it cannot handle (wrong checksum, unsupported kind, empty frames), and ends when the connection ends or is stopped or a reply names an unknown terminal. A message it sends goes to its own connection as exactly one whole frame, in order and not mixed with answers or other sends going on at the same time; a message that cannot be encoded sends nothing and disturbs no later one, and a send that finds the connection closed closes it. What happens to one client in a process does not affect another.",
["inputs","fault_sequences","schedules"],"bounded sequences of good and bad messages, every way of ending, every write outcome, sends against the receive loop in every interleaving within the preemption bound, two clients",
"The client has no test.",
["internal/client/tcp_client.go",PL,FH,MP],[("TCPClient.Start/Send/Stop/Dial","internal/client/tcp_client.go")],observe=["TCPClient on a scripted connection"])
p("C33","The log configuration handed to the logger is the configured one",
"Each log level name DEBUG, INFO, WARN, ERROR and FATAL is translated to exactly that level in the logger configuration built from the loaded configuration, whatever else is configured, and every other log setting (console, file, JSON, directory, file name, size, backups, age) reaches the logger configuration unchanged.",
["inputs"],"the five names, free switches and sizes, bounded free directory and file names",
"The configuration test loads one file and looks at no logger setting.",
["internal/config/config.go"],[("Config.ParseLogConf","internal/config/config.go")],observe=["Config.ParseLogConf"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d,ensure_ascii=False)+"\n" for d in P))
print(len(P))
