#!/usr/bin/env python3
# Generates properties.jsonl (kept as a generator so that the statements are easy to edit).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Outbound bytes reach the socket in order, none lost or duplicated",
 "For every connection that stays open, the bytes already handed to its socket followed by the bytes waiting in its write buffer always equal the concatenation of all accepted output (protocol-packed OnMessage replies and Send data) in the order it was accepted. No pattern of short writes and would-block results may lose, duplicate, reorder or alter a byte.",
 ["inputs","histories","fault_sequences"],"all outputs of any size, all buffer states, all results of every write call, all sequences of events and tasks",
 "The tests echo random data over loopback, where short writes are rare; the split at every possible byte and ring-buffer position, and would-block at each write, is not reached.",
 ["connection.go"],[("sendInLoop","connection.go"),("handleWrite","connection.go"),("handlerProtocol","connection.go"),("Send","connection.go")],
 [("outBuffer","bytes accepted but not yet given to the kernel","connection.go")],["bytes on the socket"])
p("C02","Received bytes are presented to the decoder in order, none lost",
 "Whenever the protocol decoder is invoked, the buffer it sees holds exactly the bytes received on that connection minus those it has already consumed, in order. Bytes it leaves unconsumed are retained unchanged until more data arrives, however the stream is segmented into reads. Assembling replies never overwrites input that is not yet consumed.",
 ["inputs","histories"],"all segmentations of all byte streams and all decoders that consume any prefix",
 "Tests use a decoder that consumes everything, so the retained-remainder paths run with hardly any of their states.",
 ["connection.go"],[("handleRead","connection.go"),("handlerProtocol","connection.go")],
 [("inBuffer","unconsumed input kept between reads","connection.go"),("buffer","view of the packet just read","connection.go")],["UnPacket's argument"])
p("C03","A connection is torn down exactly once and is silent afterwards",
 "Whatever mix of peer close, I/O errors, Close calls and idle timeout occurs, OnClose runs at most once per connection, and its descriptor is deregistered from the event loop before it is closed and is closed only once. After teardown Connected is false, no OnMessage is delivered, nothing is read from or written to the descriptor, the pooled buffers are not used again, and Send and Close return the connection-closed error. A hang-up, end of stream or hard I/O error does tear the connection down, a would-block result does not.",
 ["histories","fault_sequences","schedules"],"all orders of events, queued tasks and I/O results",
 "Tests close a connection in one or two simple ways; double closes and closes in the middle of a write or read are not sampled.",
 ["connection.go"],[("handleClose","connection.go"),("HandleEvent","connection.go"),("Send","connection.go"),("Close","connection.go")],
 [("connected","true until torn down","connection.go")],["OnClose calls","close(2) calls"])
p("C04","Write interest is subscribed exactly while output is pending",
 "After every event or queued task on an open connection, the connection is subscribed to write readiness if and only if its write buffer holds bytes, and it is always subscribed to read readiness. While output is pending no further input is read from the connection.",
 ["histories","fault_sequences"],"all sequences of events, sends and write results",
 "A missing or superfluous subscription shows only when a write falls short, which loopback tests seldom cause.",
 ["connection.go","eventloop/eventloop.go","poller/epoll.go"],[("sendInLoop","connection.go"),("handleWrite","connection.go"),("EnableRead/EnableReadWrite","poller/epoll.go")],
 (),["epoll_ctl calls"])
p("C05","Queued tasks run exactly once, in order, and are never stranded",
 "Every function queued to an event loop is taken by exactly one execution round of that loop and run exactly once, in queueing order; functions queued meanwhile belong to a later round. In every interleaving of producers with the loop, a queued function that has not been taken is covered by a pending wakeup or a loop pass still to come, so it is never stranded.",
 ["schedules","histories"],"all interleavings of any number of producers with the loop goroutine",
 "A lost wakeup needs one particular interleaving between a producer and the loop; stress tests hit it by luck only.",
 ["eventloop/eventloop.go","poller/epoll.go"],[("QueueInLoop","eventloop/eventloop.go"),("handlerEvent","eventloop/eventloop.go"),("doPendingFunc","eventloop/eventloop.go"),("Wake","poller/epoll.go")],
 [("needWake","false while a wakeup is outstanding","eventloop/eventloop.go"),("taskQueueW","tasks not yet taken","eventloop/eventloop.go")],["task executions"])
p("C06","Readiness notifications are translated and dispatched faithfully",
 "Each readiness record returned by one wait call is delivered to the handler exactly once with its own descriptor: read is reported for readable, urgent or peer-half-close, write for writable or error, and error for a hang-up without readable data. The wake notification is delivered after all descriptor records of the batch and never as an ordinary descriptor, so queued work cannot run between records of one batch. Polling ends only after a wakeup is seen while the poller is no longer running.",
 ["inputs","histories","fault_sequences"],"all batches of records with all event masks, all error results of the wait call",
 "Tests see only the masks loopback produces and small batches; a stale record after descriptor reuse needs a specific batch.",
 ["poller/epoll.go"],[("Poll","poller/epoll.go"),("wakeHandlerRead","poller/epoll.go")],(),["handler calls"])
p("C07","A loop's registry and connection count stay consistent",
 "The connection count of an event loop changes exactly with its registered sockets: a successful registration adds that socket under its descriptor and one to the count, a failed one changes neither, and removal deletes only that descriptor and subtracts one. An event is dispatched only to the socket registered under its descriptor, and events for unknown descriptors are ignored.",
 ["histories","fault_sequences"],"all sequences of registrations, removals and events, with failing poller calls",
 "Failing epoll calls and events for unknown descriptors do not occur in the tests.",
 ["eventloop/eventloop.go"],[("AddSocketAndEnableRead","eventloop/eventloop.go"),("DeleteFdInLoop","eventloop/eventloop.go"),("handlerEvent","eventloop/eventloop.go")],
 [("sockets","registered sockets","eventloop/eventloop.go"),("ConnCunt","their number","eventloop/eventloop.go")],["ConnectionCount"])
p("C08","Load balancing picks the promised loop",
 "Round robin returns, on its k-th call (from 0) for n loops, loop k mod n. Least connection returns one of the given loops whose connection count is minimal among them, the first such loop. Neither changes the loops.",
 ["inputs","histories"],"all numbers of loops, counts and call numbers",
 "The tests use one fixed set of loops and a few calls.",
 ["load_balance.go"],[("RoundRobin","load_balance.go"),("LeastConnection","load_balance.go")],(),["returned loop"])
p("C09","Send and Close only enqueue; connection state is touched on its loop",
 "Send, Close and the idle timer, callable from any goroutine, never touch a connection's buffers, socket or registry directly: they only enqueue a task on the connection's own loop, exactly one per accepted call and none for a rejected one. The task queued by Send, if the connection is still open when it runs, packs and sends the data and then calls the completion callback exactly once with that data, otherwise does nothing; the task queued by Close tears the connection down.",
 ["schedules","histories","inputs"],"all callers, connection states at call time and at run time, all options",
 "Confinement violations are data races that show only under rare schedules.",
 ["connection.go","connection_options.go"],[("Send","connection.go"),("Close","connection.go"),("closeTimeoutConn","connection.go"),("SendInLoop","connection_options.go")],(),["queued tasks"])
p("C10","Idle connections are closed after, and not before, the idle time",
 "When a connection's idle timer fires, the connection is closed if the time since its last activity (kept in whole seconds) is at least the idle time; otherwise, if still open, the timer is re-armed for exactly the remaining time. Every event on the connection refreshes the activity time, and with no idle time configured no timer exists.",
 ["inputs","histories"],"all activity times, clock values and idle times",
 "The test waits for one idle time of 3 s without any activity.",
 ["connection.go"],[("closeTimeoutConn","connection.go"),("HandleEvent","connection.go"),("NewConnection","connection.go")],(),["Close calls, timer durations"])
p("C11","The per-connection key/value store is a correct concurrent map",
 "Get returns the value most recently Set for the key, and whether it is present; Delete removes exactly that key; other keys are never affected, and an unused store behaves as empty. Every access to the underlying map is made under the store's lock (writes exclusively), and the lock is released on every path.",
 ["histories","schedules","inputs"],"all sequences and interleavings of operations on all keys",
 "The test runs one short sequence in one goroutine.",
 ["context.go"],[("Set/Get/Delete","context.go")],[("kv","stored pairs","context.go")],["Get results"])
p("C12","The default protocol delivers all buffered bytes exactly once",
 "The default protocol's decoder returns every byte of the buffer it is given, in order, whatever the buffer's internal layout, and leaves it empty; its encoder passes bytes through unchanged. The scratch buffer it may use grows as needed without losing data.",
 ["inputs"],"all contents, layouts and scratch buffer sizes",
 "One wrapped 4-byte buffer is tested.",
 ["protocol.go"],[("DefaultProtocol.UnPacket","protocol.go"),("DefaultProtocol.Packet","protocol.go")],(),["decoder result"])
p("C13","Protobuf framing round-trips and never over- or under-reads",
 "A message packed by the protobuf plugin (type up to 65535 bytes, total below 4 GiB) is laid out as a 4-byte length, 2-byte type length, type and data, and the decoder returns exactly that type and data, consuming exactly that frame, for every buffer layout and whatever follows it. An incomplete frame consumes nothing and yields nothing. No received bytes make the decoder panic.",
 ["inputs","histories"],"all types, data, buffer layouts, partial frames and malformed lengths",
 "There is no test for the plugin.",
 ["plugins/protobuf/protobuf.go","plugins/protobuf/protocol.go"],[("PackMessage","plugins/protobuf/protobuf.go"),("UnPacket","plugins/protobuf/protocol.go")],(),["decoder result"])
p("C14","WebSocket frame headers are encoded and decoded as RFC 6455 prescribes",
 "Writing any legal frame header yields the RFC 6455 encoding (fin, rsv, opcode, mask bit, minimal 7/16/64-bit length, mask key), and reading such bytes yields the same header and consumes exactly them. Reading an incomplete header reports not-ready and consumes nothing; a 64-bit length with the top bit set is an error.",
 ["inputs"],"all headers and all buffer contents and layouts",
 "Only the small frames of one client library are exercised.",
 ["plugins/websocket/ws/write.go","plugins/websocket/ws/read.go","plugins/websocket/ws/frame.go"],[("WriteHeader","plugins/websocket/ws/write.go"),("VirtualReadHeader","plugins/websocket/ws/read.go"),("FrameToBytes","plugins/websocket/ws/frame.go")],(),["header bytes"])
p("C15","WebSocket masking XORs every byte with the right key byte",
 "Applying the cipher to any payload with any key and any non-negative offset replaces byte i by itself XOR key byte (offset+i) mod 4, for every i, and changes nothing else; applying it twice restores the payload.",
 ["inputs"],"all payload lengths, keys and offsets",
 "The word-at-a-time path depends on length and offset modulo 8 and 4; only offset 0 is exercised.",
 ["plugins/websocket/ws/cipher.go"],[("Cipher","plugins/websocket/ws/cipher.go")],(),["payload bytes"])
p("C16","WebSocket frames are decoded exactly once at any segmentation",
 "After the upgrade, the WebSocket decoder yields a frame exactly when all its bytes are buffered: it returns that frame's header and its unmasked payload and consumes exactly the frame, for every buffer layout. While the frame is incomplete (header or payload cut at any byte) it yields nothing and the buffered bytes stay intact.",
 ["inputs","histories"],"all frames, all cuts, all buffer layouts",
 "Loopback delivers small frames whole, so no cut inside a header or between header and payload is ever tested.",
 ["plugins/websocket/protocol.go","plugins/websocket/ws/read.go"],[("UnPacket","plugins/websocket/protocol.go"),("VirtualReadHeader","plugins/websocket/ws/read.go")],(),["decoder result and buffer"])
p("C17","WebSocket control frames are answered correctly",
 "A ping is answered by a pong with the same payload; a close frame is answered by a close frame that is sent before the write side is shut down, empty if the received one was empty, with protocol-error status if its status code or reason is invalid, and with the same status otherwise. The close payload codec is exact: status big-endian then reason, cropped so that the payload never exceeds 125 bytes. Control frames never reach the message handler.",
 ["inputs"],"all payloads, status codes and reasons",
 "One close frame of one client library is exercised.",
 ["plugins/websocket/wrap.go","plugins/websocket/ws/util/util.go","plugins/websocket/ws/frame.go","plugins/websocket/ws/read.go"],[("HandlerWrap.OnMessage","plugins/websocket/wrap.go"),("HandleClose, HandlePing, CheckCloseFrameData","plugins/websocket/ws/util/util.go"),("NewCloseFrameBody, PutCloseFrameBody","plugins/websocket/ws/frame.go"),("ParseCloseFrameData","plugins/websocket/ws/read.go")],(),["reply frames"])
p("C18","The WebSocket handshake accepts exactly the valid upgrade requests",
 "An upgrade succeeds only for a GET request of HTTP/1.1 or later in major version 1 whose Host, Upgrade: websocket, Connection: Upgrade, Sec-WebSocket-Version: 13 and 24-byte Sec-WebSocket-Key headers are all present and valid, with every header well formed and no user callback rejecting it; any such request succeeds. A request is consumed only when it is complete, and then exactly its bytes are consumed. A rejected complete request gets an HTTP error response.",
 ["inputs"],"all requests, header orders, callback results, buffer layouts",
 "Two client libraries' well-formed requests are exercised.",
 ["plugins/websocket/ws/ws.go"],[("Upgrade","plugins/websocket/ws/ws.go")],(),["Upgrade result"])
p("C19","HTTP request-line and header parsing is exact and never panics",
 "For every byte string the request line is split at its first two spaces, the HTTP version is accepted only in the form HTTP/digits.digits with the right values, a header line is split at its first colon with surrounding blanks trimmed and its key put in canonical case, and bytes that are not a letter of the wrong case are left unchanged. No input makes any of this panic.",
 ["inputs"],"all byte strings (version numbers of up to 18 digits)",
 "There is no test for these functions.",
 ["plugins/websocket/ws/http.go","plugins/websocket/ws/util.go"],[("httpParseRequestLine, httpParseVersion, httpParseHeaderLine","plugins/websocket/ws/http.go"),("bsplit3, btrim, asciiToInt, canonicalizeHeaderKey","plugins/websocket/ws/util.go")],(),["parse results"])
p("C20","Handshake responses carry the right status line, headers and accept key",
 "A successful upgrade is answered by a 101 response whose Sec-WebSocket-Accept is the base64 SHA-1 of the client key followed by the RFC 6455 GUID, with the negotiated subprotocol and extensions and the user's headers, ended by an empty line. A rejection is answered by the status chosen for its error (400, 405, 426, 505, a user-chosen status, or 500), its headers and its reason as body with the matching Content-Length.",
 ["inputs"],"all nonces, subprotocols, extensions, errors and user headers",
 "Clients in the tests check the accept key only for a few random keys and see no rejection.",
 ["plugins/websocket/ws/http.go","plugins/websocket/ws/nonce.go","plugins/websocket/ws/ws.go","plugins/websocket/ws/errors.go"],[("httpWriteResponseUpgrade, httpWriteResponseError","plugins/websocket/ws/http.go"),("initAcceptFromNonce","plugins/websocket/ws/nonce.go"),("RejectConnectionError","plugins/websocket/ws/errors.go")],(),["response bytes"])
p("C21","Server options take effect and defaults fill only what is unset",
 "Each option sets exactly its own setting, later options override earlier ones, and after all options only unset settings take their documented default (network tcp, address :1388, 1 ms tick, 1000-slot wheel, default protocol, round robin). A nil handler is refused.",
 ["configurations"],"all option lists",
 "The tests use a handful of option lists.",
 ["options.go","server.go"],[("newOptions","options.go"),("NewServer","server.go")],(),["Options"])
p("C22","Every accepted connection is set up exactly once on one of the loops",
 "Each successfully accepted descriptor is made non-blocking and handed over exactly once, or closed if that fails, and a failed accept hands over nothing. A handed-over connection is given the server's settings and its peer address, and on the loop chosen by the strategy OnConnect runs exactly once before the connection is registered for reading, so before any of its OnMessage calls.",
 ["histories","fault_sequences","inputs"],"all accept and set-up results, strategies and peer addresses",
 "Failing accept or set-up calls do not occur in tests, and the order on the loop is not observed.",
 ["listener.go","server.go","connection.go"],[("listener.HandleEvent","listener.go"),("handleNewConnection","server.go"),("NewConnection, sockAddrToString","connection.go")],(),["callbacks"])
p("C23","Log messages are emitted exactly up to the configured level",
 "A message is passed to the logger exactly when its level does not exceed the current level, exactly once, with the configured prefix and all its arguments in order; the setters change just their own setting.",
 ["inputs","configurations"],"all levels, prefixes, loggers and arguments",
 "There is no test for the package.",
 ["log/log.go"],[("WithLevel, WithLevelf, Log, Logf","log/log.go")],(),["Logger calls"])
p("C24","Reported buffer lengths equal the real backlog",
 "After every event or queued send on an open connection, ReadBufferLength and WriteBufferLength report exactly the number of received bytes not yet consumed and of accepted bytes not yet given to the socket.",
 ["histories","fault_sequences"],"all sequences of events, sends and write results",
 "No test reads these lengths with a backlog present.",
 ["connection.go"],[("HandleEvent, sendInLoop","connection.go")],(),["ReadBufferLength, WriteBufferLength"])
p("C25","Outgoing WebSocket messages become one well-formed final frame",
 "A non-empty message returned by the WebSocket handler, or packed by the helper, becomes exactly one final unmasked frame with the opcode of its message type and precisely its bytes as payload; an empty result sends nothing. Data received before the upgrade completes never reaches the message handler.",
 ["inputs"],"all messages of both types and all decoder outputs",
 "Only small echo messages are exercised.",
 ["plugins/websocket/wrap.go","plugins/websocket/ws/util/util.go","plugins/websocket/ws/frame.go"],[("HandlerWrap.OnMessage","plugins/websocket/wrap.go"),("PackData","plugins/websocket/ws/util/util.go"),("FrameToBytes","plugins/websocket/ws/frame.go")],(),["frame bytes"])
p("N01","Stop ends every loop and closes every connection",
 "Stopping a running server eventually ends all its loops and timers, closes every open connection with its OnClose callback, and lets Start return.",
 ["schedules","histories"],"all points at which Stop may be called",
 "The tests stop idle servers only and do not look at the callbacks.",
 ["server.go","eventloop/eventloop.go","poller/epoll.go"],[("Stop","server.go"),("EventLoop.Stop","eventloop/eventloop.go"),("Poller.Close","poller/epoll.go")],(),["OnClose calls"])
p("N02","Scheduled functions run on time",
 "RunAfter runs its function once after the given delay and RunEvery runs it once per interval until stopped, within the tick of the timer wheel.",
 ["schedules","configurations"],"all delays and intervals",
 "Two examples check one delay of one second.",
 ["server.go","everyscheduler.go"],[("RunAfter, RunEvery","server.go")],(),["function calls"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
