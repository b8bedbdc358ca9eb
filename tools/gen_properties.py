#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("C01", "Bit tables: in-range accesses exact, out-of-range accesses refused",
  "For every node layout (start address and size of the coil and discrete-input tables, up to the very top of the 16-bit address space) a read or write of n>=1 bits succeeds exactly when the whole addressed range lies inside the configured table and, for a write, at least n value bits are supplied. A successful read returns exactly the stored bits, packed least-significant-bit first with zero padding, and a successful write changes exactly the addressed bits of that table and nothing else in the node. A refused access reports the illegal-data-address exception, changes nothing, and leaves the node fully usable. The start and quantity a node reports of its bit tables are those it was created with.",
  ["inputs", "configurations", "histories"], "every layout, address, quantity, value pattern and prior table content",
  "Tests try a 16-bit table at start 0 with a handful of addresses; they never use a non-zero start, an address near 65535, quantities beyond 32767, or check that neighbouring bits and tables stay put.",
  ["register.go"],
  [("range check and bit packing", "register.go ReadCoils/WriteCoils/ReadDiscretes/WriteDiscretes, getBits/setBits")],
  [("coils/discrete", "packed bit tables sharing one backing array", "register.go NodeRegister")],
  ["NodeRegister.ReadCoils", "NodeRegister.WriteCoils", "NodeRegister.ReadDiscretes", "NodeRegister.WriteDiscretes", "single-bit variants"])

p("C02", "Word tables: in-range accesses exact, out-of-range accesses refused",
  "For every node layout a read or write of n>=1 holding or input registers, through the byte or the word form, succeeds exactly when the whole addressed range lies inside the configured table and (byte-form writes) exactly 2n bytes are supplied. Values read are the values last written, byte and word forms agree and are big-endian, a successful write changes exactly the addressed registers and nothing else in the node, and returned slices are copies. A refused access returns an exception error, changes nothing, and leaves the node fully usable. The start and quantity a node reports of its word tables are those it was created with.",
  ["inputs", "configurations", "histories"], "every layout, address, quantity, value and prior table content",
  "Tests use a 3-register table at start 0; wrap-around of 16-bit address arithmetic, non-zero starts, over-long slices and isolation between the tables are never sampled.",
  ["register.go"],
  [("range check and big-endian copy", "register.go Read/Write Holdings/Inputs (Bytes)")],
  [("input/holding", "word tables sharing one backing array", "register.go NodeRegister")],
  ["NodeRegister.ReadHoldings*", "NodeRegister.WriteHoldings*", "NodeRegister.ReadInputs*", "NodeRegister.WriteInputs*"])

p("C03", "Mask write changes one holding register to (old AND and) OR (or AND NOT and)",
  "For every node layout, a mask write to a holding register inside the table sets that register - the one with that address, whatever the table's start address - to (old AND and_mask) OR (or_mask AND NOT and_mask) and touches nothing else. A mask write to any other address reports illegal data address, changes nothing, and leaves the node fully usable.",
  ["inputs", "configurations"], "every layout, address, old value and mask pair",
  "The only test uses start address 0 and one value; any non-zero start address is unexercised.",
  ["register.go", "function.go"], [("MaskWriteHolding", "register.go")], None, ["NodeRegister.MaskWriteHolding"])

p("C04", "Concurrent register operations on a node are race-free and linearizable",
  "Any number of goroutines may call a node's register operations concurrently: every history is equivalent to running the calls one at a time in some order consistent with real time, so multi-bit and multi-register reads and writes and mask writes are never torn or lost. No interleaving deadlocks, panics or contains a data race.",
  ["schedules"], "all interleavings of 2-3 goroutines over overlapping ranges of each table",
  "The tests never run two register operations at once.",
  ["register.go"], [("reader/writer lock around every table access", "register.go NodeRegister.rw")],
  [("rw", "guards the four tables and the slave id", "register.go NodeRegister")], ["NodeRegister methods"])

p("C05", "Server unit directory behaves as a concurrent map of unit id to node",
  "Adding nodes, deleting one or all, looking up, listing and ranging over a server's units behave as a map keyed by unit id (adding an existing id replaces the node), under any sequence of operations and when goroutines do it concurrently with each other and with traffic. Requests to a unit are executed on exactly the node currently registered for it, and requests to an unregistered unit get no reply and have no effect while the connection keeps being served.",
  ["histories", "schedules"], "all operation sequences up to a depth over 3 unit ids; all interleavings of directory changes with lookups and requests",
  "The single test adds two nodes and deletes one, sequentially and before any traffic.",
  ["function.go", "server_tcp_session.go"], [("node directory", "function.go serverCommon.node")],
  [("node", "unit id -> node", "function.go serverCommon")], ["AddNodes", "DeleteNode", "DeleteAllNode", "GetNode", "GetNodeList", "Range"])

p("C06", "TCP server executes each well-formed request exactly as the register model",
  "For every well-formed, in-range request of the ten supported functions addressed to a served unit, the TCP server sends exactly one reply that echoes the transaction id, protocol id, unit id and function code with a correct length field and carries exactly the data a sequential register model gives (reads return stored values, writes are echoed, combined read/write writes first). Afterwards the unit's tables equal the model's, and other units are untouched.",
  ["inputs", "histories"], "all request sequences up to a depth over boundary addresses, quantities and values, from every reachable table state of a small node",
  "Handler tests call single functions with one or two inputs on start address 0; replies on the wire are checked for one request.",
  ["function.go", "server_tcp_session.go", "register.go"],
  [("function handlers", "function.go func*"), ("reply framing", "server_tcp_session.go frameHandler")], None, ["bytes on the server connection", "NodeRegister contents"])

p("C07", "Rejected requests get the right exception and leave all tables unchanged",
  "A request to a served unit with an unsupported function is answered with exception 1; one whose size, quantity, byte count or coil value is not legal with exception 3; a legal one whose addressed range (either range, for combined read/write) is not inside the table with exception 2; the reply is the function code with its top bit set plus that single code, under the request's transaction and unit id. No rejected request, including a combined read/write whose read range is bad or a write whose payload is shorter than announced, changes any table.",
  ["inputs"], "every function code 0-255, and every short, long, inconsistent or out-of-range request over boundary values, against several table layouts",
  "Tests check only that an error is returned for two or three bad inputs per function; codes and absence of side effects are not checked.",
  ["function.go", "server_tcp_session.go", "register.go"],
  [("validation order and exception mapping", "function.go func*, server_tcp_session.go frameHandler")], None, ["bytes on the server connection", "NodeRegister contents"])

p("C08", "Server replies depend on the byte stream only, not on its segmentation",
  "However a client's byte stream is cut into segments and however many requests are pipelined in it, the server answers every request once, in order, with the same reply bytes. Frames for units that are not served and frames with a foreign protocol identifier are skipped as a whole: no reply, no effect, and the frames after them are answered normally.",
  ["inputs", "fault_sequences"], "all ways to cut request streams into segments, all sequences of good, unknown-unit and foreign-protocol frames up to a depth",
  "The one end-to-end test sends a single request in a single segment.",
  ["server_tcp_session.go"], [("frame reassembly loop", "server_tcp_session.go running")], None, ["bytes on the server connection"])

p("C09", "No byte stream can crash, hang or poison the TCP server",
  "Whatever bytes a client sends and wherever it stops, resets or stalls, the server process keeps running, every node stays usable, and well-formed requests on other and on new connections keep being answered correctly. A frame that is not a well-formed request changes no table, and a connection carrying an impossible length is either resynchronised or closed, never left hanging half-open past the read timeout.",
  ["inputs", "fault_sequences"], "all header field combinations over boundary values including length 0..65535 boundaries, all PDUs up to a size over a boundary alphabet, all truncation points",
  "No test sends a malformed frame to the server.",
  ["server_tcp_session.go", "function.go", "register.go", "server_tcp.go"],
  [("length handling and panic containment", "server_tcp_session.go running/frameHandler")], None, ["process liveness", "a second connection"])

p("C10", "Concurrent server connections are isolated and requests take effect atomically",
  "With several clients connected at once each connection receives exactly the replies to its own requests, in its own order, and all requests on a unit - including combined read/write and mask write - take effect atomically in an order consistent with real time. A client that stalls, disconnects mid-request or never reads its replies neither delays nor disturbs the others, and no interleaving deadlocks or contains a data race.",
  ["schedules", "fault_sequences"], "all interleavings (to a preemption bound) of 2-3 connections with 1-2 requests each on overlapping ranges",
  "The tests open one connection and send one request.",
  ["server_tcp.go", "server_tcp_session.go", "function.go", "register.go"],
  [("one session per connection, locked register access", "server_tcp.go ListenAndServe, register.go")], None, ["bytes on each connection", "NodeRegister contents"])

p("C11", "TCP server start/close: close stops everything and then returns",
  "Closing a running server makes the listener stop, the serve call return, and every session end: when close returns no connection is still open or being served and no later request changes a table, and it returns within a small multiple (about two) of the read plus write timeout whatever clients do. Closing twice, concurrently or before serving is harmless; temporary accept failures and clients that come and go do not stop the server, and connections are not leaked.",
  ["schedules", "fault_sequences"], "all interleavings (to a preemption bound) of close, accept, request and disconnect events; all sequences of accept errors up to a depth",
  "The test closes a server once, with no client connected and nothing concurrent.",
  ["server_tcp.go", "server_tcp_session.go"],
  [("listener/cancel/waitgroup handshake", "server_tcp.go Close/ListenAndServe")], [("listen, cancel, wg", "lifetime of listener and sessions", "server_tcp.go TCPServer")], ["Close", "ListenAndServe", "connection state"])

p("C12", "Custom function handlers are called as registered and their outcomes reported",
  "A handler registered for a function code replaces or adds that function: it receives the addressed unit's node and exactly the request's data bytes, and its returned data is sent back under the request's function code. A handler that returns an exception error is reported with that code, any other error as server-device-failure, and a handler that panics does not take down the connection, the server or the node; registering nil changes nothing.",
  ["inputs", "configurations"], "all function codes, request sizes and handler outcomes (data of every length, each exception, plain error, panic)",
  "No test registers a handler.",
  ["function.go", "server_tcp_session.go"], [("dispatch and error mapping", "server_tcp_session.go frameHandler, function.go RegisterFunctionHandler")], None, ["RegisterFunctionHandler", "bytes on the server connection"])

p("C13", "Client calls send exactly the specified frame, or nothing for bad arguments",
  "Every client call whose slave id, quantity or value length is outside the documented limits (including custom address limits) returns an error and transmits nothing. Every other call transmits exactly one request, byte for byte the frame the Modbus specification prescribes for that function on TCP (header), RTU (CRC) or ASCII (hex, LRC) - byte counts covering just the addressed values - and never modifies the caller's buffers.",
  ["inputs", "configurations"], "all 15 calls x boundary and interior slave ids, addresses, quantities and values x three transports x address-limit options",
  "Encoder tests cover three sample frames; the calls are tested against a stub that ignores the request.",
  ["client.go", "client_tcp.go", "client_rtu.go", "client_ascii.go", "crc.go", "lrc.go"],
  [("argument checks and PDU building", "client.go"), ("frame encoders", "client_tcp.go/client_rtu.go/client_ascii.go encode*Frame")], None, ["bytes written to the transport"])

p("C14", "TCP client accepts only the reply to its own request",
  "Over TCP a client call succeeds only if the reply carries the request's transaction id, protocol id, unit id and function code, a consistent length, and contents of the size or echo that the request implies; the result is then exactly the reply's data. Any other reply bytes whatsoever produce an error - never a panic, a hang or a wrong result.",
  ["inputs", "fault_sequences"], "all calls x replies obtained by every single-field mutation, every truncation/extension, and all small byte strings",
  "Tests check six hand-made header mismatches and a few sizes against a stub.",
  ["client_tcp.go", "client.go"], [("decode and verify", "client_tcp.go decodeTCPFrame/verifyTCPFrame"), ("content checks", "client.go")], None, ["results of client calls"])

p("C15", "RTU and ASCII clients accept only a valid reply to their own request",
  "Over RTU and ASCII a client call succeeds only if the reply frame is intact (delimiters, checksum) and carries the request's slave id and function code and contents of the size or echo that the request implies; the result is then exactly the reply's data. Any other reply bytes whatsoever produce an error - never a panic, a hang or a wrong result.",
  ["inputs", "fault_sequences"], "all calls x replies obtained by every single-field mutation, truncation/extension, and small byte strings, on both serial transports",
  "No test drives the serial clients past their encoders and decoders; replies are never mutated systematically.",
  ["client_rtu.go", "client_ascii.go", "client.go", "serial.go"], [("read loop, decode and verify", "client_rtu.go, client_ascii.go")], None, ["results of client calls"])

p("C16", "Exception replies surface as that exception, and nothing else does",
  "When the addressed device answers a request with an exception reply, the call fails with an exception error carrying exactly the code in the reply, on all three transports and for every call and code. Replies that are not exception replies to the request's own function are never reported as a device exception, and an exception leaves the client usable for the next call.",
  ["inputs"], "all calls x all 256 exception codes x three transports; all 256 reply function codes",
  "One test checks the conversion helper for one code.",
  ["client.go", "client_tcp.go", "client_rtu.go", "client_ascii.go", "modbus.go"], [("exception mapping", "client.go responseError, verify functions")], None, ["error type and code returned by client calls"])

p("C17", "Client results do not depend on how the reply is chunked in time",
  "A correct reply yields the same successful result however it is cut into chunks and whatever the pauses between them (within the timeout), for every call - including the variable-length FIFO read - on TCP, RTU and ASCII.",
  ["fault_sequences", "inputs"], "all ways to cut replies of every call into chunks, with delays, on three transports",
  "The tests' replies are never split; serial reads are never exercised.",
  ["client_tcp.go", "client_rtu.go", "client_ascii.go"], [("reply reassembly", "SendRawFrame of each provider")], None, ["results of client calls"])

p("C18", "Concurrent callers never mix up requests, replies or buffers",
  "Several goroutines may share one client, and several clients may be used at once: each call gets the reply to its own request or an error, requests on one connection go out whole and one at a time, and concurrently outstanding transaction ids on a connection are distinct. Frame buffers recycled between calls and clients never leak one call's bytes into another, and no interleaving deadlocks or contains a data race.",
  ["schedules"], "all interleavings (to a preemption bound) of 2-3 callers on one or two clients, per transport",
  "Tests make one call at a time.",
  ["client_tcp.go", "client_rtu.go", "client_ascii.go", "buffer.go", "crc.go"],
  [("per-connection mutex, pooled frames, atomic transaction id", "client_*.go SendRawFrame/Send, buffer.go")], [("pool", "recycled frame buffers shared by all clients of a transport", "buffer.go")], ["bytes on the wire", "results of calls"])

p("C19", "TCP client recovers from failed exchanges and never serves stale bytes",
  "After an exchange fails for any reason - connection lost while idle, while writing or at any byte of the reply, reset, time-out with a late reply, truncated reply, impossible length header - bytes belonging to the failed exchange are never taken as the answer to a later call, and once the server is healthy again calls succeed without the user reconnecting, at the latest from the second call on. A failed call always returns an error.",
  ["fault_sequences", "crash_points"], "all placements of one or two faults (kind x byte position) in a sequence of calls",
  "No test breaks a connection or delays a reply.",
  ["client_tcp.go"], [("error handling and reconnect", "client_tcp.go SendRawFrame/connect/close")], [("conn", "current connection or none", "client_tcp.go TCPClientProvider")], ["results of subsequent calls", "connections dialled and closed"])

p("C20", "TCP client connection lifecycle: at most one live connection, none leaked",
  "Under any sequence or interleaving of connect, close, is-connected and calls, the client holds at most one open connection, reports itself connected exactly while it holds one, dials automatically when a call needs a connection, and reports dial failures. After close every connection it ever dialled is closed, close and connect are idempotent, and the client can be connected and used again.",
  ["histories", "schedules"], "all operation sequences to a depth with dial failures injected; all interleavings of 2-3 goroutines to a preemption bound",
  "The test does one connect, one call, one close.",
  ["client_tcp.go"], [("Connect/Close/IsConnected under one mutex", "client_tcp.go")], [("conn", "current connection or none", "client_tcp.go TCPClientProvider")], ["dial/close events", "IsConnected"])

p("C21", "Every client call returns in bounded time whatever the peer does",
  "With a configured time-out a TCP client call returns - with an error if need be - within a small constant multiple (dial plus four) of that time-out, even if the peer accepts and stays silent, stalls at any byte, drips bytes, or stops reading. A serial call to a silent device returns after the request's transmission delay plus the port's time-out, and a call to a device that hangs up returns an error just as soon.",
  ["fault_sequences"], "all stall positions and drip schedules of a peer, in virtual time",
  "No test has a silent or slow peer.",
  ["client_tcp.go", "client_rtu.go", "client_ascii.go"], [("deadlines around each exchange", "client_tcp.go SendRawFrame")], None, ["virtual time at return"])

p("C22", "Serial clients open, use, drop and reopen the port correctly",
  "Under any sequence or interleaving of connect, close, is-connected and calls, a serial client holds at most one open port, opens it with the configured settings when needed, reports open failures, and reports itself connected exactly while it holds a port. A failed write closes the port and the next call reopens it; a successful exchange keeps the port open; after close no port it opened is left open and it can be used again.",
  ["histories", "schedules", "fault_sequences"], "all operation sequences to a depth with open/write/read faults; all interleavings of 2-3 goroutines to a preemption bound; RTU and ASCII",
  "No test opens a port.",
  ["serial.go", "client_rtu.go", "client_ascii.go"], [("Connect/Close/IsConnected under one mutex", "serial.go")], [("port", "open port or none", "serial.go serialPort")], ["port open/close events", "IsConnected"])

p("C23", "Checksums match the specification and catch corruption on the wire",
  "The exported CRC-16 and LRC equal the Modbus definitions for every byte sequence (from the first, possibly concurrent, use on; the LRC may be fed piecewise and reset). A serial reply corrupted in any one byte, or for RTU in any burst of up to 16 bits, is never accepted with a different content.",
  ["inputs", "schedules"], "all byte strings up to length 2-3 plus structured long ones; all single-byte and short-burst corruptions of reply frames; concurrent first use",
  "Tests check one vector each.",
  ["crc.go", "lrc.go", "client_rtu.go", "client_ascii.go"], [("table-driven CRC, additive LRC", "crc.go, lrc.go")], [("table", "lazily built CRC table", "crc.go")], ["CRC16", "LRC", "client results"])

p("C24", "Reverse server: connect, callbacks and reconnect follow one state machine",
  "A started reverse server dials its remote; each time the connection succeeds and the connect callback - which already finds that connection as the underlying one - accepts it, it serves exactly one session (reporting connected meanwhile), then calls the connection-lost callback exactly once, and dials again only while auto-reconnect is enabled; without it, a failed dial or a lost connection ends the server. Failed dials or refused connect callbacks are retried no sooner than the configured interval, no connection it dialled is left open once abandoned, it never holds two connections, and starting it again while it runs does not start a second loop.",
  ["histories", "fault_sequences", "schedules"], "all sequences (to a depth) of dial outcome, connect-callback outcome, session end, over both auto-reconnect settings; interleavings of start/start/status calls",
  "No test uses the reverse server.",
  ["server_tcp_special.go", "server_tcp_session.go"], [("run loop", "server_tcp_special.go run")], [("status", "stopped / connecting / connected", "server_tcp_special.go")], ["dial and close events", "callbacks", "IsConnected/IsClosed"])

p("C25", "Reverse server: close always stops it, keep-alive only while connected",
  "A close at any moment after start returned - before the first dial, while dialling, waiting to retry, connecting or serving - makes the server stop for good: in bounded time its connection is closed, it reports closed, no further dial, callback or keep-alive happens, and no goroutine of it remains; it can then be started again. Keep-alive callbacks run only when enabled, periodically at the configured interval while connected and one at a time, and cease when the connection is lost. (Bounded time: the connect timeout, reconnect interval, read and write timeouts and two seconds together.)",
  ["schedules", "fault_sequences"], "all placements and interleavings (to a preemption bound) of close against the run loop; all phases of the connection",
  "No test uses the reverse server.",
  ["server_tcp_special.go", "server_tcp_session.go"], [("context cancellation", "server_tcp_special.go Close/run")], [("cancel", "stops the run loop", "server_tcp_special.go")], ["IsClosed", "dial/close events", "callbacks", "live goroutines"])

p("C26", "Reverse server answers its remote exactly as the listening server does",
  "On the connection it dialled, the reverse server answers every request stream - good, rejected, pipelined, segmented, malformed - with the same bytes and the same table changes as the listening server would, before and after reconnects. It dials precisely the configured remote (default host 127.0.0.1, default scheme tcp), with TLS and the configured TLS settings for the ssl, tls and tcps schemes and never in clear for those, and an unsupported scheme or missing address never connects anywhere.",
  ["inputs", "configurations", "histories"], "all request frames of a boundary alphabet in sequences over several connections; all address forms and schemes",
  "No test uses the reverse server.",
  ["server_tcp_special.go", "server_tcp_session.go"], [("shared session loop, address parsing", "server_tcp_special.go AddRemoteServer/openConnection")], None, ["bytes on the dialled connection", "dial target"])

p("C28", "Raw PDU and raw frame calls transmit exactly what is given, for every length",
  "Sending a raw PDU of 1 to 253 bytes puts exactly that PDU, correctly framed for the transport, on the wire and returns exactly the reply's PDU after the same checks as typed calls; any other length is refused without transmitting. Sending a raw frame transmits the bytes unchanged and returns the raw reply frame; no length or content of either makes the client panic.",
  ["inputs"], "all PDU lengths 0-300 and function codes 0-255, all raw frames of length 0-8 over a small alphabet, three transports",
  "No test calls the raw API on a real provider.",
  ["client_tcp.go", "client_rtu.go", "client_ascii.go"], [("SendPdu, Send, SendRawFrame", "client_*.go")], None, ["bytes on the wire", "results"])

p("C29", "End to end: what a client writes is what any client reads back",
  "Through the real client and the real server joined by a network, every sequence of reads, writes, mask writes and combined read/writes from one or more clients returns exactly what the register model predicts, for every unit and table, and fails with the device exception the model predicts when out of range. This holds for legal quantities up to the protocol maxima, whether or not the table starts at address zero.",
  ["histories", "inputs", "schedules"], "all call sequences to a depth over a small alphabet, all quantities at the protocol limits, interleavings of two clients to a preemption bound",
  "The end-to-end test reads ten coils once.",
  ["client.go", "client_tcp.go", "server_tcp.go", "server_tcp_session.go", "function.go", "register.go"], [("whole stack", "client.go to register.go")], None, ["results of client calls"])

p("C30", "Logging can be switched at any time and never changes behaviour",
  "Turning log output on or off, at construction or at any moment including while requests are in flight, changes nothing but the log: the bytes exchanged and results are identical and there is no data race. While logging is off nothing is emitted; while it is on, the configured log provider sees each frame sent and received.",
  ["configurations", "schedules"], "logging off / on / toggled between and during calls, for the three clients and both servers",
  "No test enables logging.",
  ["log.go", "client_tcp.go", "client_rtu.go", "client_ascii.go", "server_tcp_session.go"], [("logger gate", "log.go")], [("has", "output enabled flag", "log.go logger")], ["log provider calls", "bytes on the wire"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for e in P: f.write(json.dumps(e, ensure_ascii=False) + "\n")
print(len(P), "properties")
