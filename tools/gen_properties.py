#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so the long lines stay editable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    d["anchors"]["observe_at"] = observe or ["bytes on the net.Conn", "results of the public API"]
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Incoming messages are delivered exactly, in order",
  "For every valid sequence of masked client frames (any keys, payload lengths, fragmentation, empty fragments, control frames between fragments), however the transport splits the bytes and including bytes the client pipelined right behind its handshake request, the read API returns exactly the data messages that were sent: same type, same payload bytes, same order. The result does not depend on the read buffer size or on the size of the slices passed to a streaming Read. When the stream ends cleanly the next read reports an error and no further message.",
  ["inputs", "histories", "configurations"], "all valid frame sequences, masking keys, payload bytes and lengths, segmentations, read buffer sizes, read chunk sizes",
  "The tests read one 1-byte text frame; no fragmented, multi-frame, long-length or split input is ever read.",
  ["conn_read.go", "mask.go", "conn.go", "upgrader.go", "conn_utils.go"],
  [("frame parser", "conn_read.go acceptFrame"), ("streaming read / continuation", "conn_read.go ConnReader.Read"), ("unmasking with running position", "mask.go"), ("early-data reader", "upgrader.go brNetConn.Read, conn.go newConn")])
p("C02", "Malformed client frames are rejected, never delivered",
  "A client frame that breaks RFC 6455 framing (a reserved bit set, an undefined opcode, no mask, a fragmented control frame, a control frame over 125 bytes, a continuation with no message in progress, a new data frame inside a fragmented message, a 64-bit length with its top bit set) makes the read fail with a fatal error and the connection close with a close frame carrying 1002 (1009 for the 64-bit length). Messages completed before the bad frame are still delivered and the message the bad frame belongs to is never returned as complete.",
  ["inputs", "histories"], "all frame headers and all positions of the bad frame in a sequence",
  "No test sends a malformed header; the header space and its positions in a sequence cannot be listed by hand.",
  ["conn_read.go", "frame.go", "conn_write.go"],
  [("header validation", "conn_read.go acceptFrame"), ("sequence validation", "conn_read.go NextReader, ConnReader.Read")])
p("C03", "Message size and fragment limits are enforced exactly",
  "A message whose total payload exceeds MaxMessageSize is never delivered: the read fails fatally and the connection closes with code 1009; a message whose total is within the limit is delivered whatever its fragmentation, and MaxMessageSize -1 means no limit. With ReaderMaxFragments N > 0, a message of more than N frames is never delivered (the connection closes with 1008) and a message of at most N frames is; 0 means no limit.",
  ["inputs", "configurations"], "all declared frame lengths (7, 16 and 64 bit), fragmentations, and limits",
  "No test sets either limit; off-by-one and accumulation mistakes need exact boundary inputs.",
  ["conn_read.go", "options.go"],
  [("per-frame limit", "conn_read.go acceptFrame"), ("accumulated limit and fragment counter", "conn_read.go ConnReader.Read, NextReader")])
p("C04", "Whole-message text reads return valid UTF-8 only",
  "With UTF-8 validation enabled (the default), ReadMessage and ReadString never return a text message that is not valid UTF-8: they fail fatally and close with code 1007; every valid UTF-8 text message is returned unchanged, also when a code point is split across fragments, and binary messages are never validated. With SkipUTF8Validation every payload is returned unchanged.",
  ["inputs", "configurations"], "all payload byte strings and fragment boundaries",
  "The tests check a single invalid byte.",
  ["conn_read.go"], [("validation after reassembly", "conn_read.go ReadMessage")])
p("C05", "A cut or failing transport never yields a truncated message",
  "If the transport ends (EOF) or fails with any error at any byte of the client's stream, every message completed before that point is delivered and the incomplete one never is: whole-message reads and streaming reads return a fatal error instead of a normal end of message, and the connection is closed. Read deadlines that fail to be set are treated the same way.",
  ["crash_points", "fault_sequences", "inputs"], "all cut positions and error kinds in all short frame sequences",
  "The mock transport never fails and never stops mid-frame.",
  ["conn_read.go", "conn_utils.go"], [("error handling in every read step", "conn_read.go acceptFrame, ConnReader.Read; conn_utils.go nRead")])
p("C06", "Non-fatal read outcomes leave the stream in sync",
  "After any read outcome that does not close the connection (a type mismatch, a JSON decoding error, JSON followed by more data, a reader abandoned partway or never read, a rate-limited message) the next read starts exactly at the next message and returns it intact. No byte of a skipped or partly read message is ever interpreted as a frame header or delivered as part of another message.",
  ["inputs", "histories"], "all message contents, fragmentations and amounts left unread, followed by further messages",
  "No test abandons a message or reads two messages in a row.",
  ["conn_read.go", "conn_utils.go"], [("skip of the rest of the previous message", "conn_read.go NextReader, conn_utils.go skipRestOfMessage")])
p("C07", "Every ping is answered by one matching pong",
  "Each client ping is answered, in order and before the read that met it returns a later message, by exactly one pong frame carrying the identical payload (0 to 125 bytes), wherever the ping falls between or inside messages and whatever pings came before it. Pings and pongs are never shown to the application and an unsolicited pong has no effect on the data stream.",
  ["inputs", "histories", "configurations"], "all ping payloads, lengths and positions, sequences of pings and pongs, buffer sizes",
  "No test sends a ping or pong.",
  ["conn_write.go", "conn.go", "conn_read.go"], [("pong writer", "conn_write.go pong, writeControl"), ("pong handling", "conn.go handlePong")])
p("C08", "The client's close frame is answered and ends the connection",
  "A client close frame is answered by exactly one close frame: with status 1000 if it was empty, with the same code and reason if its code is valid and its reason is valid UTF-8, and with 1002 if it has a 1-byte payload, a code not allowed on the wire, or a reason that is not UTF-8. After it the transport is closed and the pending and every later read fails fatally, whatever bytes follow the close frame.",
  ["inputs", "histories"], "all close payloads (every code, reasons up to the limit), positions and trailing bytes",
  "No test receives a close frame.",
  ["conn.go", "conn_write.go", "frame.go"], [("close parsing", "conn.go handleClose"), ("code table", "frame.go isValidCloseCode"), ("close writer", "conn_write.go writeClose")])
p("C09", "Keep-alive pings: one outstanding, answered peers stay connected",
  "While a connection is open the server sends an empty ping every PingEvery unless one is still unanswered, so at most one ping is outstanding; a matching pong clears it (also when it arrives immediately) and extends the read deadline, and a pong with a different payload while a ping is outstanding closes the connection with 1002. Ping reports ErrPingAlreadySent exactly while a ping is outstanding. A peer that answers every ping is never disconnected by the keep-alive logic.",
  ["schedules", "histories"], "all orders of ping ticks, manual pings and pong arrivals",
  "The ping period in tests is never reached and no pong is sent.",
  ["conn.go", "conn_write.go"], [("ping loop", "conn.go pingLoop"), ("outstanding flag", "conn_write.go Ping, conn.go handlePong")])
p("C10", "Outgoing messages are framed correctly and losslessly",
  "For every message sent through SendMessage, SendBytes, SendString, SendJSON or a streaming writer (any split into Write and Flush calls), the bytes on the wire are one RFC 6455 message: unmasked frames with zero reserved bits and minimal length encoding, the first with the requested opcode, the rest continuations, FIN on the last only, and the concatenated payloads equal to the bytes written. This holds for every payload length and every WriteBufferSize, with pooling on or off, and invalid opcodes are refused without writing anything.",
  ["inputs", "histories", "configurations"], "all payloads and lengths, all Write/Flush splits, all write buffer sizes",
  "Tests only check returned counts; they never decode what was written.",
  ["conn_write.go", "frame.go", "options.go"], [("buffering and splitting", "conn_write.go Write, flush, Close"), ("header encoding", "frame.go writeHeaders")])
p("C11", "Concurrent senders never corrupt each other's frames or messages",
  "With any number of goroutines sending messages, streaming fragments, broadcasting, batching, pinging and closing on one connection, and the reader answering pings, the bytes on the wire always parse as whole frames in which the frames of a fragmented message are interrupted by nothing but control frames. Every send that reported success appears exactly once, complete and unmodified, and messages sent one after another by one goroutine appear in that order.",
  ["schedules"], "all interleavings of concurrent senders on one connection",
  "One test checks that a second NextWriter times out; no wire bytes are examined and no real interleaving is driven.",
  ["conn_write.go", "broadcast.go", "conn_utils.go", "conn_batcher.go"], [("message lock", "conn_write.go NextWriter"), ("frame lock", "conn_write.go flush, writeControl; broadcast.go writeToConn"), ("channel mutex", "conn_utils.go mu")])
p("C12", "Closing sends one close frame, last, and runs hooks once",
  "However many goroutines close a connection, with whatever codes, and whatever else is in flight, exactly one close frame is written, nothing is written after it, the transport is closed, and the disconnect hook runs exactly once. The close frame carries the first closer's code (1001 if that code may not appear on the wire) and its reason when that fits in 123 bytes, otherwise no reason. From then on reads and sends fail with a fatal error and never block.",
  ["schedules", "inputs"], "all concurrent closers, all codes and reasons, all interleavings with senders",
  "The tests close once with one code.",
  ["conn.go", "conn_write.go"], [("once-only close", "conn.go CloseWithCode"), ("final write with locks kept", "conn_write.go writeClose")])
p("C13", "A failed send never wedges the connection",
  "Whenever a send call (SendMessage, SendJSON, NextWriter/Write/Flush/Close) returns an error, either the error is fatal and the connection is closed, or the connection remains usable: a later send completes normally and the wire still carries only well-formed messages. In particular a JSON encoding error, or a context cancelled before or during a send, never leaves a lock held or a half-written message that a later message is mistaken for.",
  ["fault_sequences", "histories", "schedules"], "all failure points of a send: encoding errors, cancellation at each step, followed by further sends",
  "No test continues after a failed send.",
  ["conn_write.go"], [("writer release on error", "conn_write.go SendMessage, SendJSON, Close"), ("cancellable locks", "conn_utils.go lockCtx")])
p("C14", "Closing always completes and closes the transport",
  "If the transport fails at any write or deadline call (error or timeout), in any send, broadcast, ping, pong or close, the call returns, the connection becomes closed, the transport's Close is called and the disconnect hook runs. Closing never deadlocks, even while a message is being streamed, another goroutine is blocked sending, or the failure is met by the goroutine that holds the connection's locks.",
  ["fault_sequences", "schedules", "crash_points"], "a fault at every transport call of every operation, and close at every point of a concurrent send",
  "The mock transport never fails.",
  ["conn.go", "conn_write.go", "broadcast.go"], [("error paths that close", "conn_write.go flush, broadcast.go writeToConn"), ("close sequence", "conn.go CloseWithCode, conn_write.go writeClose")])
p("C15", "A closed connection leaves nothing running",
  "After a connection has been closed, for any reason and at any point of its life, every background goroutine the library started for it terminates and it is no longer referenced by the rate limiter or the batch flusher. This holds for plain, managed and room connections, with and without batching.",
  ["schedules", "histories"], "all close points and configurations",
  "Tests never look at goroutines after close.",
  ["conn.go", "broadcast.go", "flusher.go", "rate_limiter.go"], [("ping loop exit", "conn.go pingLoop"), ("broadcast listener exit", "broadcast.go broadcastListener"), ("deregistration on close", "conn.go CloseWithCode")],
  observe=["goroutines alive after close"])
p("C16", "Connections never affect each other's bytes",
  "No operation on one connection, including writing to or closing it during or after its close, ever changes the bytes another connection sends or receives, although write buffers are recycled between connections. In particular a send attempted on a closed connection fails and leaves every other connection's data intact.",
  ["histories", "schedules"], "all histories of two connections sharing the buffer pool, including sends racing with or following close",
  "Tests use one connection at a time.",
  ["conn.go", "conn_write.go", "upgrader.go"], [("buffer pool hand-over", "conn.go CloseWithCode, conn_write.go newWriter, NextWriter")])
p("C17", "Blocked senders are released by cancellation and by close",
  "At most one message writer is open at a time; a second sender waits until the first closes its writer. A waiting sender whose context is cancelled returns that context's error without sending anything and leaves the connection usable; when the connection closes every waiting sender returns a fatal connection-closed error.",
  ["schedules"], "all interleavings of two senders, cancellation and close",
  "One test covers a single timing of one timeout.",
  ["conn_utils.go", "conn_write.go"], [("context-aware lock", "conn_utils.go lockCtx, lock")])
p("C18", "The manager maps each key to its current live connection",
  "Get and GetAllConns return, for each key, exactly the most recently registered connection for it that has not been closed; registering an occupied key closes the previous connection, and the previous connection's cleanup never removes or reports its successor. OnRegister and OnUnregister run once per registered connection with that connection as argument, in that order, for every interleaving of connects, replacements and closes.",
  ["schedules", "histories"], "all histories and interleavings of register, replace and close over a small set of keys",
  "One test only checks that a ManagedConn stores its key.",
  ["manager.go", "conn.go"], [("register/replace", "manager.go Register"), ("cleanup on close", "manager.go unregister, conn.go newManagedConn")])
p("C19", "Room membership matches joins, leaves and closes",
  "A connection is in a room's member list exactly from being added until it is removed, moved, the room is emptied or closed, or the connection closes; a closed connection is in no room, also when it closes while being added or moved. OnJoin and OnLeave run exactly once per actual membership change (adding a member again or removing a non-member does nothing), and the arguments given when joining are passed to OnJoin and, on close, to OnLeave.",
  ["schedules", "histories"], "all histories of add, remove, move, remove-all, room close and connection close, with concurrent close",
  "Rooms have no tests.",
  ["rooms_manager.go", "conn.go"], [("membership map", "rooms_manager.go Add, Remove, RemoveAll, Move, Close"), ("cleanup callback", "rooms_manager.go Add, conn.go CloseWithCode")])
p("C20", "Shutdown closes every connection and terminates",
  "Shutting down a connection manager or a room manager returns after closing every registered connection (normal closure for the connection manager, going-away for the room manager), running each one's cleanup hooks, and leaves no connection or room registered. It terminates for any number of connections and also when connections are closing at the same time.",
  ["schedules", "histories"], "all registry sizes up to the bound and concurrent closes",
  "Shutdown has no tests.",
  ["manager.go", "rooms_manager.go"], [("manager shutdown", "manager.go Shutdown"), ("room manager shutdown", "rooms_manager.go Shutdown")])
p("C21", "Broadcasts reach exactly the intended connections, once, intact",
  "A broadcast to a manager or room with room in every queue sends to each current member that is not excluded exactly one unfragmented message with the given type and the payload as it was at the time of the call, and nothing to anyone else; successive broadcasts by one caller arrive in order and each returns the number of connections it was queued for. Non-data opcodes are never broadcast and the payload length encoding is correct for every length.",
  ["inputs", "histories", "schedules"], "all payloads, lengths, member and exclusion sets, and delivery interleavings",
  "Broadcasting has no tests.",
  ["broadcast.go", "manager.go", "rooms_manager.go"], [("frame built once", "broadcast.go broadcast"), ("queue per connection", "broadcast.go broadcastListener, conn.go enableBroadcasting"), ("member selection", "manager.go GetAllConnsAsConn, rooms_manager.go GetAllConns")])
p("C22", "Broadcast backpressure does what is configured and never hangs",
  "When a member's broadcast queue is full, Drop skips that member and keeps it connected, Close disconnects only that member (code 1008) and still serves the others, and Wait blocks only until there is room, the context is done, or that connection closes. A broadcast never blocks forever because of a closed or closing connection or one that is just being registered, and the returned count never includes a connection the message was not queued for.",
  ["schedules", "configurations", "histories"], "all strategies, queue occupancies, and interleavings with delivery, cancellation, registration and close",
  "Backpressure has no tests.",
  ["broadcast.go", "conn.go", "manager.go"], [("strategy switch", "broadcast.go broadcast, batchBroadcast"), ("queue creation", "conn.go enableBroadcasting, manager.go Register")])
p("C23", "Batches encode exactly the messages they contain",
  "A flushed batch is sent as one binary message that decodes to exactly the batched payloads in order: with JSON batching '[' elements separated by ',' ']' and with length-prefix batching a 4-byte big-endian length before each payload, with the optional prefix first and the optional suffix last as extra elements. The encoding is independent of the write buffer size; with a custom strategy the send function receives exactly the messages in order.",
  ["inputs", "configurations"], "all message contents and counts, prefix/suffix presence, buffer sizes",
  "Batching has no tests.",
  ["conn_batcher.go", "flusher.go"], [("encoders", "conn_batcher.go jsonArrayEncoder, lengthPrefixEncoder, sendWrapper")])
p("C24", "Accepted batch messages are sent exactly once, in order, in bounds",
  "Every message accepted by Batch or BatchJSON, or queued by a batch broadcast while the flusher stays open, on a connection that stays open is sent exactly once, and messages accepted one after another are sent in that order, for every interleaving of batching, size-triggered flushes, timer flushes and flusher close. A batch's total payload never exceeds MaxBatchSize unless it consists of a single larger message.",
  ["schedules", "histories"], "all interleavings of producers, size and timer flushes",
  "Batching has no tests.",
  ["conn_batcher.go", "flusher.go"], [("batch accumulation", "conn_batcher.go Batch, flush, send"), ("timer flush", "flusher.go listener, flushAll")])
p("C25", "Flusher lifecycle: timely flush, drain on close, refusal afterwards",
  "A pending batch is sent at the latest one flush interval after its first message; closing the flusher sends what is pending and then stops its goroutine, cancelling its context stops it without sending, and both are safe to repeat and to race with connections coming and going. Batch returns an error, and queues nothing, when batching is not enabled, the flusher is closed or cancelled, or the connection is closed.",
  ["schedules", "histories"], "all orders of batch, tick, close, cancel, connect and disconnect",
  "Batching has no tests.",
  ["flusher.go", "conn_batcher.go", "conn.go"], [("listener loop", "flusher.go listener"), ("registration", "conn_batcher.go newBatch")])
p("C26", "Rate limiting admits at most the configured number of messages",
  "With a rate limiter of mps and burst, each connection's delivered messages never exceed burst plus mps per elapsed second, and a message is delivered whenever its own connection's allowance permits; every data message counts once whatever its fragmentation, control frames never count, and connections do not share allowance. A limited message is skipped whole, the configured hook runs once for it, a nil hook result keeps the connection usable and in sync, and a non-nil hook result is returned as a fatal error.",
  ["inputs", "histories"], "all message/control sequences, fragmentations, and arrival times within the bound",
  "The rate limiter has no tests.",
  ["rate_limiter.go", "conn_utils.go", "conn_read.go"], [("per-message check", "conn_read.go NextReader, conn_utils.go allow"), ("token bucket per connection", "rate_limiter.go")])
p("C27", "The handshake accepts exactly valid upgrade requests",
  "Upgrade succeeds only for a GET request whose Upgrade header lists websocket, Connection lists upgrade, version is 13 and key is base64 of 16 bytes (names matched without regard to case and surrounding blanks), and then writes one 101 response whose Sec-WebSocket-Accept is base64(SHA-1(key + GUID)). Every other request is refused with exactly one HTTP error response, an error, and no hijack of the connection.",
  ["inputs"], "all methods and header values within the length bound",
  "The handshake has no tests.",
  ["upgrader.go"], [("header validators", "upgrader.go validate*"), ("response", "upgrader.go Upgrade")])
p("C28", "Subprotocol negotiation follows the client's preference",
  "The negotiated subprotocol is the first protocol in the client's list that the server supports, and it is the one stored on the connection and named in the response; if none matches, the connection has none and no protocol header is sent. With RejectRaw set, a request without a matching protocol is refused with 400 and never hijacked.",
  ["inputs", "configurations"], "all client lists and server lists within the bound",
  "The handshake has no tests.",
  ["upgrader.go"], [("selection", "upgrader.go selectSubProtocol")])
p("C29", "Middlewares and connect hook run in order around the handshake",
  "Middlewares run in registration order, only after the request has passed validation and before anything is hijacked; the first one that fails stops the handshake with its own status code and message (400 for a plain error), and no later middleware, hijack or connect hook runs. The connect hook runs exactly once per successful upgrade, after the 101 response has been written completely, with the connection that is returned; a failed response write returns an error, closes the transport and runs no connect hook.",
  ["inputs", "fault_sequences", "configurations"], "all middleware outcomes and hijack/write failures",
  "The handshake has no tests.",
  ["upgrader.go", "options.go"], [("middleware loop", "upgrader.go Upgrade"), ("hook", "upgrader.go Upgrade")])
p("C30", "Fatal errors mean closed, other errors mean still usable",
  "When a read or send method of a connection returns an error for which IsFatalErr is true, that connection is closed; when a call on an open connection returns any other error, the call has not closed the connection and a further valid operation succeeds. A nil error from a send means all of its frames were handed to the transport.",
  ["inputs", "fault_sequences"], "all outcomes of the read and send API under arbitrary input, cancellation and transport faults (rate-limit hooks, which decide fatality themselves, excepted)",
  "Tests look at fatality for one error only.",
  ["errors.go", "conn_read.go", "conn_write.go"], [("error wrapping", "errors.go fatal and its call sites")])
p("C31", "A dead peer cannot hold the connection forever",
  "Every write the library makes to the transport is made under a write deadline no later than WriteWait after it starts, and waiting for a message is always under a read deadline no later than ReadWait after the wait began or after the last matching pong. A deadline that expires closes the connection, so a peer that stops reading or goes silent is disconnected within those bounds.",
  ["histories", "fault_sequences"], "all sequences of reads, sends, pings and pongs over time",
  "The mock transport ignores deadlines.",
  ["conn_write.go", "conn_read.go", "broadcast.go", "conn.go"], [("write deadline", "conn_write.go flush, writeControl, writeClose; broadcast.go writeToConn"), ("read deadline", "conn_read.go NextReader, conn.go handlePong")],
  observe=["deadlines set on the net.Conn"])
p("C32", "Documented-safe concurrent use is free of data races",
  "Programs that follow the documented concurrency rules (one reader, any number of senders, broadcasters, pingers and closers) never cause unsynchronised conflicting accesses to the library's memory, including between the library's own goroutines. This holds from the moment a connection is created until after it is closed.",
  ["schedules"], "all interleavings, within the bound, of a reader, senders, the keep-alive, broadcasts, batching and close",
  "The suite is run without the race detector and starts almost no concurrent activity.",
  ["conn.go", "conn_write.go", "conn_batcher.go", "flusher.go", "manager.go", "rooms_manager.go"], [("locks and atomics around shared connection state", "conn_utils.go mu, conn.go, conn_write.go")],
  observe=["memory accesses of the library's goroutines"])
p("C33", "Hooks can use the library without deadlock",
  "Any hook or callback (connect, disconnect, register, unregister, join, leave, rate limit, batch prefix, suffix and custom send) may itself call the library: send on, ping, batch on and close connections, broadcast to managers and rooms, connect others, and create, join, leave, move between, empty and close rooms. Every such call returns and has its usual effect, the call that ran the hook completes, and what it was doing is not lost or repeated.",
  ["histories", "schedules"], "all pairs of a hook and a call made from it, within the schedule bound",
  "The tests install no hook that calls back into the library.",
  ["conn.go", "manager.go", "rooms_manager.go", "conn_batcher.go", "conn_read.go", "upgrader.go"],
  [("hooks run outside the locks", "rooms_manager.go Add, Remove, RemoveAll; manager.go register; conn.go CloseWithCode"), ("batch callbacks before the writer is taken", "conn_batcher.go sendWrapper"), ("rate limit hook", "conn_utils.go allow")],
  observe=["results of the public API", "bytes on the net.Conn"])
p("C34", "Unset options behave as their documented defaults",
  "Each option left at its zero value, alone or together with any others, takes its documented default and no set option is changed: WriteWait 5 s, ReadWait 60 s, PingEvery 50 s, MaxMessageSize and MaxBatchSize 1 MiB, 8 queued broadcasts per connection with the Drop strategy, a batch flush interval of 50 ms. NewUpgrader(nil) is the same as all options unset. The values in force are visible in the deadlines, ping times, limits and queue lengths of every connection.",
  ["configurations"], "all combinations of options set and unset within the listed values",
  "The tests use one fixed configuration and never wait for a default to take effect.",
  ["options.go", "upgrader.go", "conn.go", "conn_write.go", "conn_read.go", "broadcast.go", "flusher.go"],
  [("defaults", "options.go WithDefault"), ("flush interval default", "flusher.go newFlusher")],
  observe=["deadlines set on the net.Conn", "bytes on the net.Conn and when they are written"])
p("C35", "A room key stands for one room from creation to close",
  "Adding or connecting to a key returns the room that exists for it, and otherwise creates one; Get returns exactly that room until it is closed and nil afterwards, GetRoomKeys lists each existing room's key once, and different keys never share a room. Closing a room makes its members leave without closing their connections, and closing it again, or after its key was given a new room, changes nothing. A failed handshake creates no room.",
  ["histories", "schedules"], "all sequences and interleavings, within the bound, of creations, connects, moves, closes and lookups",
  "The tests create one room and never close or re-create one.",
  ["rooms_manager.go"], [("room table", "rooms_manager.go RoomManager.Add, Get, GetRoomKeys, Connect, Room.Close")],
  observe=["results of the public API", "hook calls"])
p("C36", "Slices given and returned stay the caller's",
  "No call changes memory the caller passed in, including the spare capacity behind it. Once a send, write or broadcast has returned, the caller may overwrite its slice and every recipient still gets the bytes passed. A message returned by a read never changes afterwards, and overwriting it, or appending to it, changes nothing else. Lists of members and room keys are snapshots: overwriting one affects no later call, and later changes of membership do not affect it. (Batch and BatchBroadcast keep the slice until the flush and are not meant here.)",
  ["inputs", "histories"], "all payloads, call orders and timings within the bound",
  "The tests pass fresh slices and compare a result once, right after the call.",
  ["conn_write.go", "conn_read.go", "broadcast.go", "manager.go", "rooms_manager.go", "mask.go"],
  [("payload copied into a frame", "broadcast.go broadcast"), ("result buffer", "conn_read.go ReadMessage"), ("snapshots", "manager.go GetAllConns, rooms_manager.go GetAllConns, GetRoomKeys")],
  observe=["memory of the caller", "bytes on the net.Conn", "results of the public API"])
p("C37", "A client's bytes neither crash the server nor cost more than was sent",
  "No sequence of bytes from a client makes the library panic or a read never return once the stream has ended. A length merely announced in a frame header causes no allocation of that size: what is allocated is in proportion to the bytes received. Not more bytes are delivered than were received, a message cut off is never reported as complete, and frames received, answered or not, leave no goroutines behind.",
  ["inputs", "faults"], "all byte streams and announced lengths within the bound",
  "The tests send small well-formed frames.",
  ["conn_read.go", "conn_utils.go", "conn.go", "mask.go"], [("frame header", "conn_read.go acceptFrame"), ("message into memory", "conn_read.go ReadMessage"), ("control payload", "conn_utils.go nRead")],
  observe=["panics", "bytes allocated", "goroutines", "results of the read API"])
p("C38", "Nil, empty, zero and unknown arguments have their plain meaning",
  "A nil context behaves exactly like one that never ends, in every call that takes one. Nil options, upgraders and hooks mean the defaults or nothing. Empty payloads are sent, queued and received as empty messages. Unknown keys, strangers, non-members and empty groups are looked up, excluded, removed, moved, broadcast to and shut down as no-ops with a zero result. Without a flusher every batching call returns ErrBatchingUninitialized. GetArg with an index outside the arguments, negative included, or a different type gives the zero value and false.",
  ["inputs", "configurations"], "all listed calls with all combinations of such arguments, connection states and configurations",
  "The tests pass ordinary arguments.",
  ["conn_write.go", "broadcast.go", "manager.go", "rooms_manager.go", "flusher.go", "options.go", "errors.go", "conn_utils.go"],
  [("nil context", "conn_utils.go mu.lockCtx"), ("default upgrader", "manager.go NewManager, rooms_manager.go NewRoomManager"), ("arguments of hooks", "rooms_manager.go GetArg")],
  observe=["results of the public API", "bytes on the net.Conn", "hook calls"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
