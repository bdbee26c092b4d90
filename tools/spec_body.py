P("C01",
  H("C01JSONBig", "JSON values of 6 (thorough 16) lengths to 70000 (thorough 200000) bytes, in 1-3 frames, 2 read buffers"),
  H("C01Soak", "300 (thorough 600) messages over one connection, whole and fragmented, pings between, one symbolic byte in each tenth, 4 ways to read"),
  H("C01Frag", "2 messages, 1-3 (second: 1-2) frames of 0/1/6 bytes, a ping/pong/none between frames and messages; opcodes, keys, payload bytes symbolic; then EOF"),
  H("C01Stream", "1-2 frames of up to 17 bytes + a second message, streaming Read with 5 slice-size patterns, transport segments of 1/2/7/all bytes; keys and payload symbolic"),
  H("C01Split", "3 frames + control frame, the stream split into two transport reads at every position (up to 160)"),
  H("C01Len", "frame lengths around the 7/16-bit and unmasking block boundaries up to 517 (thorough: every length 0-699), optional first fragment shifting the mask, whole or streaming reads"),
  H("C01Big", "lengths 65534-65537 (16/64-bit boundary), 5 symbolic bytes, rest a pattern"),
  H("C01BigRead", "messages of 4096-9001 bytes (4 symbolic, rest a pattern) in two frames, 6 slice sizes of 1001-20000, 3 read buffer and 3 segment sizes"),
  H("C01Early", "every split of up to 50 pipelined bytes between the HTTP server's buffer and the transport, 8 read buffer sizes, 2 HTTP buffer sizes"),
  H("C01Buf", "15 read buffer sizes 0-256, 5 buffer sizes of the HTTP server down to 16 bytes, a control frame of up to 125 bytes, messages up to 130 bytes"),
  outside=["Messages of more than 3 frames; payloads over 65537 bytes."])
P("C02",
  H("C02Header", "both header bytes, all extended-length bytes and the key symbolic, in 5 reader states (fresh, after a message, inside a fragmented message for whole, streaming and rate-limit-skipping reads)"),
  H("C02Cont", "any first header byte where a continuation is due, after 1-2 fragments and an optional control frame, read whole, typed, streamed or abandoned"))
P("C03",
  H("C03Len", "announced length any 7, 16 or 64-bit value, limits 1,5,125,126,300"),
  H("C03Second", "announced length of a second frame any 7, 16 or 64-bit value after a first of 0-3 bytes, limits 5, 2^20, 2^32+2"),
  H("C03Total", "1-4 fragments of 0-5 bytes against limit 4, control frames between, read whole or streamed"),
  H("C03Default", "default limit (nil options, or other limits set): any 64-bit length of at least 2^16 announced in one frame or after one of 7 bytes"),
  H("C03Big", "messages of 2, 3 or 20 frames whose sum is one less than, exactly, or one more than a limit of 300 or 70000 (thorough also 140000, 2^20 and none), whole or streamed"),
  H("C03Frames", "ReaderMaxFragments 0-3, messages of 1-5 frames after an earlier message"),
  H("C03None", "MaxMessageSize -1, two fragments up to 400 bytes"),
  H("C03Pos", "limit reached exactly, followed by empty fragments"))
P("C04",
  H("C04Text", "every payload of 0-4 symbolic bytes (thorough: 0-8), every split into two fragments, control frame between, text and binary, ReadMessage/ReadString/ReadBinary, validation on and off; the oracle is unicode/utf8.Valid executed symbolically"),
  H("C04Big", "texts of 515-66000 bytes in 1-2 frames, one symbolic byte and a multi-byte or invalid sequence at 12 places"),
  H("C04Long", "text of 8, 9, 17 (thorough also 15, 16, 33) bytes with 3 symbolic bytes at 5 places, in 1-4 fragments incl. empty ones"))
P("C05",
  H("C05Cut", "stream of two messages (fragmented, control frame inside) possibly with an empty last frame, cut at every byte by EOF or reset, read whole, typed, JSON or streamed"),
  H("C05Partial", "cuts inside streaming reads with small slices"),
  H("C05Deadline", "read deadline that cannot be set (k-th call) or that expires at any point"),
  H("C05Local", "a message cut at every byte and read in 5 ways when the connection is closed locally (2 ways) or by a failing or stalled send; 1 (thorough 2) schedule deviations"))
P("C06",
  H("C06Sync", "10 non-fatal outcomes x 1-3 frames x cut kinds x control frames, next message of 0/3 symbolic bytes, possibly fragmented"),
  H("C06Long", "a message of 2, 20 or 70 (thorough 350) frames, 5 ways of not reading it to its end, symbolic mask key and next message, pings between"),
  H("C06Two", "2 (thorough 3) abandoned messages in a row, 1-2 frames each, symbolic bytes, partial reads of 0-2 bytes"))
P("C07",
  H("C07Seq", "sequences of pings/pongs with symbolic payloads between and inside messages"),
  H("C07Len", "every ping length 0-125 after a ping of another length"),
  H("C07Limits", "control frames of up to 125 bytes under tight MaxMessageSize / ReaderMaxFragments, 3 read buffer and 5 HTTP buffer sizes"),
  H("C07Race", "two pings arriving while the server pings, sends or streams over a fast or slow transport; 1 (thorough 2) schedule deviations"),
  H("C07Busy", "pings while a message is being streamed"))
P("C08",
  H("C08Close", "close frame of 0-5 symbolic bytes (code and reason), in several reader states; reply, teardown and hook"))
P("C10",
  H("C10JSONBig", "JSON values of 6 (thorough 16) lengths to 70000 (thorough 200000) bytes, sent or broadcast twice, 2 write buffers"),
  H("C10Soak", "300 (thorough 600) messages by all send APIs, one symbolic byte in each tenth, 2 write buffer sizes, pooled or not"),
  H("C10Send", "write buffer sizes 1..141 (thorough 13 sizes up to 300), two messages of up to 127 (260) symbolic bytes, SendMessage/SendBytes/SendString, pooled or not, HTTP buffer of another or the same size"),
  H("C10Stream", "up to 4 Write/Flush steps of 0-6 symbolic bytes, 4 buffer sizes, then Close"),
  H("C10JSON", "two JSON values over 3 buffer sizes"),
  H("C10Op", "every opcode byte"),
  H("C10Big", "payloads of 65535-65537 bytes over buffers that put them in one frame or in many"),
  H("C10Many", "messages of 255-520 frames of one byte, one call or streamed"),
  H("C10Len", "every payload length 0-385 in one frame (quick: around the boundaries)"))
P("C17",
  H("C17Wait", "one waiter (3 APIs) x release by close of the writer, cancellation, deadline, connection close; up to 2 schedule deviations"),
  H("C17Many", "3 waiters, one cancelled, then drain or close; up to 2 schedule deviations"),
  H("C17Free", "two senders (4 APIs) come for a free writer over a 3 s slow transport, the waiting one cancelled, timed out or not; 2 schedule deviations"), conc=True)
P("C26",
  H("C26Turn", "6 (thorough 8) steps of connections coming, leaving and using up their allowance of 1-3"),
  H("C26Soak", "300 messages at 3 paces against 4 allowances"),
  H("C26Many", "100 (thorough 300) connections, some closed, each with its own allowance"),
  H("C26Seq", "with and without a hook: 5 messages with gaps from {0,150ms,600ms,2.5s}, mps 0/1/2/5, burst 0/1/2/3, against a reference token bucket; a second connection"),
  H("C26Hook", "hook returning an error, with and without closing"),
  H("C26Skip", "limited message of 1-3 frames up to 300 bytes, next message intact"),
  H("C26Control", "control frames of symbolic kind around and inside messages"))

P("C09",
  H("C09Soak", "280 (thorough 580) ping periods with answers after 0, 1 and 9.999 s"),
  H("C09Peer", "an idle connection over several PingEvery periods; peers answering at once, late (up to 24 s), not at all, with a wrong payload or with unsolicited pongs; manual pings between"),
  H("C09Ping", "sequences of Ping calls and pongs of 0-125 symbolic bytes and pings of the peer against the outstanding-ping model"),
  H("C09Race", "concurrent pingers with a peer that answers from inside the write; up to 2 schedule deviations"), conc=True)
P("C11",
  H("C11Two", "every pair of 10 programs (2 sends, fragmented stream, 2 broadcasts, ping, reader answering pings, JSON, close, 2 batches, cancelled send, peer close), symbolic payloads, write buffer 20; up to 2 schedule deviations (thorough 3)"),
  H("C11Three", "triples of the same programs; schedules with 1 (thorough 2) deviations or as the harness states"), conc=True,
  outside=["More than three concurrent programs."])
P("C12",
  H("C12Code", "every close code of a 16-bit symbolic value, reason lengths around 123, writer idle / open / flushed"),
  H("C12Many", "2-3 concurrent closers (Close, CloseWithCode, peer close, EOF, ping timeout, backpressure) with a send or stream in flight"), conc=True)
P("C13",
  H("C13Fail", "every way a send fails short of the transport (bad opcode, JSON error, context done before / while waiting / between frames, misuse of the writer), then a further send on 2 buffer sizes"), conc=True)
P("C14",
  H("C14Op", "write failure (0, 1 or all bytes accepted), stall, or deadline failure at the 1st-3rd call, in every send, stream, ping, pong, broadcast, batch and close"),
  H("C14Close", "closers while a writer is open, blocked in the transport or waited for, with and without faults"),
  H("C14Hook", "closing (directly, twice, or waiting for another goroutine to close) from inside each of 11 hooks: rate limit, connect, disconnect, register, unregister, join, leave, RemoveAll, batch prefix, batch suffix, custom send; the disconnect, unregister and leave hooks also after a protocol error, peer close, EOF, oversized message or failed send; 1 schedule deviation"), conc=True)
P("C15",
  H("C15Soak", "120 (thorough 300) connections opened and closed in 4 ways, in a manager and 4 rooms, with limiter and batching"),
  H("C15Leak", "plain, managed and room connections with and without batching and limiter, closed for 6 reasons at several points; goroutine count and reachability from the upgrader, limiter, flusher and manager"),
  H("C15Limit", "close racing with rated reads, broadcasts, batches, room joins and registration; 1 (thorough 2) schedule deviations"),
  H("C15Swap", "batching re-enabled, flusher closed or detached while two connections are open, then both close"),
  H("C15Handshake", "handshakes whose response cannot be written"), conc=True,
  assume=["A connection counts as released when it is not reachable by pointers from the upgrader, its limiter or its flusher."])
P("C16",
  H("C16Pool", "three connections sharing one pool; the first closed in 5 writer states and misused in 7 ways (also concurrently with the close) while the others send and receive symbolic bytes"),
  H("C16Race", "3 (thorough 6) kinds of sends at any point of a close (by call, failure or EOF) while a new connection takes over and fills the buffer; 2 (thorough 3) schedule deviations"), conc=True)
P("C18",
  H("C18Soak", "40 (thorough 100) keys, a third replaced, a third closed, some reconnected, a broadcast with many exclusions, Shutdown"),
  H("C18Seq", "every sequence of 4 (thorough 5) connects, replacements, closes, peer EOFs and re-registrations on two keys"),
  H("C18Manual", "every sequence of 3 (thorough 4) hand-made registrations, connects, closes and registrations under a second key, two keys, then Shutdown"),
  H("C18Race", "6 shapes of concurrent connects, replacements and closes of one key, 3 kinds of hooks; 1-2 schedule deviations"), conc=True,
  outside=["One ManagedConn registered under two keys."])
P("C19",
  H("C19Seq", "every sequence of 4 (thorough 5) adds, removes, moves (to another, the same, a missing room), RemoveAll, room closes, connection closes and re-creations over 2 rooms and 2 connections"),
  H("C19Rejoin", "leave hooks that put one or all of 1-3 members back, directly or from another goroutine, during RemoveAll, Remove, Move to the same room or a close; every map order"),
  H("C19Args", "0-3 arguments of 5 kinds, GetArg of 4 types at 5 indexes in join and leave hooks, 3 ways to join and leave"),
  H("C19Two", "4 operations over rooms with equal keys in two managers, joined by one connection"),
  H("C19Race", "every pair (thorough triple) of 9 operations on one connection and two rooms, from 3 initial memberships, with hooks that use the rooms; 1 (thorough 2) schedule deviations"),
  H("C19Rooms", "every pair (thorough triple) of creating, connecting to, joining, closing and looking up a room under one new or existing key; 1 (thorough 2) schedule deviations"),
  H("C19Connect", "the room manager's Connect with a connection closed from its connect hook"), conc=True,
  outside=["Operations on a Room after its Close."])
P("C20",
  H("C20Manager", "0, 1, 2, 7 (thorough also 3, 13) connections, 3 kinds of hooks, a concurrent close, peer EOF, non-reading peer or second Shutdown"),
  H("C20Rooms", "0, 1, 2, 6 (thorough also 3, 12) connections in 2 rooms, 3 kinds of hooks, a concurrent close, removal, non-reading peer or second Shutdown"), conc=True,
  outside=["Hooks that call Shutdown themselves."])
P("C21",
  H("C10JSONBig", "JSON values of 6 (thorough 16) lengths to 70000 (thorough 200000) bytes, sent or broadcast twice, 2 write buffers"),
  H("C21Many", "12 broadcasts with up to 20 exclusions to a manager or room of 40 (thorough 100), members leaving, all strategies, RemoveAll or Shutdown at the end"),
  H("C21Bcast", "2 successive broadcasts (string, bytes, JSON) of 0/3/30 symbolic bytes with every exclusion, to a manager of 3 or a room of 2, one member possibly gone"),
  H("C21Len", "payload lengths around 125/126, 255/256, 65535/65536"),
  H("C21Cancel", "a broadcast whose context ends before, while or after it waits in the queue of an idle, sending or slow member, then two more broadcasts; 1 schedule deviation"),
  H("C21Busy", "3 broadcasts while the member streams a fragmented message; 2 schedule deviations"), conc=True)
P("C22",
  H("C22Full", "queue sizes 1-2, all strategies, with and without batching, manager or room, released by room, cancellation, close or peer EOF"),
  H("C22Batch", "the same for batch broadcasts and queues holding both kinds"),
  H("C22Race", "4 shapes of broadcasts racing with closes, newcomers, replacement and transport failure, all strategies; 1 (thorough 2) schedule deviations"), conc=True)
P("C23",
  H("C23JSONBig", "JSON values of 6 (thorough 16) lengths to 70000 (thorough 200000) bytes, batched or batch broadcast twice, 2 strategies"),
  H("C23Enc", "1-3 messages of 0/1/6 symbolic bytes, then a second batch; prefix and suffix absent, nil or symbolic; 5 (thorough 10) write buffer sizes"),
  H("C23Two", "batches of two connections written at the same time"),
  H("C23Len", "payload lengths around 128, 256, 65536 (thorough to 131072), prefix and suffix of 0, 255-256, 300-301, 70000-70001 bytes"),
  H("C23JSON", "BatchJSON and JSON batch broadcasts of 4 kinds of values, and of a value that cannot be encoded"),
  H("C23Custom", "custom send function, succeeding or failing"))
P("C24",
  H("C23JSONBig", "JSON values of 6 (thorough 16) lengths to 70000 (thorough 200000) bytes, batched or batch broadcast twice, 2 strategies"),
  H("C24Many", "120 (thorough 300) messages in one batch or in many, 3 strategies, 2 write buffers, 3 limits, fast or slow peer, flusher closed at the end or not"),
  H("C24Race", "1-2 batchers of up to 4 messages, size flushes (limit 3 or 6), the timer firing at any point, flusher close, batch broadcasts, slow sends; 1-2 (thorough 2-3) schedule deviations"),
  H("C24Err", "a custom send function failing on any of its first two batches, three rounds of 1-3 messages with size and timer flushes, fast or slow; 1 schedule deviation"),
  H("C24Size", "every sequence of 4 (thorough 5) lengths from {0,1,2,4,5,6,11} against MaxBatchSize 5"),
  H("C24Bcast", "2 batch broadcasts with every exclusion to a manager or room, one member possibly gone"), conc=True)
P("C25",
  H("C25Turn", "4 (thorough 6) steps in which connections come, go and are replaced, with or without a tick after each; every open one is flushed in time"),
  H("C25Timely", "4 flush intervals, 3 strategies, messages at 4 phases against the tick"),
  H("C25End", "close, cancel, both and repeated, racing with a second close, a connection's close, a new connection, one that closes at once; 1 (thorough 2) schedule deviations"),
  H("C25Drain", "0-2 messages on 2 connections, slow transport, a message batched while the flusher closes"),
  H("C25Closed", "one message (3 APIs) against one flusher close; 2 (thorough 3) schedule deviations"),
  H("C25Refuse", "Batch, BatchJSON and batch broadcasts with no flusher, after close, cancel, connection close or re-enabling"), conc=True)
P("C27",
  H("C27Headers", "every pair of 23 Upgrade, 20 Connection, 14 Version and 17 Key header variants (missing, lists, several lines, case, blanks, near misses)"),
  H("C27Method", "every method of 1-4 symbolic bytes"),
  H("C27Bytes", "any two ASCII characters of the Upgrade, Connection or Version value replaced by symbolic ones, alone or inside a list"),
  H("C27Key", "any two characters of the key symbolic (7x4 positions, thorough 24x6)"),
  H("C27Accept", "keys with 0-2 symbolic characters: the 101 response and its accept value"),
  H("C27Known", "accept values computed outside"),
  H("C27Hijack", "refusals through Upgrade and both managers' Connect, including a failing hijack"),
  outside=["Blanks around Sec-WebSocket-Key and line breaks inside it; non-ASCII letters that fold to ASCII ones; several Sec-WebSocket-Version or -Key lines."])
P("C28",
  H("C28Pick", "up to 3 client protocols with symbolic characters, 4 separators incl. several lines, 5 server lists, RejectRaw on and off"),
  H("C28Lists", "12 client lists of real names (repetition, case, prefixes, blanks, empty elements) x 5 server lists x RejectRaw"))
P("C29",
  H("C29Order", "0-3 middlewares passing or failing with status 400, 401, 503, 599, 302 or 200, hook or not, invalid request, RejectRaw, failing hijack, failing, partial or timed-out response write, failing deadline, through Upgrade and both managers"),
  outside=["Middlewares that write a response themselves."])
P("C30",
  H("C30Seq", "sequences of reads, sends, streams, pings and JSON with valid and invalid arguments and input, with a transport fault, partial write or EOF inside a frame at a symbolic point; every result judged against the state"),
  H("C30Limit", "a rate-limited message of 1-2 frames, whole or cut at every byte by the end of the stream, 4 kinds of hooks, 4 read APIs"),
  H("C30Slow", "3 concurrent operations over a transport on which each write takes 3 or 4.9 s of 5 s WriteWait; two schedules"), conc=True,
  outside=["Calls with invalid arguments on, and writers left over from, a connection that is already closed."])
P("C31",
  H("C31Write", "the deadline in force at every write of every operation, also after waiting for the lock or an earlier write"),
  H("C31Stall", "a peer that stops reading at any of the first writes, in every operation"),
  H("C31Silent", "a peer silent from any point or sending byte by byte"), conc=True)
P("C32",
  H("C32Pair", "every ordered pair of 28 programs, with and without hooks, over a manager, two rooms, limiter and flusher, happens-before race detection on every memory access of library code; selected pairs (thorough: all) also with 1 (2) schedule deviations"),
  H("C32Three", "every triple of the programs in the default schedule (thorough: 1 deviation)"),
  H("C32Fail", "pairs with 4 transport faults"), conc=True,
  assume=["Accesses inside sync, sync/atomic, context, time and the transport are taken as synchronised the way their documentation says."])
P("C33",
  H("C33Call", "every pair of 15 hooks (connect, disconnect, register, unregister by close and by replacement, join, leave by removal, move, RemoveAll, room close and connection close, rate limit, batch prefix, suffix and custom send) and 16 calls made from them; 1 (thorough 2) schedule deviations"), conc=True,
  outside=["Shutdown called from a hook; a hook that closes its own connection is part of C14."])
P("C34",
  H("C34Wait", "4 values each of WriteWait, ReadWait and PingEvery, unset included, or nil options: deadlines in force, ping times, disconnection time"),
  H("C34Frags", "messages of 1, 65 or 130 (thorough 1040) frames, ReaderMaxFragments unset or just enough"),
  H("C34Text", "2 symbolic bytes of text under 8 settings of other options, SkipUTF8Validation set or not"),
  H("C34Queue", "BroadcastChannelsSize unset or 1-3, default strategy, against a peer that stops reading"),
  H("C34Batch", "MaxBatchSize and flush interval unset or set, 3 strategies, 4 values of MaxMessageSize, batches of exactly and one more than the limit"),
  H("C03Default", "default MaxMessageSize: any 64-bit length of at least 2^16 announced in one frame or after one of 7 bytes"))
P("C35",
  H("C35Seq", "every sequence of 4 (thorough 5) creations, connects, closes, repeated closes, moves, RemoveAll and failed handshakes over 3 struct keys"),
  H("C19Rooms", "every pair (thorough triple) of creating, connecting to, joining, closing and looking up a room under one new or existing key; 1 (thorough 2) schedule deviations"), conc=True,
  outside=["Operations on a Room after its Close, other than closing it again."])
P("C36",
  H("C36Use", "two upgraders made from one list of 0-3 middlewares with spare capacity, 3 added to them in every order"),
  H("C36Send", "8 send, stream and broadcast APIs, payloads of 0/1/5/130 (thorough to 400) symbolic bytes inside a larger array, overwritten as soon as the call returned; fast and slow transport, 3 write buffer sizes, pooled or not"),
  H("C36Recv", "3 messages of 1-40 (thorough 300) symbolic bytes in 1-2 frames with pings between, 3 read APIs, 2x2 buffer sizes, all at once or 11 bytes at a time, results overwritten or kept"),
  H("C36Args", "joining with 0-3 arguments by Add or Connect, leaving in 6 ways, the array behind them checked"),
  H("C36Snap", "4 kinds of lists of 1-3 members, 0-3 exclusions with strangers and repetitions, overwritten, appended to, or membership changed afterwards"),
  outside=["Batch and BatchBroadcast, which keep the slice until the flush; the slices handed to a custom send function or a prefix hook."])
P("C37",
  H("C37Alloc", "any announced length in [2^24,2^29] or from 2^62, in the first or second frame, 0 or 3 bytes of it received, end of stream or silence, 5 read APIs, 2 limits, rate limited or not; allocations counted against a budget of 1 MiB"),
  H("C37Bytes", "any 6 (thorough 7) bytes, then the end of the stream, 4 read APIs, 2 limits; allocations counted"),
  H("C37Flood", "40 frames of 6 kinds from a client that reads or does not, rate limited or not; goroutines and allocations counted"),
  outside=["Memory the application keeps; lengths between 4 KiB and 2^24 against the budget."])
P("C38",
  H("C38Ctx", "9 calls with a nil or background context on an idle, busy, slow or closed connection, 3 batching strategies enabled with it"),
  H("C38Args", "28 groups of calls with nil, empty, zero, unknown or repeated arguments, with default and explicit upgraders, with and without hooks"),
  outside=["nil connections, requests, response writers, middlewares and writers, which are programming errors."])
