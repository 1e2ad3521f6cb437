#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
C = "protosocket-connection/src/connection.rs"
T = "protosocket-connection/src/types.rs"
P = "protosocket-prost/src/prost_serializer.rs"
M = "protosocket-messagepack/src/lib.rs"
RC = "protosocket-rpc/src/client/rpc_client.rs"
RR = "protosocket-rpc/src/client/reactor/completion_reactor.rs"
RG = "protosocket-rpc/src/client/reactor/completion_registry.rs"
RS = "protosocket-rpc/src/client/reactor/completion_streaming.rs"
RU = "protosocket-rpc/src/client/reactor/completion_unary.rs"
CF = "protosocket-rpc/src/client/configuration.rs"
SC = "protosocket-rpc/src/server/connection_server.rs"
SA = "protosocket-rpc/src/server/abortable.rs"
SS = "protosocket-rpc/src/server/socket_server.rs"
SU = "protosocket-rpc/src/server/rpc_submitter.rs"
PS = "protosocket-server/src/connection_server.rs"
PR = "protosocket-prost/src/prost_client_registry.rs"
MS = "protosocket-rpc/src/message.rs"

props = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    props.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })

NOTEST = "The existing 8 tests never run a connection over a socket: "

p("C01", "Inbound messages arrive exactly once and in order, however bytes are split",
  "Whatever sequence of valid messages no longer than the configured maximum (and of messages the deserializer chooses to skip) a peer sends, and however the bytes are split into arrivals, the reactor receives exactly the non-skipped messages, byte for byte, in order, once each. Delivery never waits for traffic beyond the last byte of the message: once those bytes have arrived and the executor has run, the message has been delivered, for every buffer limit and batch size, and the connection stays open.",
  ["inputs", "schedules", "configurations"], "every message sequence, segmentation, poll schedule, maximum length and queue/batch limit",
  NOTEST + "segmentation, full receive buffers, batch boundaries and skip handling are never exercised.",
  [C, T],
  [("receive buffer growth, rotation and reset", C + " read_inbound / read_inbound_messages_into_read_queue"),
   ("self-wake rules after deserialization", C + " poll_deserialize")],
  [("receive_buffer_start_offset / receive_buffer_slice_end", "the unconsumed window of received bytes", C)],
  ["MessageReactor::on_inbound_messages"])

p("C02", "Accepted outbound messages reach the wire exactly once, in order, intact",
  "Every message accepted into a connection's outbound queue is written to the socket exactly once, in acceptance order, with exactly the bytes its serializer produced, contiguous and not interleaved with another message, whatever partial writes, blocked writes, queue limits and serializer output lengths (including empty ones) occur. As long as the peer keeps reading and the connection lives, all of them eventually arrive without needing any further message or inbound traffic, and the connection stays usable afterwards.",
  ["inputs", "schedules", "configurations"], "every message sequence and size, write-blocking pattern, read pattern of the peer, queue limit and poll schedule",
  NOTEST + "partial writes, blocked writes, vectored batches and wake-ups after a blocked write are never exercised.",
  [C],
  [("batched dequeue with reverse", C + " poll_serialize_outbound_messages"),
   ("vectored write and buffer rotation", C + " writev_buffers / rotate_send_buffers"),
   ("re-wake rules", C + " poll_outbound")],
  [("send_buffer", "encoded messages not yet fully written", C), ("outbound_message_buffer", "dequeued but not yet encoded messages", C)],
  ["bytes read by the socket peer"])

p("C03", "Closing the outbound queue flushes everything already accepted, then closes",
  "When the last sender of a connection's outbound queue is dropped, every message accepted before that is still written to the socket in full as long as the peer keeps its connection open and reads; only then does the connection end, and it does end, so the peer sees exactly those bytes followed by end-of-stream.",
  ["schedules", "histories"], "every number and size of queued messages, every point in the send/poll/read history at which the last sender is dropped",
  NOTEST + "dropping the sender with messages still queued is never exercised.",
  [C, PR],
  [("handling of a closed outbound channel", C + " poll_serialize_outbound_messages"), ("final flush", C + " poll_outbound")],
  [], ["bytes and EOF read by the socket peer", "completion of the connection future"])

p("C04", "Complete messages received before the peer leaves are delivered",
  "When the peer closes or resets the connection, every complete message whose bytes had arrived before that is delivered to the reactor, in order, before the connection ends (provided the connection had nothing left to write to that peer, and for a reset: had read those bytes), and a trailing incomplete message is never delivered. The connection future then completes promptly.",
  ["schedules", "fault_sequences"], "every message sequence, segmentation and closing point, including data and close arriving together and more messages than one batch",
  NOTEST + "no test closes a socket.",
  [C],
  [("end-of-stream handling", C + " poll / poll_receive")],
  [], ["MessageReactor::on_inbound_messages", "completion of the connection future"])

p("C05", "Broken input ends the connection after delivering exactly the good prefix",
  "For any byte stream, the reactor receives exactly the messages that precede the first invalid one, regardless of how the bytes are split, and nothing after it; the connection then ends and closes its socket instead of waiting for more input. No byte stream makes a connection panic, spin, or stay open with a full receive buffer that can no longer make progress.",
  ["inputs", "schedules"], "every byte stream (mutated, truncated, random, hostile lengths), every segmentation, for custom, protobuf and messagepack codecs",
  NOTEST + "no malformed input is ever decoded.",
  [C, P, M],
  [("InvalidBuffer / too-long handling", C + " read_inbound_messages_into_read_queue"), ("length checks", P + ", " + M)],
  [], ["MessageReactor::on_inbound_messages", "completion of the connection future", "EOF at the peer"])

p("C06", "The configured maximum message length is enforced in both directions",
  "A message whose encoding is at most the connection's configured maximum is always sent and always received. A longer outbound message is never written, not even in part, and ends the connection; an inbound message that announces a length above the maximum before it has fully arrived ends the connection without waiting for its body, and is never delivered in part.",
  ["inputs", "configurations"], "every configured maximum and every message length around it, every segmentation and position in the stream",
  NOTEST + "no limit is ever reached.",
  [C],
  [("inbound limit", C + " read_inbound_messages_into_read_queue"), ("outbound limit", C + " poll_serialize_outbound_messages")],
  [], ["socket peer", "reactor"])

p("C07", "Buffering is bounded: slow or flooding peers meet backpressure",
  "While a peer does not read, a connection accepts only a bounded number of outbound messages beyond what the operating system takes (at most four times the configured queue length) and then makes senders wait, and it never holds more encoded but unwritten messages than the configured queue length. However fast a peer sends, the bytes held for deserialization stay within the configured maximum plus one read increment (2 MiB); nothing is lost when the flow resumes.",
  ["schedules", "configurations"], "every queue length, buffer limit, message size and read/write schedule",
  NOTEST + "no test fills a queue or buffer of a connection.",
  [C],
  [("room accounting", C + " room_in_send_buffer / poll_serialize_outbound_messages"), ("read gating", C + " poll_receive / read_inbound")],
  [], ["Serializer::encode call count", "Deserializer::decode buffer length", "Sender capacity"])

p("C08", "The two directions of a connection do not block each other",
  "While writes are blocked because the peer does not read, inbound messages are still read and delivered; while an inbound message is only partly received (or nothing is received), outbound messages are still written. Neither direction needs activity on the other to make progress.",
  ["schedules", "histories"], "every interleaving of peer reads, peer writes, sends and polls",
  NOTEST + "no test uses both directions of a socket.",
  [C],
  [("poll step sequence without early returns on blocked I/O", C + " poll")],
  [], ["reactor and socket peer"])

p("C09", "A connection that cannot make progress sleeps instead of spinning",
  "After every history, once no new bytes, socket space, or outbound messages appear, the connection stops asking to be polled after finitely many polls and is not polled again until such an event. This holds in every state: empty, in the middle of an inbound message, with blocked writes, or with full queues.",
  ["histories", "schedules"], "every history of sends, reads, writes and polls",
  NOTEST + "wake-ups of a connection are never observed.",
  [C],
  [("conditional self-wakes", C + " poll_deserialize / poll_serialize_outbound_messages / poll_outbound")],
  [], ["number of polls of the connection future while nothing happens"])

p("C10", "Connection, reactor, outbound queue and socket share one fate",
  "However a connection ends (the reactor asks to disconnect, the peer closes or resets, the input is broken or too long, an outbound message is too long, the outbound queue is closed, or the future is dropped), the connection future completes, its reactor is dropped, the socket is closed so that the peer sees end-of-stream or reset, and further sends into the queue fail. A reactor that asked to disconnect is not called again.",
  ["fault_sequences", "histories"], "every ending cause at every point of every history",
  NOTEST + "no test ends a connection.",
  [C, T],
  [("early-out returns", C + " poll"), ("reactor status", C + " poll_react")],
  [], ["connection future", "reactor drop", "peer EOF", "sender closed"])

p("C11", "Protobuf codec: encode/decode round-trips with exact framing",
  "For every protobuf message, decoding the encoded bytes yields an equal message and consumes exactly its encoding, even when followed by arbitrary further bytes; every strict prefix of the encoding is reported as incomplete, never as a message or as invalid, and with a size hint no larger than the whole encoding needs (or the 10 bytes a length delimiter may need). The bytes are standard length-delimited protobuf, so streams written by or for other implementations (including padded length varints) interoperate.",
  ["inputs"], "every message value and size (varint length boundaries included), every prefix, every trailing data",
  "No existing test touches this codec.",
  [P],
  [("length delimiter peek and decode", P + " decode"), ("length-delimited encode", P + " encode")],
  [], ["Serializer::encode / Deserializer::decode of ProstSerializer"])

p("C12", "MessagePack codec: encode/decode round-trips with exact framing",
  "For every serializable message, decoding the encoded bytes yields an equal message and consumes exactly its encoding, even when followed by arbitrary further bytes and even when the same deserializer was called earlier on shorter prefixes; every strict prefix is reported as incomplete with a size hint no larger than the whole encoding (or the 5 header bytes). The frame is a messagepack u32 (marker plus 4 big-endian bytes) holding the payload length, followed by the payload.",
  ["inputs", "histories"], "every message value and size, every sequence of prefix calls, every trailing data",
  "No existing test touches this codec.",
  [M],
  [("length prefix write", M + " encode"), ("length state machine", M + " decode")],
  [("State", "whether the current frame's length was already read", M)], ["Serializer::encode / Deserializer::decode"])

p("C13", "Codecs handle arbitrary bytes: no crash, no frame bleed, no endless wait",
  "For any bytes, the protobuf and messagepack deserializers return a message, 'incomplete', or 'invalid' without panicking; a produced message consumes no bytes beyond its declared frame and leaves none of that frame to be read as the next one. Growing the input only ever moves the verdict from incomplete to a final one that does not depend on how the input grew, and bytes that can never become a valid frame header are rejected rather than reported incomplete forever.",
  ["inputs", "histories"], "every byte string and every way of growing it, including hostile lengths near integer limits",
  "No existing test feeds either codec any bytes, let alone malformed ones.",
  [P, M],
  [("length arithmetic", P + ", " + M + " decode")],
  [], ["Deserializer::decode"])

p("C14", "RPC client: a unary call completes with its own response, exactly once",
  "Each unary RPC completes with the first response carrying its message id, whatever the number of concurrent calls, the order, batching and segmentation of responses, and any responses for unknown, finished or cancelled ids in between; if the server cancels or ends that id instead, it completes with the cancelled-remotely error. No call ever receives another call's response, and an id can be used again once its call is finished.",
  ["schedules", "histories", "inputs"], "every set of concurrent calls, id choice (ids of calls in progress being distinct, reused after a call finished), response order and interleaving",
  "The existing tests send one unary request and drop it; no response is ever delivered to a client.",
  [RC, RR, RG, RU],
  [("id-keyed completion map", RG), ("dispatch", RR + " on_inbound_messages")],
  [("in_flight / in_flight_submission", "completions by message id", RG)], ["UnaryCompletion result"])

p("C15", "RPC client: a response stream yields its own items in order, then ends once",
  "Each streaming RPC yields exactly the normal responses carrying its id that precede the server's end (or cancel) of that id, in the order sent, each once; then exactly one error item (the finished error for a regular end) and then nothing. Streams and unary calls running at the same time never affect each other's items, however responses are batched and whenever the stream is polled.",
  ["schedules", "histories", "inputs"], "every set of concurrent streams and calls, item counts, interleavings and consumption schedules",
  "The existing tests open one stream and drop it; no item is ever delivered to a client.",
  [RC, RR, RG, RS],
  [("per-stream queue", RS + " poll_next"), ("dispatch", RR + " on_inbound_messages")],
  [], ["StreamingCompletion items"])

p("C16", "RPC client: dropping an unfinished call sends exactly one cancel for it",
  "When an unfinished unary or streaming completion is dropped, the server receives exactly one cancel message with that call's id, after the request itself (provided the client's outbound queue has room at that moment); a completion that already finished sends none when dropped. Cancelling one call leaves all other calls undisturbed, and late responses for the cancelled id are ignored.",
  ["schedules", "histories"], "every point in a call's life at which it is dropped, among any set of concurrent calls",
  "The existing tests drop one fresh call on an idle client; drops after responses, after completion, and among other calls are not covered.",
  [RC, RG, RU, RS],
  [("drop guard", RG + " CompletionGuard"), ("set_closed on completion", RU + ", " + RS)],
  [], ["messages received by the server"])

p("C17", "RPC client: losing the connection resolves every call; none hangs",
  "When a client's connection ends for any reason (server close or reset, broken input, connection future dropped, even before it first ran), every outstanding unary call resolves (with an error unless its response had fully arrived), every stream ends after the items that had arrived, and sends that are still waiting for queue room fail. Afterwards the client reports that it is not alive and new calls fail with the connection-closed error.",
  ["fault_sequences", "schedules"], "every failure cause at every point of every history of calls and responses",
  "No existing test ends a client connection.",
  [RC, RR, RG, RU, RS],
  [("completion senders dropped with the reactor", RR + " Drop"), ("alive flag", RC + " is_alive")],
  [], ["completion results", "RpcClient::is_alive", "RpcClient::send_*"])

p("C18", "RPC server: every request is served once and answered exactly as produced",
  "Each normal request that reaches the server is handed to the connection's service exactly once, in arrival order; a unary RPC sends exactly its one response, a streaming RPC sends exactly its items in order followed by exactly one end message for that id, and an unknown RPC sends nothing. Nothing else is ever sent, and responses are neither lost nor stalled when outbound queues are full or many RPCs complete at once.",
  ["schedules", "histories", "configurations"], "every set of concurrent RPCs (ids in progress being distinct, reused after an RPC finished or was cancelled), completion order, queue limit and read pattern of the client",
  "The existing tests run at most three RPCs whose results are ready at once, with a hand-driven queue; pending completions, wake-ups and the socket are not covered.",
  [SC, SA, SS, SU],
  [("unary and streaming advance loops", SC), ("request batches", SC + " poll_receive_buffer / handle_message_buffer"), ("submission", SU)],
  [("aborts", "live RPC handles by id", SC)], ["frames received by a raw client", "ConnectionService::new_rpc calls"])

p("C19", "RPC server: a cancel stops exactly that RPC",
  "After the server has processed a cancel for an id, the RPC's future or stream is dropped, nothing further is sent for it (no response, item or end), and no other RPC is affected. Cancels for unknown or finished ids have no effect, and a later request that reuses the id is served normally.",
  ["schedules", "histories"], "every point of cancellation, every mix of other RPCs, id reuse",
  "The existing tests cancel one never-ready RPC that is alone on its connection.",
  [SC, SA],
  [("abort handles", SA), ("cancel handling", SC + " handle_message_buffer")],
  [("aborts", "live RPC handles by id", SC)], ["drop of the service's future/stream", "frames received by a raw client"])

p("C20", "RPC server: the end of a connection releases everything it was running",
  "When a client's connection ends for any reason (close, reset, broken input, blocked client going away), all of that connection's unfinished RPC futures and streams and its connection service are dropped promptly and its tasks end; if the connection's service fails (panics), the client's socket is closed rather than left hanging.",
  ["fault_sequences", "histories"], "every ending cause at every point of every RPC history",
  "No existing test ends a server connection.",
  [SC, SS, SU, C],
  [("inbound channel closed", SC + " poll_receive_buffer"), ("outbound closed", SC + " poll_advance_*"), ("disconnect on submit failure", SU)],
  [], ["drops of service futures and ConnectionService", "live task count", "EOF at the client"])

p("C21", "Servers isolate connections and survive misbehaving clients",
  "For both the message server and the RPC server, every accepted connection gets its own reactor or service and sees only its own messages and replies; clients that send garbage, announce huge messages, reset, vanish mid-message, never read, connect and leave at once, or connect in such numbers that accepting fails for a while do not disturb other connections, and the listener keeps accepting new ones.",
  ["histories", "fault_sequences"], "every mix and order of well-behaved and misbehaving clients",
  "No existing test starts a listening server.",
  [PS, SS],
  [("accept loop", PS + " poll, " + SS + " poll")],
  [], ["replies to well-behaved clients", "server future still pending"])

p("C22", "Control codes map totally and unknown codes act as cancel",
  "Converting a control code to its byte and back is the identity (normal 0, cancel 1, end 2), and every other byte value is read as cancel. On the wire this means a server never starts an RPC for a message whose code is not normal, and a client never delivers such a message as a response.",
  ["inputs"], "all 256 byte values, for requests at the server and responses at the client, with live and unknown ids",
  "The existing tests only use codes 0 to 2 and never convert unknown values.",
  [MS, SC, RR],
  [("from_u8 / as_u8", MS)],
  [], ["ProtosocketControlCode", "new_rpc calls", "completions"])

p("C23", "Configured limits apply to the connections they are configured for",
  "The maximum message length and outbound queue length set on a message server, RPC server, protobuf client registry or RPC client configuration are the limits that govern each connection created afterwards, in both directions; connections created earlier keep theirs.",
  ["configurations", "histories"], "every value of every limit on every entry point, changed at any time relative to connections",
  "No existing test constructs a server, registry or configuration.",
  [PS, SS, PR, CF],
  [("setters and Connection construction", PS + ", " + SS + ", " + PR + ", " + CF)],
  [], ["acceptance or rejection of messages around the limit", "queue capacity"])

p("C24", "End-to-end RPC over sockets equals calling the service directly",
  "With the library's client and server talking over real sockets on a multi-threaded runtime, every concurrent mix of unary and streaming calls with cancellations returns, for each call that is not cancelled, exactly what the service produces for that request; every call finishes, and once all calls are done the server holds no RPC.",
  ["schedules", "histories", "inputs"], "every workload, concurrency level, payload size, cancellation pattern and thread schedule",
  "No existing test connects a client to a server.",
  [RC, RR, RG, RS, RU, SC, SA, SS, C],
  [("the whole RPC stack", "protosocket-rpc/src")],
  [], ["client results", "service drop counters"])

p("C25", "End-to-end message streaming delivers everything both ways over sockets",
  "Between the library's protobuf client registry and message server on a multi-threaded runtime, every message sent by any number of concurrent senders on any number of connections is delivered to the peer's reactor exactly once and in per-sender order, and every reply to the right connection, for all sizes and bursts within limits; dropping the client's sender after the last message loses none of them (when the server sends no replies that the client would then leave unread).",
  ["schedules", "histories", "inputs"], "every workload, number of senders and connections, sizes, burst pattern and thread schedule",
  "No existing test connects a client to a server.",
  [PR, PS, C, P],
  [("the whole message stack", "protosocket-prost/src, protosocket-server/src, protosocket-connection/src")],
  [], ["server and client reactors"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in props:
        f.write(json.dumps(x) + "\n")
print(len(props))
