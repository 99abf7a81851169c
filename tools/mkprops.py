#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

NOTEST = "The six existing unit tests all sit in haproxy-spop and round-trip a few literal values; the agent crate (haproxy-spoa) has no test at all, so no connection is ever served in a test."
CONN = ["spoa/src/conn.rs", "spoa/src/state/process.rs", "spop/src/frame/framer.rs", "spop/src/frame/codec.rs"]

prop("C01", "Every request is acknowledged exactly once, in order",
 "On an established connection every complete NOTIFY whose processing succeeds is answered by exactly one final, non-aborted ACK that carries that NOTIFY's stream-id and frame-id and exactly the actions the service produced for it, and ACKs leave in the order in which the NOTIFYs arrived. The service is called exactly once per complete NOTIFY, and the agent never sends an ACK that answers nothing received on that connection. This holds for any number of connections, any number of threads they are served by, any pipelining depth and any segmentation, delay or stall of the byte streams.",
 ["schedules", "inputs", "histories"], "all task interleavings, network segmentations and delays, pipelining depths and numbers of connections",
 NOTEST, CONN + ["spoa/src/agent.rs", "spop/src/frame/agent.rs"],
 [("serve loop: read one frame, handle it, write its reply", "spoa/src/conn.rs Connection::serve"), ("ACK built from the NOTIFY's ids and the service's actions", "spoa/src/state/process.rs Processing::handle_frame")],
 [("state", "the per-connection protocol state moved through each frame", "spoa/src/conn.rs Connection.state")],
 ["bytes written by the agent", "calls into the user's service"])
prop("C02", "Messages and actions cross the wire unchanged",
 "The service receives exactly the messages the peer encoded (message names, argument names, their order, data types and values), and the peer receives exactly the actions the service returned (kind, scope, name, data type and value), for every data type and value including the boundaries of the variable-length integer encoding. This does not depend on how the byte streams are cut into reads and writes, nor on what other connections do.",
 ["inputs", "schedules"], "all messages, actions and typed values that fit a frame, all segmentations of the streams",
 "The tests encode a dozen literal values into a Vec and back with the same code base; they never cross a stream, never compare with an independent encoder on values other than those literals, and never reach negative numbers, empty or long strings, or values next to the integer-size boundaries in typed data.",
 ["spop/src/data/varint.rs", "spop/src/data/buf.rs", "spop/src/frame/encode.rs", "spop/src/frame/decode.rs", "spop/src/frame/framer.rs"],
 [("variable-length integers", "spop/src/data/varint.rs"), ("typed data", "spop/src/data/buf.rs"), ("list of messages / list of actions", "spop/src/frame/decode.rs, spop/src/frame/encode.rs")],
 (), ["arguments of the user's service", "bytes written by the agent, decoded by an independent decoder"])
prop("C03", "Handshake gates everything and negotiates the common ground",
 "Nothing is processed and no service is created on a connection before a valid HELLO; the reply to it carries the highest version present in both sides' lists, the smaller of the two frame-size limits and exactly the capabilities both sides announced (possibly none; capabilities the agent does not know are ignored). A HELLO without a common version, and any other frame in place of the HELLO, is refused with a DISCONNECT that is the agent's only frame. A health-check HELLO is answered like any other and the connection is then closed without creating a service.",
 ["inputs", "configurations", "schedules"], "all HELLO contents, agent configurations, segmentations and interleavings of concurrent handshakes",
 "No test performs a handshake; only the encoding of one HELLO of each kind is compared.",
 ["spoa/src/state/connect.rs", "spoa/src/state/handshake.rs", "spoa/src/runtime/builder.rs", "spop/src/frame/decode.rs", "spop/src/frame/kv.rs"],
 [("negotiation", "spoa/src/state/handshake.rs negotiate"), ("first frame must be HELLO", "spoa/src/state/connect.rs"), ("health check", "spoa/src/state/connect.rs")],
 (), ["bytes written by the agent", "calls into the user's service factory"])
prop("C04", "Failures end in exactly one truthful DISCONNECT, sent last",
 "Whenever the agent ends a connection because the peer sent DISCONNECT, sent an unexpected, undecodable or oversized frame, failed the handshake, or because the service or its factory failed or timed out, it sends exactly one DISCONNECT frame whose status code names that cause (normal, timeout, invalid frame, too big, missing or unsupported hello items, fragmentation not supported, unknown error), and for a service failure carries the service's error text. The DISCONNECT follows the ACKs of all earlier requests, is the last frame sent, and the connection is then closed. (Only connections that still accept writes are meant.)",
 ["inputs", "fault_sequences", "histories"], "all causes of failure, at every point of a connection's history, under all segmentations and delays",
 NOTEST, ["spoa/src/conn.rs", "spoa/src/error.rs", "spoa/src/state/process.rs", "spoa/src/state/connect.rs", "spop/src/frame/disconnect.rs", "spop/src/frame/framer.rs"],
 [("error to DISCONNECT conversion", "spoa/src/error.rs From<Error> for Disconnect"), ("serve loop error arm", "spoa/src/conn.rs")],
 (), ["bytes written by the agent", "end of stream seen by the peer"])
prop("C05", "The processing deadline is enforced per request",
 "A request whose processing, including the wait for the service to become ready, is not finished when the configured maximum processing time has passed since it began is abandoned at that moment: the agent sends a timeout DISCONNECT and closes the connection. A request that finishes earlier is always acknowledged and never timed out. The time is counted for each request separately, whatever the connection did before.",
 ["schedules", "configurations", "histories"], "all processing times and deadlines, all positions of the slow request in a connection's history",
 "No test involves time.", ["spoa/src/state/process.rs", "spoa/src/runtime/builder.rs", "spoa/src/runtime/runtime.rs"],
 [("timeout around the service call", "spoa/src/state/process.rs"), ("configured limit", "spoa/src/runtime/builder.rs max_process_time")],
 (), ["simulated time at which frames are written", "drop of the service future"])
prop("C06", "Fragmented requests are reassembled completely and separately",
 "When fragmentation was negotiated, the fragments of a NOTIFY with one stream-id and frame-id are gathered in arrival order and handed to the service once, as one request, when the final fragment arrives, and that request gets one ACK while non-final fragments get none. Fragments of different requests may be interleaved and never mix, not even when another connection uses the same ids, and an id pair may be reused after completion. When fragmentation was not negotiated, a non-final fragment is never treated as a request: it is refused with a DISCONNECT.",
 ["inputs", "schedules", "histories"], "all fragmentations and interleavings of requests on any number of connections",
 "No test reassembles anything.", ["spop/src/frame/fragment.rs", "spoa/src/state/process.rs", "spoa/src/state/connect.rs", "spop/src/frame/metadata.rs"],
 [("reassembly table keyed by stream-id and frame-id", "spop/src/frame/fragment.rs"), ("one table per connection, only if negotiated", "spoa/src/state/connect.rs")],
 [("table", "fragments received so far per (stream-id, frame-id)", "spop/src/frame/fragment.rs Table")], ["arguments of the user's service", "bytes written by the agent"])
prop("C07", "Graceful shutdown loses no request that was being processed",
 "After shutdown is requested the agent takes no new connection, lets every request whose processing has begun finish and sends its ACK, and then closes every connection, including idle ones and ones in the middle of a frame. Every call of the agent's serve, a second or later one included, returns successfully once all connections have ended, never before, and no later than when the requests being processed have finished (provided peers keep reading). This holds at whatever moment shutdown is requested.",
 ["schedules", "crash_points", "histories"], "all instants of shutdown relative to accepts, handshakes, reads, processing and writes on any number of connections",
 NOTEST, ["spoa/src/agent.rs", "spoa/src/conn.rs"],
 [("cancellation token, child token per connection", "spoa/src/agent.rs, spoa/src/conn.rs"), ("task tracker awaited after the accept loop", "spoa/src/agent.rs Agent::serve")],
 [("shutdown", "cancellation token and tracker of connection tasks", "spoa/src/agent.rs Shutdown")], ["completion of serve", "bytes written by the agent", "end of each connection"])
prop("C08", "A misbehaving connection never disturbs the others",
 "Whatever happens on one connection (garbage, stalls in the middle of a frame, resets, a peer that stops reading, a service or service factory that is slow, fails, never finishes or panics), every other connection, on whatever thread it is served, is still accepted, completes its handshake and has its requests answered without added delay. Requests and data of different connections are never mixed up.",
 ["schedules", "fault_sequences", "histories"], "all mixes of faulty and healthy connections and all interleavings",
 NOTEST, ["spoa/src/agent.rs", "spoa/src/conn.rs", "spoa/src/state/connect.rs", "spoa/src/runtime/runtime.rs"],
 [("one task per connection", "spoa/src/agent.rs"), ("shared service factory behind a lock", "spoa/src/runtime/runtime.rs service_maker")],
 [("service_maker", "the only mutable state all connections share", "spoa/src/runtime/runtime.rs")], ["replies and their simulated time on healthy connections"])
prop("C09", "Neither failed accepts nor a blocking listener stop the agent",
 "If accepting a connection fails (connection aborted, out of file descriptors, out of memory, interrupted), the agent keeps running: connections already open are served as before, and once accepting works again every waiting and later connection is accepted and served within a bounded time. A failed accept is never mistaken for a shutdown, and shutdown still works while accepts are failing. The agent serves any listening socket it is given, one in blocking mode included, without ever being blocked by it.",
 ["fault_sequences", "schedules"], "all sequences of accept failures relative to connection arrivals and shutdown",
 NOTEST, ["spoa/src/agent.rs"], [("accept loop", "spoa/src/agent.rs Agent::serve"), ("listening socket made non-blocking", "spoa/src/agent.rs Agent::new")], (), ["completion of the handshake on later connections", "completion of serve"])
prop("C10", "Malformed input never panics and is never delivered, not even in part",
 "Whatever bytes a peer sends (random, truncated inside a frame's payload, with wrong lengths, counts, types or corrupted bytes), reading them never panics or hangs: it yields the frame those bytes encode or reports an error. A frame whose payload is not well-formed is rejected as a whole, so the service never sees part of it, earlier requests are still answered, and the connection ends in bounded time. This holds whether or not the application collects the trace events the code emits.",
 ["inputs", "fault_sequences"], "all byte strings, in particular all corruptions and truncations of valid frames at any position of a session",
 "The tests decode only well-formed frames.", ["spop/src/frame/decode.rs", "spop/src/data/buf.rs", "spop/src/data/varint.rs", "spop/src/frame/framer.rs", "spoa/src/conn.rs"],
 [("frame decoding", "spop/src/frame/decode.rs"), ("varint and length checks", "spop/src/data/varint.rs, spop/src/data/buf.rs")],
 (), ["result of reading a frame", "calls into the user's service", "panics"])
prop("C11", "Frame size limits are respected in both directions",
 "After the handshake the agent never sends a frame larger than the negotiated maximum frame size; a result that does not fit ends the connection with a DISCONNECT (too big) and is not sent in part. A received frame that announces a length above the limit is refused at once, without waiting for or storing its payload, and frames of exactly the limit are accepted. (For limits of at least 256 bytes, the protocol minimum.)",
 ["inputs", "configurations"], "all combinations of agent limit, peer limit and frame size, in particular sizes around the limits",
 "No test uses a framer or a size limit.", ["spop/src/frame/framer.rs", "spoa/src/conn.rs", "spoa/src/state/handshake.rs"],
 [("length check on read", "spop/src/frame/framer.rs read_frame"), ("length of written frames", "spop/src/frame/framer.rs write_frame"), ("negotiated limit", "spoa/src/state/handshake.rs")],
 (), ["bytes written by the agent"])
prop("C12", "A stream cut at any byte has no partial effect",
 "If the connection ends or fails (orderly close, half-close, reset, write error) at any byte, the agent acts only on frames it received completely before that point: an incomplete frame never reaches the service and never produces a reply other than an error. Everything the agent has written up to then is a prefix of the replies it owes, and the connection's task ends promptly without affecting anything else.",
 ["crash_points", "fault_sequences", "inputs"], "all cut positions in either direction and all kinds of failure",
 NOTEST, ["spop/src/frame/framer.rs", "spoa/src/conn.rs"],
 [("length-prefixed exact reads", "spop/src/frame/framer.rs"), ("errors end the serve loop", "spoa/src/conn.rs")], (), ["calls into the user's service", "bytes written by the agent", "end of the connection task"])
prop("C13", "Dispatched requests reach the processor exactly once and are acked once",
 "Every request dispatched to the processing queue, whole or in fragments, from any number of threads, produces exactly one processing entry; its messages arrive there exactly once, in the order dispatched, and the entry's message stream ends after the final fragment. Every entry resolves its dispatcher's acknowledgement exactly once with the same stream-id and frame-id and the actions set on it in order, flagged aborted only if aborted, also when it is merely dropped. If the processing side is gone, dispatching reports an error each time instead of losing messages silently.",
 ["schedules", "histories", "crash_points"], "all thread interleavings of dispatching, processing, acknowledging, aborting and dropping",
 "No test touches dispatching or acknowledging.", ["spoa/src/runtime/dispatch.rs", "spoa/src/runtime/acker.rs", "spoa/src/runtime/processor.rs"],
 [("entry per (stream-id, frame-id)", "spoa/src/runtime/dispatch.rs"), ("ack on complete, abort or drop", "spoa/src/runtime/acker.rs")],
 [("receiving", "open fragmented requests", "spoa/src/runtime/dispatch.rs")], ["results of dispatching", "items of the processing stream", "received acknowledgements"])
prop("C14", "Waiting consumers are woken when work arrives",
 "A task that waits on the stream of dispatched requests, or on the message stream of one of them, is woken and makes progress whenever an item becomes available or the stream ends, whichever side came first. No interleaving of dispatching threads and consuming tasks leaves a consumer asleep with work pending.",
 ["schedules"], "all interleavings of producers and consumers, including the consumer polling before, between and after each send",
 "No test polls these streams; a lost wake-up shows only in particular interleavings.", ["spoa/src/runtime/processor.rs", "spoa/src/runtime/dispatch.rs"],
 [("stream over the processing channel", "spoa/src/runtime/processor.rs")], (), ["progress of the consumer once producers are done"])
prop("C15", "Shared reassembly is atomic across threads",
 "Reassembly tables may be used from several threads at once: every history of concurrent calls is equivalent to some order of the same calls made one at a time, consistent with their real-time order. In particular no fragment is lost, duplicated or attributed to another id pair, and each completed request is handed out exactly once. Handing frames to a table is the same as such calls, and frames of other kinds leave it as it is.",
 ["schedules", "histories"], "all interleavings of concurrent calls on the same and on different id pairs",
 "No test uses the reassembly table, let alone from two threads.", ["spop/src/frame/fragment.rs"],
 [("entry API of the concurrent map", "spop/src/frame/fragment.rs Table::reassemble")], (), ["results of concurrent calls"])
prop("C16", "A service is called only when it has reported itself ready",
 "The agent never calls a service that has not reported readiness for that call, nor asks a service factory for a service before the factory has reported readiness, as the service interface requires. While a service is not ready the request waits and is processed as soon as the service becomes ready; a service that reports failure instead of readiness ends the connection with a DISCONNECT.",
 ["schedules", "histories"], "all readiness patterns of services and factories, under all interleavings",
 "No test drives the agent with a service that is ever not ready.", ["spoa/src/state/process.rs", "spoa/src/runtime/runtime.rs"],
 [("service call", "spoa/src/state/process.rs"), ("service creation", "spoa/src/runtime/runtime.rs ServiceMaker::make")], (), ["calls into the user's service and factory"])
prop("C17", "Replies leave without needing further traffic, on any transport",
 "As soon as a reply has been produced the whole of it is pushed out to the peer, without waiting for more input, on every kind of transport: ones that take only a few bytes per write, that are temporarily not writable, or that hold written data until flushed. A peer that sends one request at a time and waits for each reply therefore always makes progress.",
 ["schedules", "fault_sequences", "configurations"], "all transport behaviours permitted by the asynchronous I/O interface",
 NOTEST, ["spop/src/frame/framer.rs", "spop/src/frame/codec.rs", "spoa/src/conn.rs"],
 [("writing a frame", "spop/src/frame/framer.rs write_frame")], (), ["bytes visible to the peer"])
prop("C18", "The codec round-trips every frame sequence over any byte stream",
 "Any sequence of well-formed frames of any kind (both HELLOs, NOTIFY, ACK, both DISCONNECTs) written by the codec to a byte stream is read back by the codec as the same sequence, is encoded as the protocol prescribes, and reports the number of bytes written. A frame that cannot be represented within the size limit, or that has more arguments than the format can count, is refused with an error and nothing of it is written.",
 ["inputs", "schedules", "configurations"], "all frame sequences and contents, all segmentations, delays and short writes of the stream between writer and reader",
 "The tests cover six literal frames encoded into memory, without a stream, a length prefix or an empty or boundary-sized field.",
 ["spop/src/frame/codec.rs", "spop/src/frame/framer.rs", "spop/src/frame/encode.rs", "spop/src/frame/decode.rs", "spop/src/frame/kv.rs", "spop/src/frame/metadata.rs"],
 [("frame encoding and decoding", "spop/src/frame/encode.rs, spop/src/frame/decode.rs"), ("length prefix", "spop/src/frame/framer.rs")], (), ["frames read", "bytes on the stream"])
prop("C19", "Ended connections release everything they held",
 "However a connection ends (close by either side, reset, DISCONNECT, protocol error, service error, panic or timeout, health check, shutdown), the agent closes its side of the transport and drops the service created for it exactly once, within a bounded time and without needing further activity. While the connection lives it has exactly one service of its own, never shared with another connection.",
 ["fault_sequences", "histories", "crash_points"], "all ways and instants of ending a connection",
 NOTEST, ["spoa/src/agent.rs", "spoa/src/conn.rs", "spoa/src/state/connect.rs", "spoa/src/state/process.rs"],
 [("connection owns its transport and state", "spoa/src/conn.rs"), ("task per connection", "spoa/src/agent.rs")], (), ["drop of services and transports"])
prop("C20", "Header blocks sent as arguments are read completely",
 "A service that reads a request's headers from a message argument holding HAProxy's binary header block (req.hdrs_bin: names and values, each a variable-length-integer length and that many bytes, ended by an empty name and value) with req::hdrs_bin gets every header of the block: each name with all of its values, in order, values of any length included, however the request was cut into reads or fragments and whatever kind of buffer holds it. A block that is truncated, damaged or garbage, or that announces lengths beyond its end, never makes it panic.",
 ["inputs", "schedules"], "all header blocks, all segmentations and fragmentations of the requests that carry them",
 "No test decodes a header block.", ["spoa/src/req.rs", "spop/src/data/varint.rs", "spop/src/frame/decode.rs"],
 [("hdrs_bin", "spoa/src/req.rs"), ("variable-length integers", "spop/src/data/varint.rs")], (), ["header map returned to the user's service"])
prop("C21", "Unprocessed input and unread replies are bounded",
 "While a request is being processed, a service is being created, or a reply cannot be delivered because the peer does not read, the agent takes in only a bounded amount of that peer's further input (a few frames and 256 KiB) and so holds back a peer that sends without end; it likewise keeps only a bounded amount of replies its peer has not taken. It goes on where it stopped once it can. A length announced by a peer (of a frame, a string, a list) never makes the agent allocate memory far beyond the frame limit for data that was not received. (Fragments of requests that are not complete yet have to be kept and are not meant.)",
 ["inputs", "schedules", "histories"], "all senders, pipelining depths, processing times and stalls of either direction",
 "No test looks at how much is read or kept.", ["spoa/src/conn.rs", "spop/src/frame/codec.rs", "spop/src/frame/framer.rs", "spop/src/frame/decode.rs", "spop/src/data/buf.rs"],
 [("one frame is read, handled and answered before the next is read", "spoa/src/conn.rs Connection::serve"), ("frame limit checked before the payload is allocated", "spop/src/frame/framer.rs read_frame")],
 [("codec", "read buffer of fixed size", "spop/src/frame/codec.rs")], ["bytes the agent has taken from and given to the transport", "sizes of memory allocations"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
