# Generates /verif/properties.jsonl (the file is committed; rerun after editing).
import json, os
P=[]
FC="binate/src/frame/codec/"
ALLC=[FC+f+".rs" for f in "setup lease keepalive request_response request_fnf request_stream request_channel request_n cancel payload error metadata_push resume resume_ok".split()]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Every frame survives an encode/decode round trip unchanged",
 "Any frame a user can construct within the documented limits, once encoded and decoded again, yields an equal frame: same type, stream ID, flags, numeric fields, MIME types, tokens, metadata and data. The only permitted difference is that a zero-length byte field for which the wire has no presence bit may read back as absent, and a SETUP frame requesting resume without a token reads back with an empty token. The outcome does not depend on the build profile.",
 ["inputs","configurations"],"every frame type x every combination of flags, numeric values over the full legal range, and absent/empty/short/long metadata, data, tokens and MIME types; debug and release builds",
 "Each frame type has one test_codec case, always with metadata and data present and tiny lengths; no test covers absent metadata, missing tokens, large lengths or extreme numbers.",
 ALLC+["binate/src/frame/mod.rs","binate/src/frame/visit.rs","binate/src/payload.rs"],
 [("per-frame Encode/Decode impls",FC),("Frame dispatch","binate/src/frame/mod.rs"),("field readers","binate/src/frame/visit.rs")],
 ["Encode::to_bytes","Frame::decode","frame getters","PartialEq on Frame"])
p("C02","Encoded frames have exactly the RSocket 1.0 byte layout",
 "The bytes produced for any constructible frame are exactly those the RSocket 1.0 protocol prescribes: 31-bit stream ID, 6-bit type code, 10 flag bits, fields in protocol order and width, big-endian, reserved bits zero. A metadata length field is present if and only if the metadata flag is set (in the frame types that also carry data), a resume token field if and only if the resume flag is set, and the metadata flag is set if and only if metadata was supplied. Frames pertaining to the connection are written with stream ID 0.",
 ["inputs"],"every frame type x every flag combination x boundary and random field values and lengths",
 "The tests only decode what the same code encoded, so a symmetric deviation from the protocol passes; only U24 and FrameType constants are compared to literals.",
 ALLC+["binate/src/frame/flags.rs","binate/src/frame/u24.rs","binate/src/frame/version.rs","binate/src/frame/codec/setup.rs"],
 [("per-frame encode",FC),("FrameType::bits / Flags","binate/src/frame/flags.rs"),("U24::encode","binate/src/frame/u24.rs")],
 ["Encode::encode","Encode::to_bytes"])
p("C03","Decoding reports exactly what a conforming peer put on the wire",
 "For every frame a conforming RSocket 1.0 peer can send, decoding succeeds and the type, stream ID, flags, numbers, MIME types, token, metadata and data it reports are exactly those on the wire. Reserved high bits of 31- and 63-bit fields and of the stream ID, and flag bits without a meaning for the frame type, do not change the reported values.",
 ["inputs"],"every byte sequence produced by an independent RSocket encoder over all frame types, flag bits, reserved bits and field lengths",
 "The tests decode only bytes produced by this library's own encoder, one sample per frame type, with no reserved or unknown bits set.",
 ALLC+["binate/src/frame/mod.rs","binate/src/frame/visit.rs"],
 [("Frame::decode","binate/src/frame/mod.rs"),("eat_* readers","binate/src/frame/visit.rs")],
 ["Frame::decode","frame getters"])
p("C04","Decoding arbitrary bytes never panics, aborts or hangs",
 "Decoding any byte sequence whatsoever, under any segmentation of the buffer, terminates and returns either a frame or an error; it never panics, overflows the stack, aborts or loops. The outcome is a deterministic function of the bytes. Inspecting or formatting the returned frame or error does not panic either.",
 ["inputs"],"all byte sequences of any length, in particular all 65,536 type/flag headers, truncated and corrupted frames and hostile length fields",
 "Tests feed well-formed frames only; one negative test covers one unrecognised type in a private helper.",
 ["binate/src/frame/mod.rs","binate/src/frame/visit.rs"]+ALLC,
 [("remaining() checks before each read","binate/src/frame/visit.rs"),("type dispatch","binate/src/frame/mod.rs")],
 ["Frame::decode","Decode::decode of each frame type"])
p("C05","Truncated frames are reported incomplete, never misread",
 "If the bytes end before the last byte required by the frame's fixed fields or by any length field it declares, decoding returns the incomplete-frame error, whatever the cut position. It never returns a frame with invented or shortened fields, and conversely a frame that has all its required bytes is never called incomplete.",
 ["inputs"],"every cut position of every frame, and every length field raised beyond the bytes that follow",
 "No test decodes a truncated frame.",
 ["binate/src/frame/visit.rs","binate/src/frame/mod.rs"]+ALLC,
 [("incomplete_if_less_than","binate/src/frame/visit.rs"),("6-byte header check","binate/src/frame/mod.rs")],
 ["Frame::decode error value"])
p("C06","Invalid stream IDs and unknown frame types are rejected precisely",
 "Decoding rejects SETUP, LEASE, KEEPALIVE, METADATA_PUSH, RESUME and RESUME_OK frames on a non-zero stream, connection-level error codes on a non-zero stream and stream-level error codes on stream zero, and the error names the stream ID found and the one expected. Frame types without a defined decoding (including the extension type) are rejected with their type code. Nothing else is rejected for its stream ID or type: all other error codes are accepted on any stream.",
 ["inputs"],"every frame type code x stream ID class x error code class",
 "Only constants (STREAM_ID == 0) are asserted; no test decodes an ill-addressed frame or an error frame at all.",
 ["binate/src/frame/mod.rs",FC+"error.rs",FC+"lease.rs",FC+"keepalive.rs","binate/src/frame/visit.rs","binate/src/frame/decode.rs"],
 [("stream ID check in Frame::decode","binate/src/frame/mod.rs"),("validate_stream_id",FC+"error.rs"),("UnrecognizedFrameType","binate/src/frame/visit.rs")],
 ["Frame::decode error value"])
p("C07","The declared length of a value is the exact number of bytes it encodes to",
 "For every encodable value (frames, payloads, 24-bit integers, versions) the reported length equals the number of bytes encoding appends, and it is reported empty exactly when that number is zero. Encoding only appends: bytes already in the output buffer are untouched, the value is not changed, and encoding twice or through a trait default gives the same bytes.",
 ["inputs"],"every constructible or decodable value x any pre-existing buffer content",
 "len() is compared with the encoded size for one sample per frame type, always with every optional field present, always into an empty buffer.",
 ALLC+["binate/src/frame/encode.rs","binate/src/frame/mod.rs","binate/src/payload.rs","binate/src/frame/u24.rs","binate/src/frame/version.rs"],
 [("Encode::len per type",FC),("Encode::to_bytes default","binate/src/frame/encode.rs")],
 ["Encode::len","Encode::is_empty","Encode::encode","Encode::to_bytes"])
p("C08","Decoding is independent of buffer segmentation and consumes exactly the frame",
 "The result of decoding a byte sequence is the same whether the bytes lie in one contiguous buffer or are split across any number of segments at any positions, and the same number of bytes is consumed. Frames of fixed size (CANCEL, REQUEST_N, RESUME, RESUME_OK) consume exactly their own bytes and leave any that follow; all others consume the whole buffer. Bytes of a decoded frame stay unchanged when the source buffer is reused.",
 ["inputs"],"every frame x every way of splitting its bytes into segments x trailing bytes",
 "Every test decodes from a single contiguous Bytes and never looks at what remains.",
 ["binate/src/frame/visit.rs","binate/src/frame/mod.rs"]+ALLC,
 [("Buf-generic readers","binate/src/frame/visit.rs")],
 ["Frame::decode over &[u8], Bytes, BytesMut, Chain, VecDeque, custom segmented Buf","Buf::remaining afterwards"])
p("C09","A relay that decodes and re-encodes a frame does not alter it",
 "If a byte sequence decodes to a frame, encoding that frame and decoding the result yields an equal frame, and encoding that again yields the same bytes. For frames from a conforming peer the re-encoded bytes are identical to the original bytes, except that bits the protocol reserves or leaves undefined for that frame type may be normalised.",
 ["inputs"],"every byte sequence the decoder accepts",
 "Tests go encode->decode once from a constructed value; frames that only exist on the wire (extra flags, empty metadata, odd lengths) are never decoded and re-encoded.",
 ALLC+["binate/src/frame/mod.rs","binate/src/frame/visit.rs"],
 [("Decode/Encode pairs",FC)],
 ["Frame::decode","Encode::to_bytes","PartialEq on Frame"])
p("C10","Decoding memory use is bounded by the bytes actually received",
 "Decoding never allocates more than a small constant plus a small multiple of the number of bytes actually supplied, whatever lengths the frame declares. Dropping the result releases everything that was allocated.",
 ["inputs"],"every byte sequence, in particular tiny frames declaring 16 MiB of metadata, 64 KiB tokens or 255-byte MIME types",
 "No test measures allocation or feeds a frame with a false length field.",
 ["binate/src/frame/visit.rs"]+ALLC,
 [("length check precedes copy_to_bytes","binate/src/frame/visit.rs")],
 ["global allocator instrumentation around Frame::decode"])
p("C11","Type codes, flag bits, 24-bit integers and versions map one-to-one",
 "Frame types and their wire codes correspond one-to-one to the RSocket 1.0 table in both directions and every other code is unrecognised; each flag predicate is true exactly when its protocol bit is set. 24-bit integers convert to and from machine integers and bytes without loss and reject anything above 16,777,215. Protocol versions order by major then minor number, consistently with equality, and print as major.minor.",
 ["inputs"],"all 65,536 codes and flag words, all 2^24 24-bit values, all version pairs",
 "Tests check the listed codes once each, one invalid code, and the minimum/maximum of the 24-bit type; flag predicates and version ordering are untested.",
 ["binate/src/frame/flags.rs","binate/src/frame/u24.rs","binate/src/frame/version.rs"],
 [("FrameType tables","binate/src/frame/flags.rs"),("U24","binate/src/frame/u24.rs"),("Ord for Version","binate/src/frame/version.rs")],
 ["FrameType::{from_value,from_bits,value,bits}","Flags::is_*","U24","Version"])
p("C12","A SETUP frame says exactly what its builder was told, in any order of calls",
 "A SETUP frame built through the builder reports exactly the last value given for each parameter, the documented defaults (version 1.0, 30 s keepalive interval, 60 s lifetime, application/binary MIME types, no token, no payload) for the others, and the lease and resume capabilities exactly as requested (supplying a token requests resume). The order of builder calls for different parameters does not matter. A token longer than 65,535 bytes or a MIME type longer than its one-byte length field can express is refused, never silently truncated; a MIME type that is not ASCII is reported as absent.",
 ["inputs","programs"],"every sequence of builder calls with every argument size up to and beyond the limits",
 "One test builds one SETUP frame with one call order and short values; defaults, limits, non-ASCII MIME types and repeated calls are untested.",
 [FC+"setup.rs","binate/src/consts.rs","binate/src/mimetype.rs"],
 [("SetupFrameBuilder",FC+"setup.rs"),("defaults","binate/src/consts.rs")],
 ["SetupFrame getters","wire bytes"])
p("C13","Constructors never let an out-of-range number reach the wire",
 "Whatever numbers are passed to a frame constructor, the resulting frame never carries a value that does not fit its 31- or 63-bit field: in builds with debug assertions out-of-range arguments are refused by panic, in other builds the excess high bits are dropped, and what the frame reports always equals what is written to the wire. In-range values, including the whole application error-code range up to 0xFFFFFFFE, are carried unchanged.",
 ["inputs","configurations"],"every argument value of every constructor, with and without debug assertions",
 "Tests pass small numbers only and run only with debug assertions enabled, so the masking code is never exercised.",
 ALLC,
 [("debug_assert_max_u31/63 and masking",FC)],
 ["frame constructors","getters","Encode::to_bytes"])
p("C14","A frame shows exactly the values it was constructed with",
 "Every accessor of a frame returns exactly what the constructor was given: stream ID, each flag, request counts, positions, versions, time values as durations in milliseconds, error code and data, metadata and data. Metadata and data are never exchanged, merged or dropped, taking the payload out of a frame yields both, and the textual view of error data is present exactly when it is valid UTF-8.",
 ["inputs"],"every constructor of every frame type x every combination of arguments",
 "Accessors are not asserted by any frame test (they only compare whole frames).",
 ALLC,
 [("constructors and getters",FC)],
 ["frame getters"])
p("C15","Values compare equal exactly when they report the same",
 "Two frames, payloads, versions, 24-bit integers or decoding errors that a user constructs compare equal if and only if they are of the same type and everything they report is the same (an absent part differs from an empty one, and the same bytes divided differently between metadata and data differ). Equality is symmetric, != is its negation, a clone equals its original, and frames decoded from the same bytes are equal whatever buffer they came from; decoded frames that compare equal report the same.",
 ["inputs"],"all pairs of constructible values, in particular pairs that differ in one field, one bit, one byte or only in absence against emptiness",
 "Tests compare a handful of equal frames; no test compares two frames that differ.",
 ALLC+["binate/src/frame/mod.rs","binate/src/payload.rs","binate/src/frame/version.rs","binate/src/frame/u24.rs","binate/src/frame/decode.rs"],
 [("PartialEq of Frame, the frame types, Payload, Version, U24, DecodeError","binate/src")],
 ["== and !=","frame getters","Frame::decode"])
p("P01","A payload holds exactly the metadata and data it was given",
 "A payload reports exactly the metadata and data set on its builder (the last call for each wins), distinguishes absent from empty, reports a length equal to the total of both parts, is empty exactly when that is zero, splits into the same two parts, and encodes as metadata followed by data. The textual views succeed exactly when the bytes are valid UTF-8 and return the same text, or the empty string when the part is absent.",
 ["inputs","programs"],"every sequence of builder calls with arbitrary bytes",
 "Two doc examples with short ASCII strings.",
 ["binate/src/payload.rs"],
 [("Payload / PayloadBuilder","binate/src/payload.rs")],
 ["Payload accessors","Encode for Payload"])
p("P02","Splitting a payload into chunks loses, adds and reorders nothing",
 "For any payload and any non-zero chunk size, concatenating the metadata of all chunks in order gives the original metadata, and likewise the data; no chunk carries more than the chunk size of either, chunk i carries the i-th piece of each part, only the last piece of each part is shorter than the chunk size, and no chunk is entirely absent. A part that was absent stays absent and one that was empty stays empty. After the last chunk the iterator stays exhausted.",
 ["inputs"],"every metadata/data length (absent, empty, exact multiples, very large) x every chunk size from 1 to the machine maximum",
 "One smoke test with one chunk size and two short strings.",
 ["binate/src/payload.rs"],
 [("PayloadChunks::next","binate/src/payload.rs")],
 ["Payload::chunks iteration"])
p("P03","The announced number of chunks is the number of chunks delivered",
 "At every point of iterating over the chunks of a payload, the announced remaining length and both bounds of the size hint equal the number of chunks that will actually still be produced, for every payload size and every non-zero chunk size. Skipping, counting or collecting agrees with stepping one by one, and a chunk size of zero is refused.",
 ["inputs","histories"],"every payload length (absent, empty, beyond 2^24 bytes) x every chunk size x every number of chunks already taken",
 "One test with a 20-byte payload checks len() before iteration starts; no large lengths, no empty parts, no size_hint.",
 ["binate/src/payload.rs"],
 [("ExactSizeIterator for PayloadChunks","binate/src/payload.rs")],
 ["PayloadChunks::len","Iterator::size_hint","Iterator::count/nth/last"])
p("P04","Reassembling fragments restores the original payload",
 "If a payload is cut into fragments, the fragments are encoded as request or payload frames of any request type, and the encoded fragments are collected in order, reassembly yields the original metadata and data (empty and absent being equivalent), regardless of fragment size, frame type mix or buffer segmentation. Frames without a payload contribute nothing. If any collected fragment is undecodable, reassembly reports that fragment's decoding error instead of a payload.",
 ["inputs"],"every payload x chunk size x frame-type mix x position of a corrupt fragment",
 "One test reassembles three hand-made frames of one type; no error path, no other frame types.",
 ["binate/src/connection/buf.rs","binate/src/payload.rs","binate/src/frame/visit.rs"],
 [("TryInto<Payload> for BufList","binate/src/connection/buf.rs"),("PayloadChunks","binate/src/payload.rs")],
 ["reassembled Payload"],"cfg(binate_verif) wrapper around the private buffer list")
p("P05","The fragment buffer behaves as the concatenation of its segments",
 "Whatever sequence of pushes, advances, reads and copies is applied, the fragment buffer behaves exactly like one contiguous queue of bytes: same remaining count, same bytes read, same bytes copied, the current chunk always a non-empty prefix of what remains (when any remains), and vectored chunks a faithful prefix in order within the slots given. Requesting more bytes than remain is refused by panic rather than returning wrong bytes.",
 ["inputs","programs"],"every sequence of buffer operations over every segmentation",
 "Four tests on one three-segment buffer with single operations; advance across segments, vectored access and operation sequences are untested.",
 ["binate/src/connection/buf.rs"],
 [("Buf for BufList","binate/src/connection/buf.rs")],
 ["Buf methods"],"cfg(binate_verif) wrapper around the private buffer list")
p("P06","Fragmenting, reassembling and encoding cost memory in proportion to the size",
 "Dividing a payload into chunks, reassembling a payload from its fragments, and encoding a frame allocate, at any moment and in total, at most a fixed amount plus a fixed multiple of the bytes involved and of the number of fragments, whatever the chunk size; once their results are dropped nothing remains allocated.",
 ["inputs"],"all lengths of metadata and data x all chunk sizes from 1 to the largest integer",
 "Allocation is invisible to the tests, and quadratic cost shows only at sizes they do not use.",
 ["binate/src/payload.rs","binate/src/connection/buf.rs","binate/src/frame/mod.rs"],
 [("PayloadChunks","binate/src/payload.rs"),("BufList into Payload","binate/src/connection/buf.rs"),("Encode::to_bytes","binate/src/frame/mod.rs")],
 ["counting global allocator around Payload::chunks, reassembly, Encode"],"cfg(binate_verif) wrapper for the private fragment buffer")
p("S01","Stream IDs are valid, of the right parity, unused, and in cyclic order",
 "A client-side provider issues only odd stream IDs and a server-side provider only even ones; every ID issued is at least 1 and at most 2^31-1, so never the connection's ID 0, including after the numbers wrap around. Each call returns the next ID in increasing cyclic order (starting at 1 or 2) that is not currently in use, skipping only IDs in use.",
 ["histories","inputs"],"every length of allocation history including full wrap-around of the 31-bit space, with any set of IDs in use",
 "Tests take two IDs, skip one occupied ID, and wrap once on the client's odd sequence only; the server sequence never wraps in a test.",
 ["binate/src/connection/stream_id.rs"],
 [("StreamIdProvider::next_stream_id","binate/src/connection/stream_id.rs")],
 ["StreamIdProvider::next_stream_id"],"cfg(binate_verif) constructor starting near the wrap-around",
 [("counter","next candidate stream ID","binate/src/connection/stream_id.rs")])
p("S02","Concurrent requesters never obtain the same stream ID",
 "When any number of threads allocate stream IDs from one shared provider, no two calls return the same ID before the space wraps around, no ID in use throughout the call is returned, no free ID is skipped, and calls ordered in time get IDs in that order. This holds also around the wrap and when IDs in use have to be skipped.",
 ["schedules","histories"],"all interleavings of concurrent allocations with each other and with streams being registered and released",
 "One loom model with three threads, two calls each at most, no assertion on the IDs the threads obtained, and no store changes.",
 ["binate/src/connection/stream_id.rs"],
 [("atomic fetch_add + in-use lookup","binate/src/connection/stream_id.rs")],
 ["IDs returned to each thread, with call/return order"],"cfg(binate_verif) constructor starting near the wrap-around",
 [("counter","next candidate stream ID","binate/src/connection/stream_id.rs")])
p("S03","The request permit counter is linearizable",
 "Under any interleaving of adding permits, taking permits, reading the count and testing for zero from any number of threads, every result is one that some sequential order of the calls, consistent with their order in time, would give. No permit is lost, duplicated or invented, and taking a permit returns the count just before it was taken.",
 ["schedules","histories"],"all interleavings of add, take, read and zero-test by any number of threads, with counts within the protocol range",
 "The counter tests are single-threaded with one call each; thread safety is only asserted as a trait bound.",
 ["binate/src/connection/counter.rs"],
 [("SeqCst atomic updates","binate/src/connection/counter.rs")],
 ["RequestCounter calls and returns"],None,
 [("count","outstanding permits","binate/src/connection/counter.rs")])
p("S04","Adding request permits never lowers the permit count",
 "Adding permits to a counter holding a non-negative count never decreases it: the count grows by exactly the number added until it reaches the protocol maximum of 2^31-1 and stays there instead of wrapping to a negative count. A new counter holds exactly the initial count given, for every 31-bit value, and reports zero exactly when the count is zero. When several threads add at once, no thread sees the count fall, and in the end exactly what all of them added is there, up to the maximum.",
 ["inputs","histories","schedules"],"every initial 31-bit count x every sequence of additions of 31-bit amounts, interleaved with taking permits, or from several threads",
 "One test adds 8 to 42.",
 ["binate/src/connection/counter.rs"],
 [("RequestCounter::add","binate/src/connection/counter.rs")],
 ["RequestCounter::{new,add,dec,load,is_zero}"])
p("R01","A fire-and-forget request is sent completely on one fresh stream",
 "A successful fire-and-forget call hands the connection a non-empty sequence of frames that all carry one stream ID of the right parity that is not in use, of which all but the last are marked as followed by more, whose parts never exceed the configured fragment size, and which reassemble to exactly the payload given. Without a fragment size exactly one frame is sent. This holds for empty payloads, absent parts and sizes that divide evenly.",
 ["inputs","configurations"],"every payload x every fragment size (or none) x role x set of streams in use",
 "The requester has no tests at all.",
 ["binate/src/connection/socket.rs","binate/src/payload.rs","binate/src/connection/stream_id.rs"],
 [("RSocketMachine::fire_and_forget","binate/src/connection/socket.rs")],
 ["frames handed to the DuplexConnection"],"cfg(binate_verif) constructor/setters for the private socket type")
p("R02","A failed send is reported and stops that request",
 "If the connection refuses any frame of a fire-and-forget request, the call returns that same error and hands no further frame of that request to the connection; if no frame is refused the call succeeds. A failed request, even one in which the connection panics, does not affect later requests: they use fresh stream IDs and are sent in full.",
 ["fault_sequences","inputs"],"every position at which a send fails, for every fragment count, followed by further requests",
 "The requester has no tests, and no test injects a failing connection.",
 ["binate/src/connection/socket.rs"],
 [("error propagation in fire_and_forget","binate/src/connection/socket.rs")],
 ["call result and frames handed to a faulty DuplexConnection"],"cfg(binate_verif) constructor/setters for the private socket type")
p("R03","Concurrent requests over one connection never mix",
 "When any number of threads issue fire-and-forget requests and metadata pushes through one socket or its clones, every request appears on its own stream ID exactly once, its fragments appear in order, and each stream reassembles to exactly the payload of one request. The same holds for requests and pushes issued from within the connection, while it takes a frame of another request. Nothing is lost, duplicated, stuck or attributed to another stream, whatever the interleaving and whichever requests fail, or have the connection panic.",
 ["schedules","fault_sequences"],"all interleavings and nestings of requests over shared and cloned sockets, with injected send failures",
 "No test sends anything through the socket, concurrently or otherwise.",
 ["binate/src/connection/socket.rs","binate/src/connection/stream_id.rs"],
 [("shared StreamIdProvider across clones","binate/src/connection/socket.rs")],
 ["event log of a recording DuplexConnection"],"cfg(binate_verif) constructor/setters for the private socket type")
p("R04","Metadata push sends exactly the given bytes once and passes on the outcome",
 "A metadata push hands the connection exactly one METADATA_PUSH frame carrying exactly the given bytes, consumes no stream ID, and completes with exactly the connection's outcome: success, or the same error, neither before the connection's send does nor without waking the task that polled it last. A push that is dropped before it is over affects no other.",
 ["inputs","fault_sequences"],"every metadata byte string, every connection outcome, immediate or delayed, every order of polls by several tasks and drops, interleaved with other requests",
 "No test calls metadata push.",
 ["binate/src/connection/socket.rs",FC+"metadata_push.rs"],
 [("RSocketMachine::metadata_push","binate/src/connection/socket.rs")],
 ["frames handed to the DuplexConnection, result of the returned future"],"cfg(binate_verif) constructor for the private socket type")
p("R05","A silent peer gets the connection closed after the keepalive timeout",
 "If no keepalive arrives, the connection is closed exactly once, not before the configured keepalive timeout has elapsed and no later than twice that timeout (plus scheduling granularity), and the timeout is reported once. This holds for every positive timeout and regardless of other activity on the socket.",
 ["configurations","schedules"],"every timeout value (virtual time), both roles, with concurrent sends and status changes",
 "No test constructs a socket or advances time.",
 ["binate/src/connection/socket.rs"],
 [("keepalive task in RSocketMachine::new","binate/src/connection/socket.rs")],
 ["DuplexConnection::close calls against virtual time; error reports"],"cfg(binate_verif) constructor for the private socket type")
p("R06","Every connection failure is reported exactly once, without busy polling",
 "The socket observes the connection's status through a single subscription: each closed or failed status the connection publishes is reported exactly once, in order and with its message, other statuses are not reported as errors, and observation ends when the status stream ends. While the connection publishes nothing the observer does no work.",
 ["histories","schedules"],"every sequence of status changes, with arbitrary delays between them",
 "No test constructs a socket.",
 ["binate/src/connection/socket.rs","binate/src/connection/conn.rs"],
 [("status listener task in RSocketMachine::new","binate/src/connection/socket.rs")],
 ["connection_status subscriptions and polls; error events emitted"],"cfg(binate_verif) constructor for the private socket type")
p("R07","Sockets in one process are independent of each other",
 "Any number of sockets may live in one process, on the same or different runtimes and threads. Each behaves as if it were alone: its stream IDs start afresh and advance with its own requests only, its frames go to its own connection only, and failures, timeouts, status reports, closing and requests in flight of one socket neither delay, suppress, duplicate nor alter those of another.",
 ["histories","schedules","configurations"],"every combination of lives of two sockets (roles, requests, refusals, pushes, statuses, timeouts, drops), and many sockets at once or one after another",
 "No test constructs a socket, let alone two.",
 ["binate/src/connection/socket.rs","binate/src/connection/stream_id.rs","binate/src/connection/counter.rs"],
 [("all state behind one RSocketMachine's Arcs, no statics","binate/src/connection/socket.rs")],
 ["frames, closes, statuses per recording DuplexConnection; error events per socket"],"cfg(binate_verif) constructor for the private socket type")
p("R08","A connection is closed only by a call of close or the keepalive timeout",
 "Each call of close, on a socket or any of its clones and on any thread, asks that socket's connection to close exactly once before it returns. Apart from the one keepalive timeout nothing else closes a connection: no refused frame, failed push, reported status, dropped clone or call on another socket. Requests and pushes made after a call of close are still handed to the connection in full, on fresh stream IDs, and report what the connection says.",
 ["histories","schedules"],"every sequence of closes, clones, drops, requests, refusals, pushes, statuses and pauses on one socket, and closes from many threads",
 "No test constructs a socket.",
 ["binate/src/connection/socket.rs","binate/src/connection/conn.rs"],
 [("RSocketMachine::close, handle_connection_error, handle_error","binate/src/connection/socket.rs")],
 ["DuplexConnection::close calls and frames of a recording connection"],"cfg(binate_verif) constructor for the private socket type")
p("E01","Errors classify themselves consistently and keep their cause",
 "Every protocol error answers yes to exactly its own specific predicate, to the general protocol predicate, and to the setup predicate exactly if it is one of the three setup errors; decoding errors answer yes only to the decode predicate and I/O errors to none of these. The printed form names the error's own protocol name and code (or its category) followed by the cause when there is one, the cause remains retrievable, and public error codes have the protocol's numeric values.",
 ["inputs"],"every error kind x with and without cause x arbitrary cause texts; every decoding error and I/O error kind",
 "Tests check the size, thread-safety and one decode conversion; no predicate or printed form is tested.",
 ["binate/src/error.rs","binate/src/frame/decode.rs"],
 [("Error predicates and description","binate/src/error.rs")],
 ["Error::is_*","Display","Error::source","Code as u32"],"cfg(binate_verif) constructor for protocol errors")
p("M01","Well-known MIME types and their names convert both ways",
 "Each well-known MIME type converts to its registered name and that name converts back to the same type; no two types share a name. Any other string converts to the unparseable marker, which converts to the empty string. Every conversion terminates.",
 ["inputs"],"all well-known types and all strings, in particular near misses of registered names",
 "The single test converts one unknown string; no known type is ever converted to its name.",
 ["binate/src/mimetype.rs"],
 [("From impls for WellKnownMimeType","binate/src/mimetype.rs")],
 ["From<&str>","From<WellKnownMimeType> for &str"])
p("U01","No memory error, data race or leak under any workload",
 "Encoding, decoding, fragmenting, reassembling, allocating stream IDs, counting permits and sending requests, alone or from many threads, performs no undefined behaviour: no out-of-bounds or use-after-free access, no uninitialised read, no data race; also where several threads are the first in the process to use the same thing, at once, and the results are then those it gives later. Everything allocated for a frame or request is released when its last handle is dropped.",
 ["inputs","schedules"],"the workloads of all other properties, under address and thread sanitizers and an undefined-behaviour interpreter",
 "The ordinary test run is not instrumented and would not notice a race or an invalid access.",
 ["binate/src/frame/visit.rs","binate/src/connection/buf.rs","binate/src/connection/stream_id.rs","binate/src/connection/counter.rs","binate/src/connection/socket.rs","binate/src/payload.rs"],
 [("safe Rust throughout; Bytes and DashMap for sharing","binate/src")],
 ["ASan, TSan and Miri reports; allocator balance"],"cfg(binate_verif) wrappers for private types")
p("X01","Frames, fragments and stream IDs are the same on every kind of machine",
 "What frames encode to, what decoding reports, how payloads are divided and reassembled, and which stream IDs and permit counts come about does not depend on the machine: on machines of either byte order, and with words of 32 or 64 bits, the properties of frames, payloads, identifiers and requests hold alike, within what such a machine's memory holds.",
 ["inputs"],"inputs of the properties C01-C15, P01-P05, S01, S04, R01, R04 and E01 x a big-endian machine of 64 bits and a little-endian one of 32 bits",
 "Tests run on the machine at hand, where a native byte order or a 64-bit integer cut to the word size looks right.",
 ["binate/src/frame/mod.rs","binate/src/frame/u24.rs","binate/src/payload.rs","binate/src/connection/buf.rs"],
 [("Encode, Decode","binate/src/frame"),("PayloadChunks","binate/src/payload.rs"),("fragment buffer","binate/src/connection/buf.rs")],
 ["the oracles of those properties, inside an interpreter of such a machine"],"cfg(binate_verif) wrappers for private types")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
