import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)
V="spop/src/data/varint.rs";B="spop/src/data/buf.rs";T="spop/src/data/typed.rs";TY="spop/src/data/ty.rs"
D="spop/src/frame/decode.rs";E="spop/src/frame/encode.rs";MD="spop/src/frame/metadata.rs";FT="spop/src/frame/ty.rs"
H="--cfg haproxy_verif re-exports the private data/frame items"
p("C01","A varint is encoded as exactly the bytes of the protocol",
 "Writing any 64-bit unsigned integer as a varint appends exactly the peers-encoding byte sequence of that value, between 1 and 10 bytes, and nothing else. The number of bytes reported by the writer equals the number appended, and the size predictor returns the same number without writing.",
 ["inputs"],"every u64 value, every destination buffer content",
 "The test encodes 12 hand-picked values; the ten size classes have 2^64 values and nine boundaries.",
 [V],[("put","data::varint::put"),("size_of","data::varint::size_of")],observe=["varint::put","varint::size_of"])
p("C02","Reading a varint inverts writing it and consumes exactly its bytes",
 "Whatever follows in the input, reading a varint back returns the value that was written and consumes exactly the bytes the writer produced. Conversely, the bytes consumed by any successful read are exactly the bytes the writer produces for the returned value, so the encoding is a bijection.",
 ["inputs"],"every u64 value followed by every byte sequence; every byte sequence that reads successfully",
 "The test reads back 12 values with nothing behind them.",
 [V,B],[("get","data::varint::get"),("put","data::varint::put")],observe=["varint::get"])
p("C03","Truncated or oversized varints are rejected without a panic",
 "Reading a varint from an input that ends before the last byte of the varint, or whose value would not fit in 64 bits, reports failure. It never panics, never overflows and never returns a number.",
 ["inputs"],"every byte sequence",
 "No test gives a truncated or an oversized varint.",
 [V],[("get","data::varint::get")],observe=["varint::get"])
p("C04","A typed value decodes to itself and reports its exact size",
 "For every typed value, decoding its encoding followed by any bytes returns an equal value and consumes exactly the encoding. The writer reports exactly the number of bytes it appended.",
 ["inputs"],"every typed value of the ten types, every trailing byte sequence",
 "The test covers one value per type with nothing behind it.",
 [B,T,TY],[("typed writer","data::buf put_typed"),("typed reader","data::buf typed_data")],observe=["wire bytes","decoded value"],hook=H)
p("C05","Typed data has the wire layout of the protocol",
 "The low four bits of the first byte hold the type id (0 null, 1 boolean, 2 int32, 3 uint32, 4 int64, 5 uint64, 6 IPv4, 7 IPv6, 8 string, 9 binary) and the high bits the flags, where only 0x10 on a boolean means anything. Integers follow as varints of the value sign-extended to 64 bits, addresses as their 4 or 16 bytes in network order, strings and binaries as a varint length and the bytes. Reserved type ids 10 to 15 are rejected, and reading ignores flag bits that have no meaning.",
 ["inputs"],"every typed value; every first byte and every following byte sequence",
 "The test looks at one encoding per type, no negative number and no reserved id.",
 [B,TY,T],[("type byte","data::buf typed_data_type"),("writer","data::buf put_typed"),("type ids","data::ty::Type")],observe=["wire bytes"],hook=H)
p("C06","Length-prefixed fields never read past the input; strings are UTF-8",
 "A string or binary whose declared length, anywhere up to 2^64-1, exceeds the bytes that remain is rejected, and never panics or yields bytes that were not in the input. An accepted string or binary is exactly the declared number of following bytes, and a string is accepted only when they are valid UTF-8.",
 ["inputs"],"every declared length and every byte sequence behind it",
 "No test has a wrong length or invalid UTF-8.",
 [B],[("bounded read","data::buf get_bytes"),("string reader","data::buf string")],observe=["decoded value"],hook=H)
p("C07","Actions decode to themselves and ill-formed actions are rejected",
 "Every action survives encoding and decoding with its scope, name and value, in exactly the protocol's form: action id (1 set, 2 unset), argument count (3 or 2), scope id (0 process to 4 response), name, value. An action with an unknown id, a wrong argument count or an unknown scope is rejected.",
 ["inputs"],"every action; every triple of action id, count and scope bytes",
 "The tests round-trip two actions and reject none.",
 [D,E,"spop/src/action.rs"],[("action writer","frame::encode::action"),("action reader","frame::decode::action")],observe=["wire bytes","ACK payload"],hook=H)
p("C08","Messages keep their name and every argument in order",
 "A list of messages, each with at most 255 arguments, survives encoding and decoding: same messages in the same order, same names, same arguments with the same names and values in the same order, duplicates included. Each message is its name, one byte with the number of arguments, then that many name/value pairs, and decoding takes exactly that many.",
 ["inputs"],"every list of messages, every argument list of length 0 to 255",
 "The test has one NOTIFY with two messages of two arguments each.",
 [D,E,"spop/src/frame/msg.rs"],[("message writer","frame::encode::haproxy_notify"),("message reader","frame::decode::message")],observe=["NOTIFY payload"],hook=H)
p("C09","Every frame decodes to itself",
 "Every frame that can be sent, with a non-zero frame id on NOTIFY and ACK, lists of at most 255 arguments and a non-empty list of versions, decodes from its encoding to an equal frame: fields, lists, flags and ids are identical. The encoding is a function of the frame alone.",
 ["inputs"],"every frame of the seven types",
 "The test has one frame of each of six types.",
 [D,E,"spop/src/frame/kv.rs"],[("frame writer","frame::encode::frame"),("frame reader","frame::decode::frame")],observe=["wire bytes"],hook=H)
p("C10","Frames with a bad type, or ids their type does not allow, are refused",
 "A frame is accepted only if its type byte is 1, 2, 3, 101, 102 or 103, its stream and frame ids are both zero for HELLO and DISCONNECT, and its frame id is non-zero for NOTIFY and ACK; the decoded frame has the type and the ids on the wire. Anything else is reported as an invalid frame.",
 ["inputs"],"every type byte, every stream id and frame id, every payload",
 "The tests decode six well-formed headers.",
 [D,FT],[("header check","frame::decode::frame"),("type ids","frame::ty::Type")],observe=["decoded frame"],hook=H)
p("C11","The frame decoder is total: any bytes give a frame or an error",
 "Decoding any byte sequence as a frame terminates with a frame or an error status; it never panics, never overflows and never reads outside the sequence.",
 ["inputs"],"every finite byte sequence",
 "The tests decode well-formed frames only.",
 [D,B,V],[("frame reader","frame::decode::frame")],observe=["decoded frame"],hook=H)
p("C12","A malformed payload is rejected as a whole, never shortened",
 "When any part of a frame's payload (a key-value entry, a message, an argument, an action) is malformed or cut short, the whole frame is rejected. An accepted frame accounts for every byte of its payload, so no entry is dropped silently.",
 ["inputs"],"every byte sequence, in particular every proper prefix and every single-byte change of an encoded frame",
 "The tests decode complete, well-formed frames only.",
 [D,B],[("lists","frame::decode list readers"),("key-value lists","data::buf kv_list")],observe=["decoded frame"],hook=H)
p("C13","HELLO frames need their mandatory entries and parse their lists",
 "A HAPROXY-HELLO needs supported-versions, max-frame-size and capabilities, and an AGENT-HELLO needs version, max-frame-size and capabilities; a missing or wrongly typed entry is refused with the status for that entry, entries may come in any order and unknown ones are ignored. Version and capability lists are comma separated with optional spaces, an empty capability list means none, and an unreadable version or capability is refused. The decoded values are those on the wire; health check and engine id are optional.",
 ["inputs"],"every key-value list",
 "The test decodes one HELLO of each direction with every entry present.",
 [D,"spop/src/frame/kv.rs","spop/src/caps.rs","spop/src/version.rs"],[("hello readers","frame::decode::haproxy_hello, agent_hello"),("entry lookup","frame::decode::KVList")],observe=["decoded frame","status"],hook=H)
p("C14","Frame flags on the wire are exactly final and aborted",
 "The 32-bit big-endian flags word of every frame written has bit 0 set exactly when the frame is not fragmented and bit 1 set exactly when it is an aborted ACK, with every other bit zero. On reading, fragmented and aborted are exactly those two bits whatever the other bits are, and the predicted header size equals the bytes written for flags and ids.",
 ["inputs"],"every frame, every flags word, every pair of ids",
 "The tests use three flag words and never the size.",
 [MD,D,E,"spop/src/frame/agent.rs","spop/src/frame/haproxy.rs"],[("metadata","frame::metadata::Metadata"),("writer","frame::encode::metadata")],observe=["wire bytes"],hook=H)
p("C15","Frames on a stream are length-prefixed and read back in order",
 "Writing a frame puts a 4-byte big-endian length and exactly that many bytes of frame on the stream, all of them, and reports their number. Reading takes exactly one frame off the stream however the bytes arrive, so any sequence of frames written is read back equal and in order, and a stream that ends inside a frame gives an I/O error.",
 ["inputs","schedules","fault_sequences"],"every sequence of frames, every chunking of the bytes, every truncation point",
 "No test reads from or writes to a stream.",
 ["spop/src/frame/framer.rs","spop/src/frame/codec.rs"],[("framer","frame::framer::Framer"),("codec","frame::codec::Codec")],observe=["stream bytes"])
p("C16","No frame above the negotiated size is accepted or sent",
 "A frame longer than the current maximum is refused on reading, before its content is awaited or stored, and on writing, before any byte of it is written; a frame of exactly the maximum passes both. Once the handshake is done the limit of the connection is the negotiated one.",
 ["inputs","configurations"],"every maximum, every declared length, every frame, every pair of configured and offered sizes",
 "No test has a size limit.",
 ["spop/src/frame/framer.rs","spoa/src/conn.rs"],[("read limit","frame::framer::Framer::read_frame"),("write limit","frame::framer::Framer::write_frame"),("negotiated limit","Connection::serve")],observe=["stream bytes","status"])
p("C17","Fragments are reassembled per stream and frame, in order",
 "For every interleaving of fragments of different streams and frames, the final fragment yields exactly the concatenation, in arrival order, of the contents of all fragments with the same stream id and frame id since that pair was last completed, and a non-final fragment yields nothing. Completing a pair forgets it and leaves every other pair untouched.",
 ["histories","inputs"],"every sequence of fragments over every set of ids",
 "No test reassembles anything.",
 ["spop/src/frame/fragment.rs"],[("table","frame::fragment::Table::reassemble")],state=[("pending fragments","contents received so far per (stream, frame)","Table")],observe=["Reassembly::reassemble"])
p("C18","The handshake picks the best common terms",
 "The negotiated version is the highest version both sides support, in any order and with duplicates, and negotiation fails with the no-version status when there is none. The negotiated size is the smaller of the two, the negotiated capabilities are exactly those both sides have, and the AGENT-HELLO announces exactly these terms.",
 ["inputs","configurations"],"every pair of version lists, sizes and capability lists",
 "No test negotiates.",
 ["spoa/src/state/handshake.rs","spoa/src/state/connect.rs"],[("negotiate","state::handshake::negotiate"),("announce","Negotiated::agent_hello")],observe=["AGENT-HELLO"])
p("C19","A connection starts with a handshake, and a health check ends it",
 "Nothing but a HAPROXY-HELLO is accepted as the first frame and nothing is processed before it; anything else is answered by a DISCONNECT with the invalid status. A health-check HELLO is answered by an AGENT-HELLO after which the agent reads nothing more and creates no service; any other HELLO is answered by an AGENT-HELLO and opens the connection for NOTIFY frames, and a second HELLO is refused.",
 ["histories","inputs"],"every sequence of frames received on a connection",
 "No test opens a connection.",
 ["spoa/src/state/connect.rs","spoa/src/state/state.rs","spoa/src/conn.rs"],[("connecting","state::connect::Connecting::handle_frame"),("session loop","Connection::serve")],state=[("connection state","connecting, processing or disconnecting","State")],observe=["frames written","service created"])
p("C20","Every complete NOTIFY gets one ACK with its ids and actions",
 "After the handshake each complete NOTIFY is answered, in order, by exactly one final, non-aborted ACK with the same stream id and frame id, whose actions are exactly those the service returned when called once with exactly the messages of that NOTIFY. A non-final fragment gets no answer and calls nothing, its messages come first when the final fragment is processed, and a fragment is refused when fragmentation was not negotiated. The service is called only after it said it is ready.",
 ["histories","inputs"],"every sequence of NOTIFY frames, whole or fragmented, every service answer",
 "No test processes a NOTIFY.",
 ["spoa/src/state/process.rs","spoa/src/conn.rs","spop/src/frame/frames.rs"],[("processing","state::process::Processing::handle_frame"),("ack","Frame::ack")],observe=["frames written","service calls"])
p("C21","An error ends the connection with one DISCONNECT that tells why",
 "When a received frame is invalid, too big or unexpected, a fragment is not allowed, the service fails or takes longer than the configured time, the agent writes exactly one AGENT-DISCONNECT with the status code of that error, writes nothing after it and processes nothing more. When the stream itself is broken it just ends with an I/O error, and a HAPROXY-DISCONNECT is answered by an AGENT-DISCONNECT with the normal status.",
 ["histories","inputs","fault_sequences"],"every sequence of received frames with an error at any point",
 "No test makes a connection fail.",
 ["spoa/src/conn.rs","spoa/src/state/process.rs","spoa/src/error.rs"],[("session loop","Connection::serve"),("failure report","Connection::fail"),("status of an error","From<Error> for Disconnect")],observe=["frames written","result of serve"])
p("C22","Status codes are those of the protocol and survive error wrapping",
 "Each error status has the numeric code of the protocol, 0 normal to 13 resource allocation and 99 unknown; converting a code to a status and back is the identity on those codes and every other code is refused. However many contexts wrap a status, the reported status and the code in the DISCONNECT are that status, and an error without a status is reported as unknown.",
 ["inputs"],"every 32-bit code, every status, every nesting depth of contexts",
 "No test converts a code.",
 ["spop/src/error.rs","spoa/src/error.rs","spop/src/frame/disconnect.rs"],[("codes","spop Error"),("status","spoa Error::status"),("disconnect","From<Error> for Disconnect")],observe=["status_code"])
p("C23","An acknowledgement handle sends exactly one ACK",
 "However it is used, a handle for acknowledging a frame delivers at most one ACK, with the ids it was made with and exactly the actions recorded in order before it was sent, marked aborted exactly when it was aborted; dropping it unsent delivers it unaborted. Completing or aborting again, or when nobody waits, reports that it is closed and has no other effect.",
 ["histories"],"every sequence of record, complete, abort and drop operations",
 "No test uses the handle.",
 ["spoa/src/runtime/acker.rs"],[("acker","runtime::Acker")],state=[("pending ack","the ACK not sent yet","Acker")],observe=["received ACK","result"])
p("C24","The dispatcher delivers every message to the right receiver, once",
 "For every interleaving of NOTIFY fragments, the first fragment of a stream and frame pair opens one receiver with one handle, later fragments feed the same receiver, and the final one closes the pair, so the next NOTIFY with these ids opens a new one. Each receiver gets exactly the messages of its own fragments, in order, and only the first fragment returns a pending ACK.",
 ["histories"],"every sequence of fragments over every set of ids",
 "No test uses the dispatcher.",
 ["spoa/src/runtime/dispatch.rs"],[("dispatch","runtime::Dispatcher::recieve_messages")],state=[("open receivers","sender per (stream, frame)","Dispatcher")],observe=["messages received","pending ACK"])
p("C25","A binary header block decodes to exactly its headers",
 "Decoding a header block, pairs of varint-length-prefixed strings ended by two empty ones, gives every header with every one of its values in order, for any length of name and value that fits the block. Bytes after the end mark are left alone, a name or value that HTTP does not allow is an error, so are more headers than a header map can hold (24576 of different names), and no input makes it panic or read past its end.",
 ["inputs"],"every list of headers, every byte sequence",
 "No test decodes a header block.",
 ["spoa/src/req.rs"],[("decoder","req::hdrs_bin")],observe=["HeaderMap"])
p("C26","The processor streams deliver everything and wake their reader",
 "The stream of frames to process and the stream of messages of a frame yield every item sent, in order, and end when the senders are gone. A stream that reports it has nothing yet has arranged for the polling task to be woken by the next item or by the end.",
 ["schedules","histories"],"every interleaving of sends, polls and closing",
 "No test polls these streams.",
 ["spoa/src/runtime/processor.rs"],[("streams","runtime::processor poll_next")],observe=["items","wake-ups"])
p("C27","The runtime is configured as asked, with the documented defaults",
 "A built runtime has exactly the versions and capabilities that were added, the size and the processing time last set; without any it supports version 2.0 only, no capability, frames of 16384 bytes and 15 seconds. A new connection uses that size until the handshake.",
 ["configurations"],"every sequence of builder calls",
 "No test builds a runtime.",
 ["spoa/src/runtime/builder.rs","spoa/src/runtime/runtime.rs","spoa/src/conn.rs"],[("builder","runtime::Builder")],observe=["Runtime fields","AGENT-HELLO"])
p("C28","Ready-made frame handlers accept only their frame and report the rest",
 "The NOTIFY handler yields exactly the messages of a NOTIFY and the ACK handler exactly the actions of an ACK; the peer's DISCONNECT is reported with its status, or unknown when the code is not one of the protocol, and every other frame as invalid. The reassembling handlers do the same over fragments, a DISCONNECT ending them with the normal status.",
 ["inputs","histories"],"every frame, every status code",
 "The tests give three frames to each of two handlers.",
 ["spop/src/handler.rs","spop/src/frame/fragment.rs"],[("handlers","handler::notify_handler, ack_handler"),("reassembly","AsyncHandler for Reassembly")],observe=["handler result"])
p("C29","Constructors and conversions keep exactly what they are given",
 "Converting a Rust value into typed data keeps its type and value, and building messages, actions, NOTIFY, ACK and DISCONNECT frames keeps names, values, ids, codes and the order of lists, unfragmented and unaborted. The reported type and ids of a frame are its own.",
 ["inputs"],"every value of every convertible type, every list",
 "The tests build a handful of frames from literals.",
 [T,"spop/src/frame/msg.rs","spop/src/action.rs","spop/src/frame/frames.rs","spop/src/frame/agent.rs","spop/src/frame/disconnect.rs"],[("conversions","From impls of Typed"),("builders","Message, Action, Frame constructors")],observe=["values"])
p("C30","DISCONNECT frames carry their status code and message",
 "A DISCONNECT written with any 32-bit status code and any message reads back with the same code and message, in either direction. On reading, the code may be of any integer type, a missing code counts as 0 and a missing message as empty.",
 ["inputs"],"every code, every message, every key-value list",
 "The test decodes one DISCONNECT per direction.",
 [D,E,"spop/src/frame/kv.rs"],[("reader","frame::decode::disconnect"),("writer","frame::encode::disconnect")],observe=["decoded frame"],hook=H)
p("C31","Shutting down waits for the open connections",
 "Once a serving call has seen that shutdown was asked for, it takes no further connection, and every serving call returns only after every connection that the agent took has ended; each connection is told to end.",
 ["schedules"],"every interleaving of accepts, connections ending, the shutdown request and several serving calls",
 "No test starts an agent.",
 ["spoa/src/agent.rs"],[("serve loop","Agent::serve")],observe=["return of serve"])
p("C32","Sharing a reassembly table between tasks is atomic per fragment",
 "When several tasks give fragments to one reassembly table that they share, every call has its effect at one moment: the results and what stays in the table are those of some sequential order of the calls.",
 ["schedules"],"every interleaving of concurrent calls, of any number of tasks",
 "No test shares a table.",
 ["spop/src/frame/fragment.rs"],[("table","frame::fragment::Table")],observe=["Reassembly::reassemble"])
p("C33","A connection that fails harms no other",
 "A connection that fails - its peer breaks the protocol or vanishes, its service fails, it cannot be accepted for the moment - neither ends nor shuts down the agent: other connections are served on, and new ones are taken.",
 ["schedules","faults"],"every way in which a connection can fail, at any moment, beside any others",
 "No test starts an agent.",
 ["spoa/src/agent.rs","spoa/src/conn.rs"],[("serve loop","Agent::serve"),("token of a connection","Connection::serve")],observe=["frames on other connections","return of serve"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
