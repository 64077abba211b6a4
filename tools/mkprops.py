import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
                 "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(obs),"hook_needed":None}})
APP='bnl/http3/app/endpoint/'
H='bnl/http3/'
SRC=H+'src/'
p("C01","Variable-length integers encode minimally and round-trip",
  "Every integer below 2^62 is encoded in the shortest of the 1/2/4/8-byte QUIC forms, in network byte order with the right length prefix, in exactly the number of bytes the size query announces, and decodes back to itself consuming exactly those bytes. Any integer of 2^62 or more is refused with an overflow error by the size query and by both encoders. Any well-formed encoding, minimal or not, decodes to the value it denotes, from a contiguous buffer, a chain of buffers or a look-ahead over either.",
  ["inputs"],"all 2^64 integers and all byte strings in all segmentations into buffers",
  "test/varint.cpp checks a handful of values around the size boundaries on contiguous buffers only; the property is over all values, all byte strings and all segmentations.",
  [SRC+'codec/varint/encode.cpp',SRC+'codec/varint/decode.cpp',H+'include/bnl/http3/codec/varint.hpp'],
  [("encoded_size thresholds and uintN_encode",SRC+'codec/varint/encode.cpp'),("header bits select the size, lookahead then consume",SRC+'codec/varint/decode.cpp')],
  obs=["varint::encoded_size","varint::encode (raw and buffer)","varint::decode"])
p("C02","Every representable HTTP/3 frame round-trips exactly",
  "Every frame of each of the nine types whose fields fit is encoded into exactly the number of bytes announced by the size query, with the type, length and fields in the wire layout of the protocol, and decodes back to an equal frame, consuming exactly those bytes and leaving whatever follows untouched. Two frames compare equal exactly when their type and all their fields are equal. A frame with any field, or a total payload, that cannot be expressed as a variable-length integer is refused with an overflow error and never encoded as something else.",
  ["inputs"],"all frame values of all nine types, including extreme 64-bit field values",
  "test/frame.cpp round-trips one value per type; field extremes, combinations of settings, byte layout and payload-size overflow are not covered.",
  [SRC+'codec/frame/encode.cpp',SRC+'codec/frame/decode.cpp',SRC+'codec/frame/frame.cpp','bnl/base/src/http3/settings.cpp'],
  [("payload_size / encoded_size / encode",SRC+'codec/frame/encode.cpp'),("decode_single",SRC+'codec/frame/decode.cpp'),("operator==",SRC+'codec/frame/frame.cpp')],
  obs=["frame::encoded_size","frame::encode","frame::decode","operator=="])
p("C03","Frame decoding of arbitrary bytes is exact; unknown frames are skipped",
  "For any byte string, decoding returns the first frame of a known type: frames of unknown type are skipped entirely (type, length and payload), unknown settings are ignored and, for a repeated setting, the last value wins. A complete known frame whose fields do not exactly fill its declared length is reported as malformed without being consumed. Peeking never consumes anything and reports the type of the same frame a decode would return next, never one found inside the payload of a skipped frame.",
  ["inputs"],"all byte strings, including greased/unknown frames in any position and every mismatch between declared and actual length",
  "tests decode only frames produced by the encoder plus one with a mangled length; unknown frames, peek and multi-frame strings are never exercised.",
  [SRC+'codec/frame/decode.cpp'],
  [("decode_single default branch + decode loop",SRC+'codec/frame/decode.cpp'),("peek loop",SRC+'codec/frame/decode.cpp'),("actual vs payload size check",SRC+'codec/frame/decode.cpp')],
  obs=["frame::peek","frame::decode","remaining input after each call"])
p("C04","Decoders are all-or-nothing and independent of segmentation",
  "A varint, frame, prefix-integer, string-literal, Huffman or header decoder given only part of an item reports it as incomplete and consumes none of that item (a header decoder may already have consumed the two-byte block prefix, and a frame decoder complete unknown frames), so that decoding the same input again once the rest arrived gives the same result as if it had all been there at once. The result, the number of bytes consumed and the error are the same whether the bytes lie in one buffer, in a chain of buffers cut anywhere (including empty buffers), or behind a look-ahead. A look-ahead never changes the underlying bytes and counts exactly the bytes consumed through it.",
  ["inputs","histories"],"all items, all cut points, all segmentations, both sequence kinds and their look-aheads",
  "tests cut one frame, one huffman string and one header at a single point in a contiguous buffer; chains and look-aheads are not covered.",
  [SRC+'codec/varint/decode.cpp',SRC+'codec/frame/decode.cpp',SRC+'codec/qpack/prefix_int/decode.cpp',SRC+'codec/qpack/literal/decode.cpp',SRC+'codec/qpack/huffman/decode.cpp',SRC+'codec/qpack/decode.cpp','bnl/base/src/base/buffer.cpp','bnl/base/src/base/buffers.cpp'],
  [("lookahead_type copy, consume(lookahead.consumed())",'all decode templates'),("lookahead position_/previous_",'bnl/base/src/base/buffer.cpp, buffers.cpp')],
  obs=["return value and remaining size of each decode call"])
p("C05","QPACK prefix integers round-trip over the full 64-bit range",
  "For every prefix width used by the codec (and any width from 1 to 7) and every 64-bit value, encoding produces the announced number of bytes in the prefix-integer form of HPACK/QPACK, preserves the bits above the prefix in the first byte, and decodes back to the value. Decoding any byte string either yields the exact value it denotes, reports it incomplete, or rejects a value that does not fit in 64 bits (or more digits than any 64-bit value needs) as a decompression failure; it never yields a truncated or wrapped value.",
  ["inputs"],"all prefixes 1..7, all 64-bit values, all byte strings including over-long encodings",
  "no test exercises prefix integers directly; header tests only reach values below a few hundred.",
  [SRC+'codec/qpack/prefix_int/encode.cpp',SRC+'codec/qpack/prefix_int/decode.cpp'],
  [("division by 128 loop",SRC+'codec/qpack/prefix_int/encode.cpp'),("offset/shift loop",SRC+'codec/qpack/prefix_int/decode.cpp')],
  obs=["prefix_int::encoded_size","prefix_int::encode","prefix_int::decode"])
p("C06","Huffman coding is the exact HPACK code",
  "Every byte string is encoded to exactly the bit string of the HPACK/QPACK Huffman code padded with ones to a byte boundary, in the announced number of bytes, and decodes back to itself. A bit string decodes exactly when it is a sequence of complete codes followed by at most seven one bits that are a proper prefix of the end-of-string code; everything else (other padding, a full byte of padding, the end-of-string code itself) is rejected as a decompression failure and consumes nothing.",
  ["inputs"],"all byte strings over all 256 symbols (encoding) and all byte strings (decoding)",
  "test/huffman.cpp uses alphanumeric strings of length 20 only, i.e. codes of 5-8 bits, and never an invalid code.",
  [SRC+'codec/qpack/huffman/encode.cpp',SRC+'codec/qpack/huffman/encode_generated.cpp',SRC+'codec/qpack/huffman/decode.cpp',SRC+'codec/qpack/huffman/decode_generated.cpp'],
  [("symbol_encode bit packing",SRC+'codec/qpack/huffman/encode.cpp'),("nibble automaton",SRC+'codec/qpack/huffman/decode.cpp')],
  obs=["huffman::encoded_size","huffman::encode","huffman::decode"])
p("C07","String literals use the shorter form and round-trip",
  "Every byte string encoded as a string literal (with the 3-bit or 7-bit length prefix) takes exactly the announced number of bytes, uses Huffman coding exactly when that is strictly shorter, sets the Huffman flag accordingly and no other bit above it, and decodes back to itself, consuming exactly the literal. A literal whose length exceeds the bytes available is incomplete, and one with an invalid Huffman body is rejected.",
  ["inputs"],"all byte strings of all lengths (including empty and around the prefix limits), both prefixes",
  "header tests cover three short literals.",
  [SRC+'codec/qpack/literal/encode.cpp',SRC+'codec/qpack/literal/decode.cpp'],
  [("size comparison and H bit",SRC+'codec/qpack/literal/encode.cpp'),("bounded length check",SRC+'codec/qpack/literal/decode.cpp')],
  obs=["literal::encoded_size","literal::encode","literal::decode"])
p("C08","Every header list survives QPACK encoding and decoding",
  "For every sequence of headers with names free of uppercase ASCII letters, encoding the headers one after another takes exactly the announced number of bytes each, and decoding the concatenation yields the same names and values in the same order, byte for byte, with the encoder's and decoder's byte counts equal to the bytes produced and consumed. A header whose name contains an uppercase letter is refused as malformed by every encoding entry point, changes nothing in the encoder, and adds nothing to the output. Encoded blocks refer to the static table only and only with indices whose entry matches.",
  ["inputs","histories"],"all header lists: all 99 static entries and near misses, arbitrary names and values including empty, binary and very long ones",
  "test/qpack.cpp covers three headers and one uppercase name; the 99-entry table and the encoder/decoder byte counters across lists are not covered.",
  [SRC+'codec/qpack/encode.cpp',SRC+'codec/qpack/decode.cpp',SRC+'codec/qpack/encode_generated.cpp',SRC+'codec/qpack/decode_generated.cpp','bnl/base/src/http3/header.cpp'],
  [("find_index by hash",SRC+'codec/qpack/encode_generated.cpp'),("find_header_value/find_header_only",SRC+'codec/qpack/decode_generated.cpp'),("count_ bookkeeping",SRC+'codec/qpack/encode.cpp, decode.cpp')],
  obs=["qpack::encoder","qpack::decoder"])
p("C09","QPACK decoding conforms to the static table and rejects everything else",
  "For any header block, each instruction decodes to exactly the header the QPACK specification assigns to it: static indexed fields give the table's name and value for every index 0-98, literals with a static name reference give that entry's name, literals with a literal name give the decoded name. Dynamic or post-base references, indices outside the static table (whatever their magnitude) and invalid Huffman strings are rejected as decompression failures, a literal name with an uppercase letter as a malformed header; a rejected or incomplete instruction is not consumed.",
  ["inputs"],"all byte strings as header blocks, all indices",
  "tests decode three encoder-produced headers and one unassigned index per form.",
  [SRC+'codec/qpack/decode.cpp',SRC+'codec/qpack/decode_generated.cpp'],
  [("find_type, S bit checks, table lookup",SRC+'codec/qpack/decode.cpp, decode_generated.cpp')],
  obs=["qpack::decoder::decode","decoder::count","remaining input"])
p("C10","Buffers are exact byte sequences with independent ownership",
  "Through any sequence of constructions, slices, consumes, moves, concatenations and writes, a buffer reads as exactly the bytes it should hold, its size is their number, and slicing off n bytes yields precisely the first n and leaves the rest. Writing to, consuming or destroying one buffer never changes another live buffer, in whichever order buffers split from the same memory are destroyed or reassigned, and memory is neither leaked nor used after release.",
  ["histories","inputs"],"all operation histories over any number of buffers of all sizes, especially around the 20-byte inline threshold and chains of slices of shared memory",
  "test/buffer.cpp runs a few fixed sequences; aliasing, destruction order and size-threshold combinations are a history quantifier.",
  ['bnl/base/src/base/buffer.cpp','bnl/base/include/bnl/base/buffer.hpp','bnl/base/src/base/buffer_view.cpp'],
  [("SSO, reference count, slice",'bnl/base/src/base/buffer.cpp')],
  [("begin_/end_","the visible bytes",'bnl/base/include/bnl/base/buffer.hpp'),("reference count","number of slices sharing a block",'bnl/base/src/base/buffer.cpp')],
  obs=["size/data/operator[] of every live buffer after every operation"])
p("C11","A buffer chain is the concatenation of what was pushed, in order",
  "Through any sequence of pushes, pops, slices, consumes and reads, a chain of buffers behaves as one byte sequence: the concatenation of everything pushed minus everything removed from the front. Size, emptiness and every indexed byte agree with that sequence; a slice of n bytes is its first n bytes, wherever buffer boundaries and empty buffers lie; pop removes and returns the oldest buffer whole.",
  ["histories","inputs"],"all histories of chain operations with arbitrary buffer sizes, including empty buffers and cuts on, before and after boundaries",
  "test/buffers.cpp covers fixed splits of one string.",
  ['bnl/base/src/base/buffers.cpp','bnl/base/include/bnl/base/buffers.hpp'],
  [("slice / concat / consume / discard",'bnl/base/src/base/buffers.cpp')],
  [("buffers_","list of pushed, not yet removed buffers",'bnl/base/include/bnl/base/buffers.hpp')],
  obs=["size/empty/operator[]/front/back/slice/pop/consume"])
p("C12","Received messages do not depend on how the stream was fragmented",
  "Whatever way the bytes of a request, response or control stream are cut into received chunks (single bytes, cuts inside varints, frame headers or header fields, empty chunks, several frames at once), the receiver reports the same settings, the same headers in order with the end-of-headers mark on the last one, the same concatenated body bytes, and the same final outcome (finished or the same error). It reports nothing that the bytes received so far do not justify, and reports everything complete that they contain before asking for more.",
  ["inputs","schedules"],"all byte streams and all fragmentations, for both client and server",
  "test/connection.cpp delivers whole sender-produced chunks of one message each way.",
  [SRC+'endpoint/stream/request.cpp',SRC+'codec/headers.cpp',SRC+'codec/body.cpp',SRC+'endpoint/stream/control.cpp',H+'include/bnl/http3/endpoint/generator.hpp'],
  [("headers::decoder / body::decoder state machines over base::buffers",SRC+'codec/headers.cpp, body.cpp'),("receiver::process",SRC+'endpoint/stream/request.cpp')],
  [("buffers_","received, unprocessed stream bytes",SRC+'endpoint/stream/request.cpp'),("state_","headers/body/fin phase",SRC+'endpoint/stream/request.cpp')],
  obs=["events returned by the generator of connection::recv"])
p("C13","End of message is reported exactly once, and only for a complete message",
  "A message is reported finished if and only if its stream was ended by the peer and everything before the end was a complete message, no matter whether the end of stream comes with the last bytes, in a separate empty chunk, or after ignorable trailing frames. The finished report comes exactly once, after all headers and all body bytes; if any body was reported, the end-of-body mark is on exactly one body report, the last, and nothing follows it except finished. A stream ended in the middle of a frame or before its headers are complete is reported as malformed, and data after the end of stream is refused.",
  ["inputs","schedules","histories"],"all message shapes, all placements of the end-of-stream mark, all truncation points, both roles",
  "the single connection test ends the stream together with the last body bytes.",
  [SRC+'endpoint/stream/request.cpp',H+'include/bnl/http3/endpoint/generator.hpp',SRC+'client/connection.cpp',SRC+'server/connection.cpp'],
  [("fin_received_ handling in receiver::recv/process",SRC+'endpoint/stream/request.cpp'),("generator::next stops after finished",H+'include/bnl/http3/endpoint/generator.hpp')],
  [("fin_received_","peer ended the stream",SRC+'endpoint/stream/request.cpp')],
  obs=["header/body/finished events and their fin marks","error results"])
p("C14","Request and response streams accept only the legal frame sequence",
  "On a request or response stream only one leading header section followed by data frames (with unknown frames anywhere between, and one ignored trailing header section) is accepted. Data before headers and any other out-of-place frame is reported as an unexpected frame, frames that belong on the control stream as wrong-stream, and push and priority frames as unimplemented or unexpected according to the role; no content is ever reported from or after an illegal frame, and an empty header section is malformed.",
  ["inputs"],"all sequences of frames of all types in all states of the stream, both roles",
  "no test sends any illegal, unknown or trailing frame.",
  [SRC+'endpoint/stream/request.cpp',SRC+'client/stream/request.cpp',SRC+'server/stream/request.cpp',SRC+'codec/headers.cpp',SRC+'codec/body.cpp'],
  [("delegate path of receiver::process and role-specific process(frame)",SRC+'endpoint/stream/request.cpp, client/stream/request.cpp, server/stream/request.cpp')],
  obs=["error returned by the generator"])
p("C15","Control streams require SETTINGS first and only control frames after",
  "On the peer's control stream, after the stream type, the first known frame must be SETTINGS, which is reported once with exactly the values sent (defaults for absent ones); any other known first frame is a missing-settings error, a second SETTINGS an unexpected frame, and frames that belong on request streams are wrong-stream errors, with the remaining control frames answered according to the role. Closing the control stream is a closed-critical-stream error. Unknown frames are ignored, and a stream that does not carry the control type is rejected, never interpreted.",
  ["inputs"],"all frame sequences, settings values and stream types on the control stream, both roles",
  "the connection test only lets default SETTINGS flow.",
  [SRC+'endpoint/stream/control.cpp',SRC+'client/stream/control.cpp',SRC+'server/stream/control.cpp'],
  [("receiver state type/settings/active",SRC+'endpoint/stream/control.cpp'),("role-specific process(frame)",SRC+'client/stream/control.cpp, server/stream/control.cpp')],
  [("state_","type/settings/active phase",SRC+'endpoint/stream/control.cpp')],
  obs=["settings event and errors returned by the generator"])
p("C16","Everything sent is a well-formed stream in the right order",
  "A connection first emits its control stream type and one SETTINGS frame carrying its local settings, and only then request or response data. On each request stream it emits one header section, only after the application started the message and with exactly the headers added before that, then data frames carrying exactly the body bytes added, in order, and marks the end of stream exactly once, on the last chunk, exactly when the application ended the message. It answers idle if and only if nothing that may be sent is left, and only then.",
  ["histories","schedules"],"all interleavings of header/body/start/end calls with sends on any number of streams, both roles",
  "the connection test performs all calls before the first send.",
  [SRC+'endpoint/stream/request.cpp',SRC+'endpoint/stream/control.cpp',SRC+'codec/headers.cpp',SRC+'codec/body.cpp',SRC+'client/connection.cpp',SRC+'server/connection.cpp'],
  [("sender::send state machine",SRC+'endpoint/stream/request.cpp'),("headers::encoder, body::encoder",SRC+'codec/headers.cpp, body.cpp'),("connection::send order",SRC+'client/connection.cpp, server/connection.cpp')],
  [("state_/headers_/body_","sending phase and queued content",H+'include/bnl/http3/endpoint/stream/request.hpp')],
  obs=["quic events returned by connection::send"])
p("C17","Messages exchanged between a client and a server arrive intact",
  "For any number of concurrent requests and responses, any headers and bodies, any interleaving of application calls, sends and deliveries and any fragmentation of each stream, what one side reports for a stream is at every moment a prefix of what the other side's application submitted for it (same headers, same body bytes, same order). Once everything was sent and delivered in order, every message that was ended has been reported completely and finished, and nothing else was reported.",
  ["schedules","histories","inputs"],"all interleavings of any number of client and server operations with in-order per-stream delivery in arbitrary fragments",
  "one request and one response of fixed content in one fixed order.",
  [SRC+'client/connection.cpp',SRC+'server/connection.cpp',SRC+'endpoint/stream/request.cpp',SRC+'codec/body.cpp',SRC+'codec/headers.cpp'],
  [("connection::send/recv/process of both roles",SRC+'client/connection.cpp, server/connection.cpp')],
  [("requests_","per-stream sender and receiver",H+'include/bnl/http3/client/connection.hpp, server/connection.hpp')],
  obs=["handles, send, recv, generator of both connections"])
p("C18","Streams are isolated and correctly identified",
  "Client requests get the stream ids 0, 4, 8, ... in order, every id once, and every report and every chunk sent carries the id of its stream. What happens on one stream (any content, errors, completion, closing) never changes what is reported or sent on another; data on unidirectional streams other than the control stream is ignored by both roles, and data for a stream the client never opened is refused.",
  ["schedules","histories","inputs"],"all interleavings over any number of streams, including malformed ones next to good ones",
  "only one stream is ever used in the tests.",
  [SRC+'client/connection.cpp',SRC+'server/connection.cpp'],
  [("requests_ map lookups",SRC+'client/connection.cpp, server/connection.cpp'),("next_stream_id_",SRC+'client/connection.cpp')],
  [("requests_","open streams by id",H+'include/bnl/http3/client/connection.hpp')],
  obs=["request(), handle::id(), ids in events","per-stream event sequences under interleaving"])
p("C19","Message handles are safe for their whole life",
  "A handle acts on the stream it was created for, and only on it, through any sequence of moves, reassignments, replacement by a newer handle for the same stream, and moves of the connection. Once the stream is closed, the connection destroyed, the handle moved from, or the handle replaced, every operation on it answers invalid-handle and has no effect. Calls out of order (headers after start, start twice or without headers, body after end, end after everything was sent and ended) are refused with an error and change nothing.",
  ["histories"],"all histories of creating, moving, assigning, using and destroying handles and connections, interleaved with sending and completion",
  "the connection test creates one request and one response handle and never moves, replaces or outlives anything.",
  [SRC+'endpoint/stream/request.cpp',H+'include/bnl/http3/endpoint/stream/request.hpp',SRC+'client/connection.cpp',SRC+'server/connection.cpp'],
  [("sender/handle back pointers",SRC+'endpoint/stream/request.cpp')],
  [("sender::handle_ / handle::sender_","mutual pointers between a stream's sender and its handle",H+'include/bnl/http3/endpoint/stream/request.hpp')],
  obs=["results of handle calls and the chunks later sent"])
p("C20","A stream stays known until both directions are done, then is closed",
  "The server offers a response handle for a stream from the first data received on it until both the response has been completely sent and the request has been reported finished, and answers stream-closed otherwise; completing the response early never disturbs the rest of the request. The client likewise keeps a request until it is completely sent and its response has been reported finished; then its handle is invalid and further data for it is refused. Asking a pending event generator for more after its stream was finished or closed gives an error or nothing, never a crash, a repeated report or events of another stream.",
  ["schedules","histories"],"all orders of receiving, responding, sending and finishing, including early responses and generators kept across sends",
  "tests always finish the request before responding, on one stream.",
  [SRC+'server/connection.cpp',SRC+'client/connection.cpp',H+'include/bnl/http3/endpoint/generator.hpp'],
  [("erase on completion in send()/process()",SRC+'server/connection.cpp, client/connection.cpp'),("response() lookup",SRC+'server/connection.cpp')],
  [("requests_","open streams",H+'include/bnl/http3/server/connection.hpp')],
  obs=["server.response(id)","generator results","client.recv after completion"])
p("C21","No peer input can crash, hang or corrupt an endpoint",
  "Whatever bytes arrive on whatever streams, in whatever chunks and with whatever end-of-stream marks, each endpoint returns events or an error: it never aborts, throws out of a non-throwing call, reads or writes outside its buffers, or loops without consuming input. Draining a received chunk ends after a number of events bounded by the bytes received.",
  ["inputs","fault_sequences"],"all byte strings on all stream ids (control, request, push, QPACK streams), both roles, mutated and truncated valid traffic included",
  "tests feed only well-formed traffic produced by the library itself.",
  [SRC+'endpoint/stream/request.cpp',SRC+'endpoint/stream/control.cpp',SRC+'server/connection.cpp',SRC+'client/connection.cpp',SRC+'codec/frame/decode.cpp',SRC+'codec/qpack/decode.cpp',SRC+'codec/qpack/literal/decode.cpp'],
  [("bounds checks before consume/slice; error results",'all decode paths')],
  obs=["process liveness, sanitizer reports, events"])
p("C22","The QPACK interop tools convert header files without loss",
  "Encoding any header file in the QIF text format and decoding the result reproduces every header list of the file in order, with every name and value, whether or not the file ends with a blank line and regardless of comments and repeated blank lines. The binary file is a sequence of blocks numbered from 1, each with the exact length of the header block that follows. A file that cannot be encoded or decoded makes the tool fail with a non-zero status.",
  ["inputs"],"all QIF files and all encoded files",
  "no test runs the tools.",
  [H+'app/qpack/qpack-interop-encode.cpp',H+'app/qpack/qpack-interop-decode.cpp'],
  [("main loops",H+'app/qpack/qpack-interop-encode.cpp, qpack-interop-decode.cpp')],
  obs=["output files and exit status"])
p("C23","QUIC stream data is handed to the transport exactly once and in order",
  "A QUIC client stream hands every byte added to it to the transport exactly once and in order, under any pattern of partial writes and blocking, keeps bytes alive until they are acknowledged and releases exactly the acknowledged ones. It marks the end of the stream exactly with the write that completes the data after the end was requested, also when two chunks have equal content, and counts as finished only when everything including the end was written and acknowledged; acknowledging more than was sent is an error.",
  ["schedules","histories"],"all sequences of adds, partial writes, blocks, ends and acknowledgements",
  "the QUIC part has no tests at all and is not even built here.",
  ['bnl/quic/src/client/stream.cpp','bnl/quic/include/bnl/quic/client/stream.hpp'],
  [("send/ack over buffers_ and keepalive_",'bnl/quic/src/client/stream.cpp')],
  [("buffers_","bytes not yet written",'bnl/quic/include/bnl/quic/client/stream.hpp'),("keepalive_","bytes written, not acknowledged",'bnl/quic/include/bnl/quic/client/stream.hpp')],
  obs=["calls into the transport (stand-in), return values"])
p("C24","QUIC handshake, keys and packet protection follow QUIC-TLS",
  "The QUIC client carries handshake data between the TLS library and the transport unchanged, in order and at the right encryption level, hands every secret the TLS library produces to the transport as the key, iv and header-protection key that QUIC-TLS derives from it for the negotiated cipher, and reports the handshake complete exactly when the TLS library does. Initial keys come from the destination connection id, packets are sealed and opened with the given key, nonce, associated data and cipher, header-protection masks are those of the cipher in use, a key update derives the next generation from the current secret; a packet that does not authenticate, a failing TLS call and an unsupported cipher are errors.",
  ["inputs","histories","fault_sequences"],"all secrets, ciphers, connection ids, samples, handshake transcripts and points at which the TLS library or the transport fails",
  "the QUIC part has no tests at all and is not even built here.",
  ['bnl/quic/src/crypto.cpp','bnl/quic/src/crypto/boringssl.cpp','bnl/quic/src/client/handshake.cpp','bnl/quic/src/client/handshake/boringssl.cpp','bnl/quic/src/client/ngtcp2/connection.cpp'],
  [("hkdf_expand_label, packet_protection_key, header protection",'bnl/quic/src/crypto.cpp, crypto/boringssl.cpp'),("handshake steps",'bnl/quic/src/client/handshake.cpp')],
  [("keepalive_","handshake data not yet acknowledged",'bnl/quic/include/bnl/quic/client/handshake.hpp')],
  obs=["calls into the transport and the TLS and crypto libraries (stand-ins that record them), return values"])
p("C25","The QUIC connection reports what the transport reports, once and in order",
  "Every event the transport raises while a packet is processed (handshake progress, stream data with its end, acknowledgements, stream limits, new connection ids, ...) reaches the application through the event callback exactly once, in order and with its data intact, or changes the stream it names; events for unknown streams and unsupported requests are refused with an error. Every call into the transport carries the current time, the addresses of the path and the configured transport parameters; the reported expiry is the transport's timer, and every error of the transport, the TLS library or the application comes back as an error, never as success or a crash. Memory of packets and streams is given back when it is no longer needed.",
  ["histories","schedules","fault_sequences"],"all sequences of packets, transport events, sends, timeouts and failures",
  "the QUIC part has no tests at all and is not even built here.",
  ['bnl/quic/src/client/connection.cpp','bnl/quic/src/client/ngtcp2/connection.cpp','bnl/quic/include/bnl/quic/clock.hpp'],
  [("connection::send/recv/expire",'bnl/quic/src/client/connection.cpp'),("ngtcp2 callbacks",'bnl/quic/src/client/ngtcp2/connection.cpp')],
  [("streams_","open streams by id",'bnl/quic/include/bnl/quic/client/connection.hpp')],
  obs=["events, return values, calls into the transport (stand-in)"])
p("C26","Logging is faithful and changes nothing else",
  "Installing a logger never changes what the library does: every call gives the same results, events and bytes as without one. A logger gets every message exactly once, with its level, source position and text as written, and the arguments in place of the placeholders; text that comes from the transport or TLS library (trace and error level) is logged as it is, whatever characters it holds. The console logger writes each message as one whole line (time of day, level, source position if wanted, text) to standard error for warnings and errors and to standard output for the rest, and nothing to the other; without a logger, and with the logger interface's default one, nothing is written.",
  ["inputs","histories"],"all messages, levels and loggers, and all behaviours of the library with a logger installed",
  "no test installs a logger.",
  ['bnl/base/src/log.cpp','bnl/base/include/bnl/base/log.hpp','bnl/log/src/console.cpp','bnl/quic/src/client/ngtcp2/connection.cpp','bnl/quic/src/client/handshake/boringssl.cpp'],
  [("BNL_LOG",'bnl/base/include/bnl/base/log.hpp'),("console::log",'bnl/log/src/console.cpp'),("connection::log and handshake::impl::log_errors",'bnl/quic/src/client')],
  [("base::logger","the logger in use",'bnl/base/src/log.cpp')],
  obs=["messages a logger receives, standard output and error, everything else the library answers"])
p("C28","Addresses, views, headers, events and errors keep their values",
  "Values are what they were made of and copies are equal: an IPv4 or IPv6 address yields the bytes given in network order, its type follows from their number, an IPv4 address prints as dotted decimals, and two addresses are equal exactly when type and bytes are; endpoints and paths keep local and peer apart, hosts and views of bytes or text have the content given, embedded zeros included, and compare by content. A header keeps name and value, prints as 'name: value', equals another exactly when both parts do, and counts as lowercase exactly when its name has no uppercase letter. Events keep kind, stream id, end mark, data and error value when moved. Every error converts to an error code that is false only for no-error, differs from the codes of all other errors and has its own message; HTTP/3 and QUIC errors have different categories, and errors sent to the peer have the protocol's numbers.",
  ["inputs"],"all addresses, byte strings, headers, event values and errors",
  "no test covers these values.",
  ['bnl/base/src/ip','bnl/base/include/bnl/base/string_view.hpp','bnl/base/include/bnl/base/buffer_view.hpp','bnl/http3/src/header.cpp','bnl/base/src/base/system_error.cpp','bnl/base/src/quic'],
  [("address, endpoint, host, path",'bnl/base/src'),("header and header_view",'bnl/http3/src/header.cpp'),("make_error_code and the categories",'bnl/base/src/base/system_error.cpp')],
  obs=["accessors, comparisons and printed forms of the values"])
p("C27","The HTTP/3 client program succeeds exactly when it got the response",
  "The client program (bnl-http3-client HOST PORT) exits with 0 exactly if it received a complete, well-formed response to its request and printed it: every header of the response as a line 'name: value', in order, an empty line, and then the body, unchanged and whole. Missing or invalid arguments (a port that is no number from 1 to 65535), a name that does not resolve, a socket or event source that cannot be had, a failing handshake, an error of the transport, of the response or of the peer's control stream, a socket error, a timeout, a signal and output that cannot be written make it exit with another code, as soon as that is settled: it never hangs, crashes or reports success instead. It asks the given host for /index.html with one GET request and connects to the first address that the name resolves to, at the given port.",
  ["inputs","schedules","fault_sequences"],"all arguments, answers of the name service, responses, ways of cutting them into packets and turns of the event loop, and failures at any point",
  "no test runs the program, and it is not even built here.",
  [APP+'client.cpp',APP+'os/dns.cpp',APP+'os/socket/udp.cpp',APP+'sd/event/loop.cpp',APP+'os/result.hpp'],
  [("run(), client::recv_once, exit_on_error",APP+'client.cpp'),("loop::run/exit/signal",APP+'sd/event/loop.cpp'),("make_socket, udp::error",APP+'os/socket/udp.cpp')],
  [("headers, body","the response so far",APP+'client.cpp'),("error_","the reason for the end of the loop",APP+'sd/event/loop.hpp')],
  obs=["exit code, standard output, resolved name, connected address, request written to the transport (stand-in)"])
p("C29","The client's event loop moves every packet once and keeps its timers",
  "While the client program runs, every packet that the transport produces is sent on the socket exactly once, whole and in order, also when the socket is busy in between, and every datagram that arrives is handed to the transport exactly once, whole and in order, also when it arrives while the socket is being read. Nothing is left unsent or unread when a turn of the (edge-triggered) event loop ends, unless the socket is busy. After every turn there is a timer for the transport's expiry time, at which the due loss-detection and delayed-acknowledgement timers of the transport are handled and what it then produces is sent, and one for the idle timeout, counted from the last packet, which ends the program. All sockets, event sources and the connection are released at the end.",
  ["schedules","histories","fault_sequences"],"all interleavings of arriving datagrams, writable and busy sockets, timers and clock values",
  "no test runs the program, and it is not even built here.",
  [APP+'client.cpp',APP+'os/socket/udp.cpp',APP+'sd/event/loop.cpp',APP+'sd/event/source.cpp',APP+'os/fd.cpp'],
  [("client::send, recv, retransmit, timeout",APP+'client.cpp'),("udp::send, recv, add",APP+'os/socket/udp.cpp'),("timer::update, handle",APP+'sd/event/source.cpp')],
  [("send_buffer_","packets not yet sent",APP+'os/socket/udp.hpp'),("retransmit_, timeout_","the timers",APP+'client.hpp')],
  obs=["system calls on the socket, event sources and their times, calls into the transport (stand-ins)"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
