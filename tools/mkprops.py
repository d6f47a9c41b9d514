#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the property texts live here so that they are reviewable)."""
import json, os
P = []
H1 = ["src/http1/parser.rs", "src/fsm.rs", "src/collect.rs", "src/byte.rs"]
H2 = ["src/http2/parser.rs", "src/fsm.rs"]
UT = ["src/util/decode.rs", "src/util/field.rs", "src/util/query.rs", "src/collect.rs", "src/byte.rs"]
def add(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
IN, HI, CO, PR = "inputs", "histories", "configurations", "programs"

# ---------------------------------------------------------------- safety, all parts
add("A01", "No read outside the caller's slice (HTTP/1)",
 "Whatever bytes are fed to the HTTP/1.x parser, in whatever pieces (including empty ones) and in whatever parser state, the parser never reads a byte outside the slice it was given.",
 [IN, HI], "all byte streams, all ways of cutting them into resume() calls, all four parser types, all reachable parser states",
 "The look-ahead reads are unchecked; a test that reads one byte too far usually still passes, and only a few cut points are sampled.",
 H1, [("unchecked look-ahead", "byte_slice macros bs_starts_withN!/bs_next! expanded in src/http1/parser.rs")])
add("A02", "The HTTP/1 parser never panics",
 "No byte stream, fragmentation, callback answer or reuse of the HTTP/1.x parser can make it panic (index out of range, slice range, arithmetic overflow, failed unwrap), provided a boundary is set before multipart parsing.",
 [IN, HI, CO], "all byte streams, fragmentations, callback return values, parser types and re-initialisations",
 "Tests sample a handful of inputs; a panic on one byte value in one state is invisible to them.",
 H1, [("table lookups, slices, counters", "src/http1/parser.rs state functions; src/byte.rs tables")])
add("A03", "The HTTP/2 parser never panics and its length arithmetic never wraps",
 "No sequence of HTTP/2 frame bytes, fragmentation or callback answer can make the HTTP/2 parser panic, read outside the slice it was given, or let a payload or padding length computation overflow or underflow.",
 [IN, HI], "all frame headers, payload lengths, pad lengths, flags, fragmentations and callback return values",
 "Existing tests use one well-formed length per frame type.",
 H2, [("payload and pad length arithmetic", "src/http2/parser.rs dec_payload_length!/actual_length!")])
add("A04", "Decoding utilities and iterators never panic or read out of bounds",
 "The percent decoder, the query-string iterator and the header-field iterator never panic and never read outside their input, for any input bytes.",
 [IN], "all byte strings, both with and without name normalisation and error handler",
 "Inputs are unbounded byte strings; tests use a few dozen.",
 UT, [("decode loops", "src/util/*.rs")])
add("A05", "Every parser call returns",
 "Every call into the HTTP/1.x and HTTP/2 parsers returns after an amount of work bounded by the input it was given: the dispatch loop can never spin without consuming input.",
 [IN, HI], "all byte streams, fragmentations, states",
 "Non-termination on a rare path cannot be excluded by running finitely many inputs.",
 H1 + H2, [("dispatch loop", "Parser::parse / Parser::resume")])
add("A06", "Decoding utilities terminate on every input",
 "The percent decoder returns, and the query-string and header-field iterators yield finitely many items, for every input: each step of each loop consumes input or stops.",
 [IN], "all byte strings",
 "Non-termination on a rare path cannot be excluded by running finitely many inputs.",
 UT, [("loops", "src/util/*.rs")])
add("A07", "Parsing is zero-copy and has no side effects besides the callbacks",
 "The parsers, the percent decoder and the iterators perform no I/O, spawn nothing, block on nothing and keep no global mutable state; the parsers do not buffer the stream: apart from replaying the bytes of a failed multipart boundary match (no more than the boundary's length plus a constant) they never take memory from the heap.",
 [PR, IN], "all code reachable from the public API of the parsers, decoder and iterators",
 "An absence of effects over the whole call graph is not observable through sampled outputs.",
 H1 + H2, [("call graph", "everything reachable from http1::Parser and http2::Parser")])

# ---------------------------------------------------------------- protocol with the caller
add("B01", "Exhausted input is reported with the exact length",
 "When a parser asks for more data, the processed length it reports equals the length of the slice it was given (for URL-encoded bodies, of the part within the declared length); every other reported length is between zero and the slice length.",
 [IN, HI], "all streams, cut points, parser types (both protocols)",
 "Tests check the length for particular inputs only.",
 H1 + H2, [("Success values", "src/fsm.rs exit_eos!/exit_callback!/exit_finished!")])
add("B02", "The running byte count equals the bytes consumed",
 "The parser's running byte count equals the sum of the lengths consumed by all calls since it was created (HTTP/2: since the last reset), whatever way each call ended.",
 [IN, HI], "all call histories, including errors, aborted callbacks and finished bodies",
 "The count is accumulated on several exit paths; tests exercise few of them.",
 H1 + H2, [("byte_count", "Parser::parse / Parser::resume")])
add("B03", "HTTP/1 head parsing is independent of fragmentation",
 "However a request or response head is cut into pieces, the parser delivers the same callbacks with the same values, the same concatenated data and the same outcome (of an element in which an error is found, any prefix of the bytes before the error may have been delivered).",
 [IN, HI], "all heads, all fragmentations",
 "Bulk fast paths only run when enough bytes are buffered; the number of (input, cut) combinations is unbounded.",
 H1, [("fast and slow paths", "detect*, request_*, response_*, header_* states")])
add("B04", "Chunked bodies parse independently of fragmentation",
 "However a chunked body (sizes, extensions, data, trailers) is cut into pieces, the parser delivers the same callbacks with the same values, the same concatenated data and the same outcome (of an element in which an error is found, any prefix of the bytes before the error may have been delivered).",
 [IN, HI], "all chunked bodies, all fragmentations",
 "The number of (input, cut) combinations is unbounded.",
 H1, [("chunk states", "chunk_* states")])
add("B05", "Multipart bodies parse independently of fragmentation",
 "However a multipart body is cut into pieces, including in the middle of a boundary or of something resembling one, the parser delivers the same parts, headers and concatenated data and the same outcome (of an element in which an error is found, any prefix of the bytes before the error may have been delivered).",
 [IN, HI, CO], "all multipart bodies, boundaries of 1 to 16383 bytes without CR or LF, all fragmentations",
 "Boundary look-alikes straddling a cut are not sampled by the tests.",
 H1, [("boundary matching", "multipart_* states")])
add("B06", "URL-encoded bodies parse independently of fragmentation",
 "However a URL-encoded body is cut into pieces, including inside a percent escape, the parser delivers the same names and values and the same outcome (of an element in which an error is found, any prefix of the bytes before the error may have been delivered).",
 [IN, HI, CO], "all bodies, declared lengths, fragmentations",
 "The number of (input, cut) combinations is unbounded.",
 H1, [("url encoded states", "url_encoded_* states, Parser::resume")])
add("B07", "HTTP/2 frames parse independently of fragmentation",
 "However a sequence of HTTP/2 frames is cut into pieces, the parser delivers the same callbacks with the same values and the same concatenated payload data; multi-byte fields assembled across cuts equal the ones read in one go.",
 [IN, HI], "all frame sequences, all fragmentations",
 "Each multi-byte field has a bulk path and several byte-wise paths; tests cover few of the combinations.",
 H2, [("bulk and byte-wise field reads", "src/http2/parser.rs")])
add("B08", "A callback returning false stops the HTTP/1 parser at once and loses nothing",
 "When an HTTP/1.x callback returns false the parser returns before making any further callback, and resuming with the unprocessed remainder delivers exactly the callbacks that would have followed had it returned true.",
 [IN, HI], "all streams, every callback invocation as an abort point",
 "Every callback at every position is a possible abort point; tests abort at a few.",
 H1, [("callback!/exit_callback!", "src/fsm.rs")])
add("B09", "A callback returning false stops the HTTP/2 parser at once and loses nothing",
 "When an HTTP/2 callback returns false the parser returns before making any further callback, and resuming with the unprocessed remainder delivers exactly the callbacks that would have followed had it returned true.",
 [IN, HI], "all frame streams, every callback invocation as an abort point",
 "Every callback at every position is a possible abort point; tests abort at a few.",
 H2, [("exit_callback!", "src/http2/parser.rs")])
add("B10", "After an error the parser is dead until it is re-initialised",
 "Once a parser has returned an error it reports the dead state, and every further call fails with the dead error without consuming input or making a callback, until the parser is re-initialised.",
 [IN, HI], "all error paths, all subsequent inputs, both protocols",
 "Tests check the dead state after a few errors only.",
 H1 + H2, [("dead state", "Parser::parse error arm, Parser::dead")])
add("B11", "A finished parser stays finished and consumes nothing",
 "Once the HTTP/1.x parser has reported completion it reports the finished state, and every further call reports completion again without consuming input or making a callback, until it is re-initialised.",
 [IN, HI], "all completions (head, chunked, multipart, URL-encoded), all subsequent inputs",
 "Tests rarely call the parser again after completion.",
 H1, [("finished state", "Parser::finished, Parser::body_finished")])
add("B12", "The reported state is the state the parser resumes in",
 "The state a parser reports always determines what it does next: two situations in which the parser would continue with different parsing steps never report the same state.",
 [IN, HI], "all reachable states of both parsers",
 "State name and behaviour are stored separately and set together at about 250 places.",
 H1 + H2, [("set_state!", "src/fsm.rs")])
add("B13", "Re-initialising or resetting forgets everything",
 "After any of the initialisation or reset calls a parser behaves exactly like a freshly created parser initialised the same way, whatever it was doing before (mid-header, mid-chunk, dead, finished).",
 [HI], "all prior histories, all initialisation calls of both protocols",
 "Left-over state only matters after particular histories.",
 ["src/http1/parser.rs", "src/http2/parser.rs"], [("reset", "Parser::reset, Parser::init_*")])

# ---------------------------------------------------------------- HTTP/1 head
add("C01", "Leading whitespace is skipped and message kind is detected exactly",
 "In front of a head, CR, LF, tab and space are skipped without callbacks, including with a freshly created parser; a message is parsed as a response exactly if it then starts with 'HTTP/', and as a request otherwise.",
 [IN, HI], "all heads, all fragmentations",
 "Methods sharing a prefix with 'HTTP/' and cut inside it are not tested.",
 H1, [("detection", "strip_detect, detect1..detect5")])
add("C02", "The request method is delivered exactly",
 "The method delivered is the exact sequence of upper-case letters before the first space; any other byte there is a method error.",
 [IN, HI], "all request lines, fast and slow paths",
 "Fast path literals and slow path must agree for every method.",
 H1, [("method", "detect1 fast path, request_method")])
add("C03", "The request URL is delivered exactly",
 "The URL delivered is the exact non-empty sequence of visible ASCII bytes between the method's space and the next space; any other byte there is a URL error.",
 [IN, HI], "all request lines", "Unbounded inputs and cut points.",
 H1, [("url", "request_url1, request_url2")])
add("C04", "HTTP version numbers are decoded exactly",
 "The version delivered equals the decimal major and minor numbers on the wire (one to three digits each), once per message and before anything that follows it; any other byte in the version is a version error.",
 [IN, HI], "all version strings in requests and responses, fast and slow paths",
 "A million version strings, two message kinds, two paths, many cuts.",
 H1, [("version", "request_http*, request_version_*, response_version_*")])
add("C05", "The response status line is decoded exactly",
 "The status code delivered equals the three decimal digits on the wire followed by a space, and the reason phrase delivered is the exact byte sequence up to the line end without control bytes; any other byte is a status code or status error.",
 [IN, HI], "all status lines, all fragmentations",
 "Fast and slow paths, 1000 codes, unbounded phrases.",
 H1, [("status", "response_status*")])
add("C06", "Header names are delivered exactly and in lower case",
 "The bytes delivered for a header name are the exact name on the wire with upper-case letters mapped to lower case, all of them token characters; any other byte in a name is a header name error.",
 [IN, HI], "all names, all fragmentations, fast-path names and others",
 "About 30 literal fast paths must each agree with the generic path.",
 H1, [("names", "first_header_name, upper_header_name, lower_header_name")])
add("C07", "Header values are delivered exactly",
 "The bytes delivered for a header value are exactly the bytes on the wire after leading blanks and before the line end, including quotes and escapes and the text of continuation lines.",
 [IN, HI], "all values, quoting, folding, fragmentations",
 "Quoting, escapes, folding and cuts interact.",
 H1, [("values", "strip_header_value, header_value, header_quoted_value, header_escaped_value")])
add("C08", "No delivered header value contains a line break or control byte",
 "No data delivered as a header value ever contains CR, LF, NUL or any other control byte except tab, in heads, chunk trailers or multipart part headers, quoted or not; such a byte in a value is an error unless it ends the line.",
 [IN, HI], "all byte values in all positions of all values",
 "256 byte values times all value states.",
 H1, [("byte classes", "src/byte.rs, header_*_value")])
add("C09", "The head ends exactly at the first empty line",
 "The end of the headers is signalled exactly when the first empty line (CR LF CR LF) has been consumed, never earlier or later, and a CR not followed by LF is an error.",
 [IN, HI], "all heads, trailers and part headers; all fragmentations",
 "Request smuggling hinges on every path through line-end handling.",
 H1, [("line ends", "header_cr1, header_lf1, header_cr2, header_lf2, header_end, initial_lf")])
add("C10", "Head callbacks follow the message order",
 "Callbacks for a head come in message order: method, URL, version (or version, status code, reason), end of first line, then alternating header names and values, then end of headers; no callback is skipped, duplicated or made out of turn.",
 [IN, HI], "all heads, all fragmentations and abort points", "An order over all executions.",
 H1, [("callback order", "state graph of src/http1/parser.rs")])
add("C11", "Errors report the kind and byte of the offending input",
 "When HTTP/1.x input is rejected the error names the part of the message being parsed and carries the first byte that cannot be accepted there (an invalid initial multipart boundary may instead report the first byte compared).",
 [IN, HI], "all invalid inputs", "Tests check a few bytes per state.",
 H1 + ["src/http1/parser_error.rs"], [("errors", "exit_error! and Err(ParserError::..) sites")])

# ---------------------------------------------------------------- chunked
add("D01", "Chunk lengths are decoded exactly",
 "The chunk length delivered equals the hexadecimal number on the wire (one to eight digits without leading zero); a longer or malformed length is a chunk length error and is never truncated or wrapped.",
 [IN, HI], "all length strings", "4 billion values, 8 separate states.",
 H1, [("chunk length", "chunk_length1..8, chunk_length_cr")])
add("D02", "Chunk data is framed by its length exactly",
 "For every chunk exactly as many data bytes are delivered as its length says, byte for byte the bytes on the wire, followed by a mandatory CR LF; bytes that look like protocol inside the data have no effect.",
 [IN, HI], "all lengths, contents, fragmentations, abort points", "Unbounded lengths and cuts.",
 H1, [("chunk data", "chunk_data, chunk_data_cr, chunk_data_lf")])
add("D03", "Chunk extensions are delivered exactly",
 "Chunk extension names are delivered in lower case and values with surrounding quotes and escapes removed, each extension and the extension list are terminated by one callback, and malformed extensions are an error.",
 [IN, HI], "all extension lists", "Quoting, case mapping and cuts interact.",
 H1, [("extensions", "chunk_extension* states")])
add("D04", "A chunked body ends exactly after its last chunk and trailers",
 "A zero-length chunk, with or without extensions, is followed by the trailers up to the empty line; the body is then reported finished exactly once, and bytes after it are not consumed.",
 [IN, HI], "all chunked bodies", "Where the body ends decides what the next message is.",
 H1, [("last chunk", "chunk_length_cr, chunk_length_lf, header_end, body_finished")])
add("D05", "Chunk callbacks follow the chunk order",
 "For each chunk the callbacks come in order: begin, length, extension names and values with their terminators, data; a chunk's begin and length are each delivered exactly once.",
 [IN, HI], "all chunked bodies, fragmentations, abort points", "An order over all executions.",
 H1, [("callback order", "chunk_* state graph")])

# ---------------------------------------------------------------- multipart
add("E01", "Multipart data is delivered byte for byte",
 "The data delivered for a part without declared length is exactly the bytes between its headers and the CR LF introducing the next boundary, including any line breaks, hyphens and partial boundaries inside it.",
 [IN, HI, CO], "all contents, boundaries of 1 to 16383 bytes without CR or LF, fragmentations", "Partial boundary matches nest in many ways.",
 H1, [("boundary detection", "multipart_data_by_byte*, multipart_hyphen*, multipart_boundary")])
add("E02", "A multipart boundary is recognised wherever it occurs",
 "Inside part data, CR LF followed by two hyphens and the boundary always ends the part, whatever bytes come before it; nothing else ends it.",
 [IN, HI, CO], "all contents preceding a boundary", "Overlapping prefixes such as CR CR LF before a boundary are not sampled.",
 H1, [("boundary detection", "multipart_data_by_byte*, multipart_hyphen*, multipart_boundary")])
add("E03", "Multipart data with a declared length is framed by it",
 "When the handler supplies a content length for a part, exactly that many bytes are delivered as its data and a boundary line must follow.",
 [IN, HI, CO], "all lengths and contents", "Unbounded lengths and cuts.",
 H1, [("length framing", "multipart_detect_data, multipart_data_by_length*")])
add("E04", "Multipart bodies begin, separate and end at the boundary lines",
 "A multipart body must start with two hyphens and the boundary; each boundary line announces one part whose headers follow, and the boundary followed by two hyphens finishes the body exactly once; anything else there is a boundary error.",
 [IN, HI, CO], "all bodies", "An order over all executions.",
 H1, [("boundary line", "multipart_boundary_cr, multipart_end, body_finished")])

# ---------------------------------------------------------------- url encoded
add("F01", "URL-encoded names and values are decoded exactly",
 "Names and values are delivered with percent escapes replaced by the byte they denote, plus by space, and all other visible bytes unchanged; any other byte or a malformed escape is a name or value error.",
 [IN, HI], "all bodies", "65536 escapes, two contexts, all cuts.",
 H1, [("decoding", "url_encoded_* states")])
add("F02", "URL-encoded pairs are separated exactly",
 "Each pair is announced once before its name, the first equals sign separates name from value, and ampersand or semicolon separates pairs; no name byte is delivered as value or vice versa.",
 [IN, HI], "all bodies", "An order over all executions.",
 H1, [("pairs", "first_url_encoded_name, url_encoded_name, url_encoded_value")])
add("F03", "A URL-encoded body ends exactly at its declared length",
 "At most the declared number of bytes is ever consumed or inspected, across any number of calls, and the body is reported finished exactly when that many bytes have been consumed.",
 [IN, HI, CO], "all declared lengths, streams, fragmentations, abort points", "Bytes past the length belong to the next message.",
 H1, [("length accounting", "Parser::resume")])

# ---------------------------------------------------------------- http2
add("G01", "HTTP/2 frame headers are decoded exactly",
 "For every frame the announced payload length, type, flags and 31-bit stream identifier equal the big-endian fields of the nine header bytes on the wire.",
 [IN, HI], "all 2^72 frame headers, all fragmentations", "Byte-wise paths are separate code.",
 H2, [("frame header", "frame_length*, frame_type, frame_flags, frame_stream_id*, frame_format_end")])
add("G02", "HTTP/2 frame fields are decoded exactly",
 "Error codes, dependency stream identifiers, exclusive bits, weights, setting identifiers and values, promised stream identifiers and window increments are delivered as the big-endian values on the wire.",
 [IN, HI], "all field values, all fragmentations", "Dozens of byte-wise states.",
 H2, [("fields", "go_away_*, headers_*, priority_*, push_promise_*, rst_stream_*, settings_*, window_update_*")])
add("G03", "Reserved bits never leak into identifiers or increments",
 "Stream identifiers, promised stream identifiers and window increments delivered to callbacks never have the reserved top bit set, whatever the wire says.",
 [IN, HI], "all field values with the reserved bit set", "Tests do not set reserved bits.",
 H2, [("masking", "callbacks in src/http2/parser.rs")])
add("G04", "HTTP/2 payload data is framed by the payload length",
 "For DATA, HEADERS, CONTINUATION, PUSH_PROMISE, PING, GOAWAY and unknown frames exactly the payload bytes that are neither fields nor padding are delivered, the last piece (possibly empty) and only it is marked finished, and the next frame header starts right after the payload (a GOAWAY frame without debug data delivers no piece).",
 [IN, HI], "all payload and pad lengths, contents and fragmentations, including empty payloads", "Unbounded lengths and cuts.",
 H2, [("payload framing", "parse_payload_data!, frame_padding")])
add("G05", "Padding is never delivered",
 "When a DATA, HEADERS, PUSH_PROMISE or unknown frame is padded, neither the pad length byte nor any padding byte is delivered to a callback, and padding longer than the payload is rejected.",
 [IN, HI], "all pad lengths and payload lengths", "65536 length combinations per frame type and all cuts.",
 H2, [("padding", "*_pad_length states, frame_padding")])
add("G06", "Fixed-size HTTP/2 frames are framed by the payload length",
 "For PRIORITY, RST_STREAM, SETTINGS and WINDOW_UPDATE frames the next frame header is read right after the announced payload, so no payload length can shift frame boundaries.",
 [IN, HI], "all announced payload lengths", "Tests announce one length per frame type.",
 H2, [("fixed-size frames", "priority_*, rst_stream_*, settings_*, window_update_* states")])
add("G07", "HTTP/2 frames are dispatched by type and flags",
 "Each frame type triggers exactly its own callbacks in order (frame header first, fields next, data last), priority fields are read only when the priority flag is set and the pad length only when the padded flag is set, and unknown types are delivered as unsupported data.",
 [IN, HI], "all types and flag combinations", "65536 type/flag combinations.",
 H2 + ["src/http2/flags.rs", "src/http2/frame_type.rs"], [("dispatch", "frame_format_end")])
add("G08", "Protocol code enumerations round-trip",
 "Converting a frame type or error code number to its enumeration gives the variant RFC 7540 assigns to it and back gives the same number, for every number RFC 7540 defines; every other number becomes Unsupported, whose number is 0xFF. A setting number becomes the variant RFC 7540 assigns to it, or Unsupported, and keeps its value. Each is_*() query is true for its own variant only.",
 [IN], "all 2^8 type and error bytes, all 2^16 setting numbers and 2^32 values, all variants", "Value spaces too large to enumerate in tests; few are tested.",
 ["src/http2/error_code.rs", "src/http2/frame_type.rs", "src/http2/setting.rs"], [("conversion", "from_u8, as_byte, Setting::new, value, is_*")])
add("G09", "Frame flags and frame descriptions report their own bits",
 "Each flag query answers exactly whether the bit RFC 7540 assigns to it is set, and a frame description returns the payload length (up to 2^24-1), flags, stream identifier and frame type (Unsupported if unknown) it was created with.",
 [IN], "all 256 flag bytes, all frame header fields", "256 values times 5 flags.",
 ["src/http2/flags.rs", "src/http2/frame_format.rs"], [("flags", "Flags::is_*, FrameFormat accessors")])

# ---------------------------------------------------------------- util
add("H01", "Percent decoding is exact",
 "Decoding replaces every percent escape by the byte it denotes and every plus by a space and leaves all other visible bytes unchanged; a malformed escape or non-visible byte is an error carrying the offending byte (of an escape cut off by the end of the input: its last byte). Decoded bytes that are not UTF-8 become U+FFFD.",
 [IN], "all byte strings", "Unbounded inputs.",
 ["src/util/decode.rs", "src/collect.rs"], [("decode", "util::decode")])
add("H02", "Strings handed out are valid UTF-8",
 "No string returned by the percent decoder, the query iterator or the field iterator ever contains invalid UTF-8, whatever bytes or escapes the input contains: bytes that are not UTF-8 are replaced by U+FFFD.",
 [IN], "all byte strings", "Violations need particular high bytes or escapes.",
 UT, [("string construction", "as_mut_vec call sites in src/util")])
add("H03", "Iterators stop for good at the first error",
 "When the query or field iterator meets malformed input it reports exactly one error, ends the iteration, and yields nothing and reports nothing when asked again.",
 [IN, HI], "all malformed inputs, all later calls", "Tests stop at the first None.",
 UT, [("submit_error!", "src/util/field.rs, src/util/query.rs, collect_hex8_iter!")])
add("H04", "Header field iteration follows the field grammar",
 "The field iterator yields, in order, every parameter up to the delimiter with its exact name (token characters and slashes, upper case lowered if normalising) and its value, if any, unquoted and with backslash escapes of any byte inside quotes resolved; blanks before names and values and after closing quotes are skipped; a name followed by = and the end of the input has no value. Any other text is a name or value error carrying the offending byte (a missing closing quote: the last byte).",
 [IN], "all byte strings", "Grammar over unbounded inputs.",
 UT, [("field iterator", "src/util/field.rs")])
add("H05", "Query string iteration follows the query grammar",
 "The query iterator yields, in order, every ampersand- or semicolon-separated pair with its percent-decoded name and value, if any (empty if = is followed by the end or a separator); = inside a value is part of it. A query that starts with a separator or =, a malformed escape or a non-visible byte is a name or value error carrying the offending byte (of an escape cut off by the end: its last byte).",
 [IN], "all byte strings", "Grammar over unbounded inputs.",
 UT, [("query iterator", "src/util/query.rs")])

# ---------------------------------------------------------------- misc
add("I01", "Byte classification matches the RFC character classes",
 "The public byte classifiers answer, for each of the 256 byte values, exactly whether the byte is an RFC 7230 token character, header text (visible ASCII except the double quote, space, tab, and bytes from 0x80), or quoted-string text (header text except the backslash), and never fail.",
 [IN], "all 256 byte values, three classifiers", "Tables are only exercised through a few parser inputs.",
 ["src/byte.rs"], [("tables", "HEADER_FIELDS, QUOTED_HEADER_FIELDS, TOKENS")])
add("I02", "Callbacks a handler does not override let parsing continue",
 "Every callback of both handler traits that an implementation leaves out returns true without doing anything else (and declares no content length), so that it never interrupts parsing.",
 [PR], "all callbacks of both traits", "Tests override the callbacks they look at.",
 ["src/http1/http_handler.rs", "src/http2/http_handler.rs"], [("default methods", "HttpHandler traits")])
add("I03", "Parser memory use is constant",
 "A parser's size and everything it owns is fixed at creation: no input, however long, makes it retain stream bytes or grow.",
 [IN, HI, PR], "all inputs and histories", "Growth shows only on inputs longer than any test.",
 H1 + H2, [("parser fields", "struct Parser in http1 and http2")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
