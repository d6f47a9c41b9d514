"""More planted bugs (see seeds.py).  An edit may be (file, anchor, old, new): the first match behind the anchor."""
from seeds import bug, P1, P2, PRE1, PRE2  # noqa: F401

UD = 'src/util/decode.rs'
UF = 'src/util/field.rs'
UQ = 'src/util/query.rs'

# demonstrations without a parser
PREU = r"""extern crate http_box;
#[allow(unused_imports)]
use http_box::util::*;
#[allow(dead_code)]
fn same(got: String, want: &str) {
    if got != want { println!(" got {}\nwant {}", got, want); std::process::exit(1); }
}
#[allow(dead_code)]
fn fields(s: &[u8], d: u8, n: bool) -> String {
    let mut e = Vec::new();
    let mut out = Vec::new();
    {
        let mut it = FieldIterator::new(s, d, n);
        it.on_error(|x| e.push(format!("{:?}", x)));
        for _ in 0..50 { match it.next() { Some((n, v)) => out.push(format!("{}={:?}", n, v)), None => break } }
        for x in it.by_ref().take(5) { out.push(format!("again {:?}", x)); }
    }
    format!("{} {}", out.join(" "), e.join(" "))
}
#[allow(dead_code)]
fn query(s: &[u8]) -> String {
    let mut e = Vec::new();
    let mut out = Vec::new();
    {
        let mut it = QueryIterator::new(s);
        it.on_error(|x| e.push(format!("{:?}", x)));
        for _ in 0..50 { match it.next() { Some((n, v)) => out.push(format!("{}={:?}", n, v)), None => break } }
        for x in it.by_ref().take(5) { out.push(format!("again {:?}", x)); }
    }
    format!("{} {}", out.join(" "), e.join(" "))
}
"""


def b1(name, needs, breaks, edits, main, pre=PRE1):
    bug(name, name[:3], needs, breaks, edits, main, pre)


HEAD = 'fn main() {\n    let mut p = Parser::new(); p.init_head();\n'
CHUNK = 'fn main() {\n    let mut p = Parser::new(); p.init_chunked();\n'
MULTI = 'fn main() {\n    let mut p = Parser::new(); p.init_multipart(); p.set_boundary(b"XYZ");\n'
URL = 'fn main() {\n    let mut p = Parser::new(); p.init_url_encoded();\n'
REQ = 'method=\\"GET\\", url=\\"/\\", version 1.1, initial_finished, '


def w(pieces, end, log):
    return '    want(&mut p, &mut H::default(), &[%s], "%s",\n         "%s");\n' % (pieces, end, log)


b1('A01-name-23', 'a header name of 23 bytes at the very end of a slice', 'the 24th byte, which is not in the slice, is read and consumed',
   [(P1, 'fn first_header_name', 'bs_has_bytes!(context, 24)', 'bs_has_bytes!(context, 23)')],
   HEAD + r"""    let all = b"GET / HTTP/1.1\r\nContent-Security-Policy: x\r\n\r\n";
    want(&mut p, &mut H::default(), &[&all[..39], &all[39..]], "finished",
         "method=\"GET\", url=\"/\", version 1.1, initial_finished, name=\"content-security-policy\", value=\"x\", headers_finished");
}
""")

b1('A01-lf-peek', 'a slice that ends with the CR of an empty line', 'the byte behind the slice is read and consumed',
   [(P1, 'fn header_cr2', 'bs_has_bytes!(context, 2)', 'bs_has_bytes!(context, 1)')],
   HEAD + r"""    let all = b"GET / HTTP/1.1\r\nA: b\r\n\r\n";
    want(&mut p, &mut H::default(), &[&all[..all.len() - 1], &all[all.len() - 1..]], "finished",
         "method=\"GET\", url=\"/\", version 1.1, initial_finished, name=\"a\", value=\"b\", headers_finished");
}
""")

b1('A02-minor-digit', 'a byte below the digit zero where the minor version of a response is expected', 'the subtraction underflows and the parser panics',
   [(P1, 'fn response_version_minor1', """        if is_digit!(context.byte) {
            set_upper14!(self, (context.byte - b'0') as u32);
""", """        let digit = (context.byte - b'0') as u32;

        if digit < 10 {
            set_upper14!(self, digit);
""")],
   HEAD + r"""    feed(&mut p, &mut H::default(), &[b"HTTP/3. 200 OK\r\n"]);
}
""")


b1('A03-goaway-short', 'a GOAWAY frame with a payload length below eight', 'the payload length underflows and the parser panics',
   [(P2, 'fn go_away_callback', 'dec_payload_length!(self, 8);', 'self.bit_data32a -= 8 << 8;')],
   r"""fn main() {
    feed(&mut Parser::new(), &mut H::default(), &[&[0, 0, 7, 7, 0, 0, 0, 0, 0, 0, 0, 0, 5, 0, 1, 0, 2]]);
}
""", PRE2)

b1('A04-query-escape', 'a query that ends one byte after a percent sign in a value', 'a byte behind the end is read',
   [(UQ, "match self.context.byte {\n                    b'%' => {\n                        if bs_has_bytes!(self.context, 2) {\n                            self.value", 'bs_has_bytes!(self.context, 2)', '!bs_is_eos!(self.context)')],
   r"""fn main() {
    let all = b"a=%41";
    same(query(&all[..4]), " <QueryError::Value: 52>");
}
""", PREU)

b1('A05-open-bracket', 'the byte [ in a header name', 'two steps hand the byte to each other forever',
   [(P1, 'fn lower_header_name', "        if context.byte > 0x40 && context.byte < 0x5B {", "        if context.byte > 0x40 && context.byte < 0x5C {")],
   HEAD + r"""    feed(&mut p, &mut H::default(), &[b"GET / HTTP/1.1\r\na[b: c\r\n\r\n"]);
}
""")

b1('A05-ext-bracket', 'the byte [ in a chunk extension name', 'two steps hand the byte to each other forever',
   [(P1, 'fn lower_chunk_extension_name', "        } else if context.byte > 0x40 && context.byte < 0x5B {", "        } else if context.byte > 0x40 && context.byte < 0x5C {")],
   CHUNK + r"""    feed(&mut p, &mut H::default(), &[b"1;a[b=c\r\nA\r\n0\r\n\r\n"]);
}
""")

b1('A06-decode-percent', 'a percent sign as the last byte of the input to decode()', 'the loop never ends',
   [(UD, 'fn decode', """                if bs_has_bytes!(context, 1) {
                    bs_next!(context);
                }

                return Err(DecodeError::HexSequence(context.byte));""", """                if bs_has_bytes!(context, 1) {
                    bs_next!(context);

                    return Err(DecodeError::HexSequence(context.byte));
                }

                bs_replay!(context);""")],
   r"""fn main() { same(format!("{:?}", decode(b"abc%").is_err()), "true"); }
""", PREU)

b1('A07-status-copy', 'a status line', 'the reason phrase is copied to the heap',
   [(P1, 'fn response_status2', """        callback_ignore_transition!(
            self,
            handler,
            context,
            on_status,
            InitialEnd,
            initial_end
        );""", """        set_state!(self, InitialEnd, initial_end);

        if bs_slice_length!(context) > 1 {
            let reason = bs_slice_ignore!(context).to_vec();

            if handler.on_status(&reason) {
                transition!(self, context);
            }

            exit_callback!(self, context);
        }

        transition!(self, context);""")],
   r"""use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
struct Q;
impl HttpHandler for Q {}
fn main() {
    let mut p = Parser::new(); p.init_head();
    let a = N.load(Ordering::SeqCst);
    let _ = p.resume(&mut Q, b"HTTP/1.1 404 Not Found\r\nA: b\r\n\r\n");
    if N.load(Ordering::SeqCst) != a { println!("allocates"); std::process::exit(1); }
}
""")

b1('A07-static-scratch', 'two parsers fed in turn (or in two threads)', 'the first hexadecimal digit of an escape is kept in a static that all parsers share',
   [(P1, 'fn url_encoded_value_hex1', """        set_upper14!(
            self,
            if""", """        HEX_DIGIT.store(
            if"""),
    (P1, 'fn url_encoded_value_hex1', """                exit_error!(UrlEncodedValue, context.byte);
            }
        );""", """                exit_error!(UrlEncodedValue, context.byte);
            } as usize,
            Ordering::Relaxed
        );"""),
    (P1, 'fn url_encoded_value_hex2', '&[(get_upper14!(self) | get_lower14!(self)) as u8]', '&[(HEX_DIGIT.load(Ordering::Relaxed) as u32 | get_lower14!(self)) as u8]'),
    (P1, 'use http1::parser_type','use byte_slice::ByteStream;', 'use byte_slice::ByteStream;\nuse std::sync::atomic::{AtomicUsize, Ordering};\n\n/// First digit of a hex sequence.\nstatic HEX_DIGIT: AtomicUsize = AtomicUsize::new(0);\n')],
   r"""fn main() {
    let (mut p, mut q) = (Parser::new(), Parser::new());
    p.init_url_encoded(); p.set_length(5); q.init_url_encoded(); q.set_length(5);
    let (mut h, mut g) = (H::default(), H::default());
    feed(&mut p, &mut h, &[b"a=%4"]);
    feed(&mut q, &mut g, &[b"a=%7"]);
    want(&mut p, &mut h, &[b"1"], "finished", "pair, pname=\"a\", pvalue=\"A\", body_finished");
}
""")

b1('B01-escape-held', 'a header value cut right after a backslash', 'the length reported is one less than the slice',
   [(P1, 'fn header_escaped_value', """        if bs_available!(context) == 0 {
            callback_eos_expr!(""", """        if bs_available!(context) == 0 {
            bs_replay!(context);
            set_state!(self, HeaderQuotedValue, header_quoted_value);

            callback_eos_expr!(""")],
   HEAD + r"""    let e = feed(&mut p, &mut H::default(), &[b"GET / HTTP/1.1\r\nA: \"b\\", b"\\c\"\r\n\r\n"]);
    if e.starts_with("Eos") { println!("{}", e); std::process::exit(1); }
}
""")


b1('B03-status-restart', 'a reason phrase cut right before the CR', 'the phrase is rejected with a status error',
   [(P1, 'fn response_status2', """            callback!(self, handler, context, on_status, {
                exit_eos!(self, context);
            })""", """            {
                set_state!(self, ResponseStatus1, response_status1);

                callback_eos_expr!(self, handler, context, on_status)
            }""")],
   HEAD + w(r'b"HTTP/1.1 200 OK", b"\r\nA: b\r\n\r\n"', 'finished', r'version 1.1, code 200, status=\"OK\", initial_finished, name=\"a\", value=\"b\", headers_finished') + '}\n')

b1('B04-quote-cut', 'a quoted chunk extension value cut inside the quotes', 'the parser forgets that it is inside quotes',
   [(P1, 'fn chunk_extension_quoted_value', """            callback_eos_expr!(self, handler, context, on_chunk_extension_value)
        );""", """            {
                set_state!(self, ChunkExtensionValue, chunk_extension_value);

                callback_eos_expr!(self, handler, context, on_chunk_extension_value)
            }
        );""")],
   CHUNK + w(r'b"1;a=\"b", b";c\"\r\nA\r\n0\r\n\r\n"', 'finished', r'chunk_begin, length 1, ext_name=\"a\", ext_value=\"b;c\", ext_finished, exts_finished, chunk_data=\"A\", chunk_begin, length 0, headers_finished, body_finished') + '}\n')

b1('B06-scratch', 'a URL encoded body cut between the two digits of an escape', 'the first digit is lost',
   [(P1, 'Ok(Success::Eos(length)) => {', """                        self.length -= length;

                        Ok(Success::Eos(length))""", """                        self.length  -= length;
                        self.bit_data = 0;

                        Ok(Success::Eos(length))""")],
   URL + r"""    p.set_length(5);
    want(&mut p, &mut H::default(), &[b"a=%4", b"1"], "finished", "pair, pname=\"a\", pvalue=\"A\", body_finished");
}
""")

b1('B10-dead-empty', 'a dead parser resumed with an empty slice', 'the call asks for more data instead of failing',
   [(P1, 'fn dead', '        exit_error!(Dead);', '        exit_if_eos!(self, _context);\n        exit_error!(Dead);')],
   HEAD + r"""    let mut h = H::default();
    feed(&mut p, &mut h, &[b"GET / HTTQ"]);
    if p.resume(&mut h, b"").is_ok() { println!("ok after error"); std::process::exit(1); }
}
""")

b1('B11-finished-empty', 'a finished parser resumed with an empty slice', 'the call asks for more data instead of reporting completion',
   [(P1, 'fn finished', '        exit_finished!(self, context);', '        exit_if_eos!(self, context);\n        exit_finished!(self, context);')],
   HEAD + r"""    let mut h = H::default();
    feed(&mut p, &mut h, &[b"GET / HTTP/1.1\r\nA: b\r\n\r\n ", b""]);
    want(&mut p, &mut H::default(), &[b""], "finished", "");
}
""")

b1('C01-second-tab', 'a tab that is not the first of several blanks in front of a head', 'the tab is taken for a method byte',
   [(P1, 'fn strip_detect', """                if context.byte == b'\\r' || context.byte == b'\\n'
                || context.byte == b'\\t' || context.byte == b' ' {
                    continue;""", """                if context.byte == b'\\r' || context.byte == b'\\n'
                || context.byte == b' ' {
                    continue;""")],
   HEAD + w(r'b" \tGET / HTTP/1.1\r\nA: b\r\n\r\n"', 'finished', REQ + r'name=\"a\", value=\"b\", headers_finished') + '}\n')

b1('C02-get-prefix', 'a method that starts with GET and has one more letter', 'the fourth letter is dropped',
   [(P1, 'fn detect1', 'bs_starts_with4!(context, b"GET ")', 'bs_starts_with3!(context, b"GET")')],
   HEAD + w(r'b"GETX /abc HTTP/1.1\r\nA: b\r\n\r\n"', 'finished', r'method=\"GETX\", url=\"/abc\", version 1.1, initial_finished, name=\"a\", value=\"b\", headers_finished') + '}\n')

b1('C03-url-del', 'a URL with a byte above 0x7E after the first one', 'the byte is delivered',
   [(P1, 'fn request_url2', """        collect_visible_7bit!(
            context,
""", """        bs_collect!(
            context,

            if context.byte < 0x21 {
                break;
            },
""")],
   HEAD + w(r'b"GET /a\xE9 HTTP/1.1\r\n\r\n"', '<ParserError::Url: Invalid URL on byte 233>', r'method=\"GET\"') + '}\n')

b1('C04-quick-version', 'a response version with more than one minor digit', 'the second digit is swallowed',
   [(P1, 'fn detect1', 'bs_starts_with9!(context, b"HTTP/1.1 ")', 'bs_starts_with8!(context, b"HTTP/1.1")')],
   HEAD + w(r'b"HTTP/1.12 200 OK\r\nA: b\r\n\r\n"', 'finished', r'version 1.12, code 200, status=\"OK\", initial_finished, name=\"a\", value=\"b\", headers_finished') + '}\n')

b1('C04-minor-carry', 'a request with a three-digit minor version', 'the third digit is not appended but or-ed in',
   [(P1, 'fn request_version_minor3', "(get_upper14!(self) * 10) + (context.byte - b'0') as u32", "(get_upper14!(self) * 10) | (context.byte - b'0') as u32")],
   HEAD + w(r'b"GET / HTTP/1.237\r\nA: b\r\n\r\n"', 'finished', r'method=\"GET\", url=\"/\", version 1.237, initial_finished, name=\"a\", value=\"b\", headers_finished') + '}\n')

b1('C05-second-digit', 'a letter as the second digit of a status code that arrives in one piece', 'a code is delivered instead of an error',
   [(P1, 'fn response_status_code1', """            set_lower14!(self, (context.byte - b'0') as u32 * 100);

            bs_next!(context);

            if !is_digit!(context.byte) {""", """            set_lower14!(self, (context.byte - b'0') as u32 * 100);

            bs_next!(context);

            if context.byte < b'0' {""")],
   HEAD + w(r'b"HTTP/1.1 2A0 OK\r\n\r\n"', '<ParserError::StatusCode: Invalid status code on byte 65>', 'version 1.1') + '}\n')

b1('C06-name-table', 'a Content-Security-Policy header that arrives in one piece', 'its name is delivered with a capital letter',
   [(P1, 'name!(b"content-security-policy", 24)', 'name!(b"content-security-Policy", 24)')],
   HEAD + w(r'b"GET / HTTP/1.1\r\nContent-Security-Policy: x\r\n\r\n"', 'finished', REQ + r'name=\"content-security-policy\", value=\"x\", headers_finished') + '}\n')

b1('C06-first-upper', 'an upper-case letter Z in a header name that is not in the table', 'it is delivered in upper case',
   [(P1, 'fn lower_header_name', """            context.byte > 0x40 && context.byte < 0x5B,
""", """            context.byte > 0x40 && context.byte < 0x5A,
""")],
   HEAD + w(r'b"GET / HTTP/1.1\r\naZb: x\r\n\r\n"', 'finished', REQ + r'name=\"azb\", value=\"x\", headers_finished') + '}\n')

b1('C07-continued-blanks', 'a continuation line that starts with more than one blank', 'the further blanks are dropped',
   [(P1, 'fn check_header_name', """                HeaderValue,
                header_value
""", """                StripHeaderValue,
                strip_header_value
""")],
   HEAD + w(r'b"GET / HTTP/1.1\r\na: x\r\n  y\r\n\r\n"', 'finished', REQ + r'name=\"a\", value=\"x y\", headers_finished') + '}\n')

b1('C08-escaped-control', 'a backslash followed by a control byte in a quoted header value', 'the control byte is delivered',
   [(P1, 'fn header_escaped_value', 'context.byte > 0x1F && context.byte < 0x7B', 'context.byte > 0x00 && context.byte < 0x7B')],
   HEAD + r"""    let mut h = H::default();
    feed(&mut p, &mut h, &[b"GET / HTTP/1.1\r\na: \"x\\\ny\"\r\n\r\n"]);
    if h.log.iter().any(|x| x.1.contains(&10)) { println!("line feed delivered"); std::process::exit(1); }
}
""")


b1('C09-cr-any', 'a CR followed by something else than LF at the start of a header line, arriving in one piece', 'the head is taken to end there',
   [(P1, 'fn header_cr2', 'bs_starts_with2!(context, b"\\r\\n")', 'bs_starts_with1!(context, b"\\r")')],
   HEAD + r"""    let e = feed(&mut p, &mut H::default(), &[b"GET / HTTP/1.1\r\na: x\r\n\rb: c\r\n\r\n"]);
    if e == "finished" { println!("{}", e); std::process::exit(1); }
}
""")

b1('C10-slow-version', 'a request whose version is not one of the three common ones', 'the end of its first line is not announced',
   [(P1, 'fn request_version_cr', 'set_state!(self, InitialEnd, initial_end);', 'set_state!(self, InitialLf, initial_lf);')],
   HEAD + w(r'b"GET / HTTP/3.2\r\nA: b\r\n\r\n"', 'finished', r'method=\"GET\", url=\"/\", version 3.2, initial_finished, name=\"a\", value=\"b\", headers_finished') + '}\n')

b1('C11-quoted-kind', 'a control byte inside a quoted header value', 'the error names the header name instead of the value',
   [(P1, 'fn header_quoted_value', 'Err(ParserError::HeaderValue(context.byte))', 'Err(ParserError::HeaderName(context.byte))')],
   HEAD + r"""    let e = feed(&mut p, &mut H::default(), &[b"GET / HTTP/1.1\r\na: \"x\x01y\"\r\n\r\n"]);
    if !e.contains("HeaderValue") { println!("{}", e); std::process::exit(1); }
}
""")

b1('D01-long-length', 'a chunk length of more than eight digits', 'it is accepted and truncated at some length',
   [(P1, 'fn chunk_length8', """            self.length  |= hex_to_byte!(context.byte) as usize;
        } else {
            bs_replay!(context);
        }
""", """            self.length  |= hex_to_byte!(context.byte) as usize;

            transition!(self, context);
        }

        bs_replay!(context);
""")],
   CHUNK + r"""    let e = feed(&mut p, &mut H::default(), &[b"100000000000000001\r\nA\r\n0\r\n\r\n"]);
    if !e.contains("ChunkLength") { println!("{}", e); std::process::exit(1); }
}
""")

b1('D02-bare-lf', 'chunk data followed by LF without CR', 'the LF is accepted as the end of the chunk',
   [(P1, 'fn chunk_data_cr', """        }

        Err(ParserError::CrlfSequence(context.byte))""", """        } else if context.byte == b'\\n' {
            transition!(
                self,
                context,
                ChunkLength1,
                chunk_length1
            );
        }

        Err(ParserError::CrlfSequence(context.byte))""")],
   CHUNK + r"""    let e = feed(&mut p, &mut H::default(), &[b"1\r\nA\n0\r\n\r\n"]);
    if e == "finished" { println!("{}", e); std::process::exit(1); }
}
""")

b1('D03-second-blank', 'a blank in front of the second extension of a chunk', 'the extension is rejected',
   [(P1, 'fn chunk_extension_finished', 'set_state!(self, StripChunkExtensionName, strip_chunk_extension_name);', 'set_state!(self, LowerChunkExtensionName, lower_chunk_extension_name);')],
   CHUNK + w(r'b"1;a=b; c=d\r\nA\r\n0\r\n\r\n"', 'finished', r'chunk_begin, length 1, ext_name=\"a\", ext_value=\"b\", ext_finished, ext_name=\"c\", ext_value=\"d\", ext_finished, exts_finished, chunk_data=\"A\", chunk_begin, length 0, headers_finished, body_finished') + '}\n')

b1('D04-trailer-finish', 'a chunked body with trailers', 'the body is reported finished with the end of the trailers twice',
   [(P1, 'fn body_finished', '        set_state!(self, Finished, finished);', '        if bs_available!(context) == 0 {\n            set_state!(self, Finished, finished);\n        } else {\n            set_state!(self, Finished, finished);\n            bs_jump!(context, 1);\n        }')],
   CHUNK + r"""    let n = p.resume(&mut H::default(), b"0\r\n\r\nGET");
    if n != Ok(http_box::fsm::Success::Finished(5)) { println!("{:?}", n); std::process::exit(1); }
}
""")

b1('D05-length-again', 'a chunk length callback that returns false with an extension following', 'the length is delivered again when the parser is resumed',
   [(P1, 'fn chunk_length_cr', """            callback_transition!(
                self,
                handler,
                context,
                on_chunk_length,
                self.length,
                StripChunkExtensionName,
                strip_chunk_extension_name
            );""", """            if handler.on_chunk_length(self.length) {
                transition!(
                    self,
                    context,
                    StripChunkExtensionName,
                    strip_chunk_extension_name
                );
            }

            bs_replay!(context);
            exit_callback!(self, context);""")],
   r"""struct S { n: usize }
impl HttpHandler for S { fn on_chunk_length(&mut self, _: usize) -> bool { self.n += 1; self.n > 1 } }
fn main() {
    let mut p = Parser::new(); p.init_chunked();
    let mut h = S { n: 0 };
    let s = b"1;a=b\r\nA\r\n";
    let mut at = 0;
    for _ in 0..20 { match p.resume(&mut h, &s[at..]) { Ok(http_box::fsm::Success::Callback(n)) => at += n, _ => break } }
    if h.n != 1 { println!("length delivered {} times", h.n); std::process::exit(1); }
}
""")

b1('E01-one-hyphen', 'part data containing a line break followed by one hyphen', 'the hyphen is lost',
   [(P1, 'fn multipart_hyphen2', 'b"\\r\\n-"', 'b"\\r\\n"')],
   MULTI + w(r'b"--XYZ\r\nA: b\r\n\r\nx\r\n-y\r\n--XYZ--"', 'finished', r'multipart_begin, name=\"a\", value=\"b\", headers_finished, multipart_data=\"x\r\n-y\", body_finished') + '}\n')

b1('E02-three-pieces', 'a boundary that arrives in three pieces', 'the position in the boundary is set instead of advanced, so the boundary is missed',
   [(P1, 'fn multipart_boundary(', 'inc_upper14!(self, length);', 'set_upper14!(self, length);')],
   MULTI + w(r'b"--XYZ\r\nA: b\r\n\r\nx\r\n--X", b"Y", b"Z--"', 'finished', r'multipart_begin, name=\"a\", value=\"b\", headers_finished, multipart_data=\"x\", body_finished') + '}\n')

b1('E03-boundary-missing', 'a part of declared length behind a part without, followed by something else than a boundary', 'what follows is delivered as data of the part',
   [(P1, 'fn multipart_detect_data', '            set_lower14!(self, 1);\n\n', '')],
   MULTI + r"""    let mut h = H::default();
    feed(&mut p, &mut h, &[b"--XYZ\r\nA: b\r\n\r\nx\r\n--XYZ\r"]);
    h.len = Some(1);
    let e = feed(&mut p, &mut h, &[b"\nA: b\r\n\r\nx\r\nmore\r\n--XYZ--"]);
    if !e.contains("MultipartBoundary") { println!("{}", e); std::process::exit(1); }
}
""")

b1('E04-one-hyphen-end', 'a boundary followed by one hyphen and something else', 'the body is taken to be finished',
   [(P1, 'fn multipart_boundary_cr', """            transition!(
                self,
                context,
                MultipartEnd,
                multipart_end
            );""", """            if bs_available!(context) > 0 {
                bs_jump!(context, 1);

                transition!(
                    self,
                    context,
                    BodyFinished,
                    body_finished
                );
            }

            transition!(
                self,
                context,
                MultipartEnd,
                multipart_end
            );""")],
   MULTI + r"""    let e = feed(&mut p, &mut H::default(), &[b"--XYZ\r\nA: b\r\n\r\nx\r\n--XYZ-+"]);
    if e == "finished" { println!("{}", e); std::process::exit(1); }
}
""")

b1('F01-hex-g', 'the letter G as the second digit of an escape in a value', 'it is taken for a digit',
   [(P1, 'fn url_encoded_value_hex2', "context.byte < b'G'", "context.byte < b'H'")],
   URL + r"""    p.set_length(5);
    let e = feed(&mut p, &mut H::default(), &[b"a=%0G"]);
    if !e.contains("UrlEncodedValue") { println!("{}", e); std::process::exit(1); }
}
""")

b1('F02-name-only', 'a pair without value followed by another pair', 'the second pair is not announced',
   [(P1, 'fn url_encoded_name(', """                    on_url_encoded_name,
                    FirstUrlEncodedName,
                    first_url_encoded_name""", """                    on_url_encoded_name,
                    UrlEncodedName,
                    url_encoded_name""")],
   URL + r"""    p.set_length(5);
    want(&mut p, &mut H::default(), &[b"a&b=c"], "finished", "pair, pname=\"a\", pair, pname=\"b\", pvalue=\"c\", body_finished");
}
""")

b1('G04-long-piece', 'a piece of 65536 bytes or more of a longer payload', 'only the lower 16 bits of its length are subtracted',
   [(P2, 'macro_rules! parse_payload_data', 'dec_payload_length!($parser, bs_available!($context) as u32);', 'dec_payload_length!($parser, bs_available!($context) as u16 as u32);')],
   r"""fn main() {
    let mut p = Parser::new();
    let mut h = H::default();
    feed(&mut p, &mut h, &[&[1, 0, 1, 6, 0, 0, 0, 0, 0]]);
    feed(&mut p, &mut h, &[&vec![7u8; 65536]]);
    feed(&mut p, &mut h, &[&[8u8][..], &[0, 0, 1, 6, 0, 0, 0, 0, 0, 9]]);
    if h.log.last().map(|x| x.as_str()) != Some("ping=[9]") { println!("{}", h.log.len()); std::process::exit(1); }
}
""", PRE2)

b1('G06-window-six', 'a WINDOW_UPDATE frame cut inside its increment', 'the bytes read are fewer than the payload, so the next frame header is shifted',
   [(P2, 'fn window_update_increment2', """            WindowUpdateIncrement3,
            window_update_increment3""", """            WindowUpdateIncrement4,
            window_update_increment4""")],
   r"""fn main() {
    want(&mut Parser::new(), &mut H::default(), &[&[0, 0, 4, 8, 0, 0, 0, 0, 0, 0], &[0, 0, 5, 0, 0, 1, 6, 0, 0, 0, 0, 0, 9]], "more",
         "frame 4 8 0 0, window_update 5, frame 1 6 0 0, ping=[9]");
}
""", PRE2)

b1('G08-swapped-codes', 'the error codes 0xC and 0xD', 'their variants are swapped when a number is converted',
   [('src/http2/error_code.rs', 'E_HTTP_1_1_REQUIRED   => ErrorCode::Http11Required,', 'E_HTTP_1_1_REQUIRED   => ErrorCode::InadequateSecurity,'),
    ('src/http2/error_code.rs', 'E_INADEQUATE_SECURITY => ErrorCode::InadequateSecurity,', 'E_INADEQUATE_SECURITY => ErrorCode::Http11Required,')],
   r"""fn main() {
    if !http_box::http2::ErrorCode::from_u8(0xC).is_inadequate_security() { println!("wrong variant"); std::process::exit(1); }
}
""", PREU)

b1('G08-setting-width', 'a setting number above 255', 'only its lower eight bits are looked at',
   [('src/http2/setting.rs', 'match id {', 'match id & 0xFF {')],
   r"""fn main() {
    if http_box::http2::Setting::EnablePush(0).new(0x101, 7).is_header_table_size() { println!("wrong variant"); std::process::exit(1); }
}
""", PREU)

b1('G09-flags-mask', 'a frame with the priority flag and another one', 'the flag is reported only if it is alone',
   [('src/http2/flags.rs', 'pub fn is_priority', 'self.flags & FL_PRIORITY == FL_PRIORITY', 'self.flags & !FL_END_STREAM == FL_PRIORITY')],
   r"""fn main() {
    let f = http_box::http2::Flags::from_u8(0x24);
    if !f.is_priority() { println!("not priority"); std::process::exit(1); }
}
""", PREU)

b1('H01-lower-hex', 'a lower-case letter f as the first digit of an escape', 'the escape is rejected',
   [('src/collect.rs', 'macro_rules! collect_hex8 {', "$context.byte < b'g' {\n                ($context.byte - 0x57) << 4", "$context.byte < b'f' {\n                ($context.byte - 0x57) << 4")],
   r"""fn main() { same(decode(b"%f0%9f%98%80").unwrap_or("error".to_string()), "\u{1F600}"); }
""", PREU)

b1('H03-second-item', 'an invalid byte in the value of a query', 'the iterator goes on behind it',
   [(UQ, 'submit_name_value!(self);\n                    },\n                    _ => {\n', '                        bs_jump!(self.context, bs_available!(self.context));\n\n', '')],
   r"""fn main() { same(query(b"a=b\x01&c=d"), " <QueryError::Value: 1>"); }
""", PREU)

b1('H04-quoted-delimiter', 'the delimiter inside a quoted value right after an escape', 'the value ends there',
   [(UF, "} else if self.context.byte == b'\\\\' {", 'self.value.push(self.context.byte);', "self.value.push(self.context.byte);\n\n                                if bs_has_bytes!(self.context, 1) {\n                                    bs_next!(self.context);\n\n                                    if self.context.byte == self.delimiter {\n                                        submit_name_value!(self);\n                                    }\n\n                                    bs_replay!(self.context);\n                                }")],
   r"""fn main() { same(fields(b"a=\"x\\\";y\";b=c", b';', true), "a=Some(\"x\\\";y\") b=Some(\"c\") "); }
""", PREU)

b1('H05-equals-in-value', 'a second equals sign in a value', 'the value is cut there',
   [(UQ, 'submit_name!(self);\n                    },\n                    _ => {', """                       self.context.byte == b'%'
                    || self.context.byte == b'+'
                    || self.context.byte == b'&'""", """                       self.context.byte == b'%'
                    || self.context.byte == b'+'
                    || self.context.byte == b'='
                    || self.context.byte == b'&'"""),
    (UQ, 'self.value.push(b\' \');', """                      b'&'
                    | b';' => {""", """                      b'&'
                    | b'='
                    | b';' => {""")],
   r"""fn main() { same(query(b"a=b=c&d=e"), "a=Some(\"b=c\") d=Some(\"e\") "); }
""", PREU)

b1('I01-token-bar', 'the byte 0x7C', 'it is not classified as a token character',
   [('src/byte.rs', 'static TOKENS', 'false, true,  false, true,', 'false, false, false, true,')],
   r"""fn main() { same(format!("{}", http_box::byte::is_token(b'|')), "true"); }
""", PREU)

b1('I02-status-stop', 'a handler that leaves out on_status', 'parsing is interrupted',
   [('src/http1/http_handler.rs', 'fn on_status(', 'true', 'false')],
   r"""struct Q;
impl HttpHandler for Q {}
fn main() {
    let mut p = Parser::new(); p.init_head();
    let e = p.resume(&mut Q, b"HTTP/1.1 404 Not Found\r\nA: b\r\n\r\n");
    if e != Ok(http_box::fsm::Success::Finished(32)) { println!("{:?}", e); std::process::exit(1); }
}
""")

b1('I03-history', 'a long stream', 'the parser keeps the statuses it has seen',
   [(P1, '    /// Current state.\n    state: ParserState,', '    /// Current state.\n    state: ParserState,\n\n    /// Lengths of the chunks so far.\n    chunks: Vec<usize>,'),
    (P1, 'state:          ParserState::Detect1,', 'state:          ParserState::Detect1,\n            chunks:         Vec::new(),'),
    (P1, 'fn chunk_length_lf', "if context.byte == b'\\n' {", "if context.byte == b'\\n' {\n            self.chunks.push(self.length);\n")],
   r"""use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
struct Q;
impl HttpHandler for Q {}
fn main() {
    let mut p = Parser::new(); p.init_chunked();
    let a = N.load(Ordering::SeqCst);
    for _ in 0..1000 { let _ = p.resume(&mut Q, b"1\r\nA\r\n"); }
    if N.load(Ordering::SeqCst) != a { println!("allocates"); std::process::exit(1); }
}
""")
