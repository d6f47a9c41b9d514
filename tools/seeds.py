"""Planted bugs: name -> (property, needs, breaks, [(file, old, new)], demonstration)."""
P1 = 'src/http1/parser.rs'
PRE1 = r"""extern crate http_box;
use http_box::http1::{HttpHandler, Parser};

#[allow(dead_code)]
#[derive(Default)]
struct H { log: Vec<(String, Vec<u8>)>, stop: bool, len: Option<usize> }
impl H {
    fn data(&mut self, n: &str, d: &[u8]) -> bool {
        if d.len() > 0 {
            if let Some(l) = self.log.last_mut() { if l.0 == n { l.1.extend_from_slice(d); return !self.stop; } }
            self.log.push((n.to_string(), d.to_vec()));
        }
        !self.stop
    }
    fn ev(&mut self, n: String) -> bool { self.log.push((n, vec![])); !self.stop }
}
impl HttpHandler for H {
    fn content_length(&mut self) -> Option<usize> { self.len }
    fn on_body_finished(&mut self) -> bool { self.ev("body_finished".to_string()) }
    fn on_chunk_begin(&mut self) -> bool { self.ev("chunk_begin".to_string()) }
    fn on_chunk_data(&mut self, d: &[u8]) -> bool { self.data("chunk_data", d) }
    fn on_chunk_extension_finished(&mut self) -> bool { self.ev("ext_finished".to_string()) }
    fn on_chunk_extension_name(&mut self, d: &[u8]) -> bool { self.data("ext_name", d) }
    fn on_chunk_extension_value(&mut self, d: &[u8]) -> bool { self.data("ext_value", d) }
    fn on_chunk_extensions_finished(&mut self) -> bool { self.ev("exts_finished".to_string()) }
    fn on_chunk_length(&mut self, n: usize) -> bool { self.ev(format!("length {}", n)) }
    fn on_header_name(&mut self, d: &[u8]) -> bool { self.data("name", d) }
    fn on_header_value(&mut self, d: &[u8]) -> bool { self.data("value", d) }
    fn on_headers_finished(&mut self) -> bool { self.ev("headers_finished".to_string()) }
    fn on_initial_finished(&mut self) -> bool { self.ev("initial_finished".to_string()) }
    fn on_method(&mut self, d: &[u8]) -> bool { self.data("method", d) }
    fn on_multipart_begin(&mut self) -> bool { self.ev("multipart_begin".to_string()) }
    fn on_multipart_data(&mut self, d: &[u8]) -> bool { self.data("multipart_data", d) }
    fn on_status(&mut self, d: &[u8]) -> bool { self.data("status", d) }
    fn on_status_code(&mut self, n: u16) -> bool { self.ev(format!("code {}", n)) }
    fn on_url(&mut self, d: &[u8]) -> bool { self.data("url", d) }
    fn on_url_encoded_begin(&mut self) -> bool { self.ev("pair".to_string()) }
    fn on_url_encoded_name(&mut self, d: &[u8]) -> bool { self.data("pname", d) }
    fn on_url_encoded_value(&mut self, d: &[u8]) -> bool { self.data("pvalue", d) }
    fn on_version(&mut self, a: u16, b: u16) -> bool { self.ev(format!("version {}.{}", a, b)) }
}
#[allow(dead_code)]
fn show(l: &[(String, Vec<u8>)]) -> String {
    l.iter().map(|x| if x.1.is_empty() { x.0.clone() } else { format!("{}={:?}", x.0, String::from_utf8_lossy(&x.1)) }).collect::<Vec<_>>().join(", ")
}
// feeds the pieces; a call stopped by a callback is resumed with the rest
#[allow(dead_code)]
fn feed(p: &mut Parser<H>, h: &mut H, pieces: &[&[u8]]) -> String {
    use http_box::fsm::Success::*;
    for piece in pieces {
        let mut rest: &[u8] = piece;
        for _ in 0..100000 {
            match p.resume(h, rest) {
                Ok(Eos(n)) => { if n != rest.len() { return format!("Eos({}) for {} bytes", n, rest.len()); } break; }
                Ok(Callback(n)) => { rest = &rest[n..]; }
                Ok(Finished(_)) => return "finished".to_string(),
                Err(e) => return format!("{:?}", e),
            }
        }
    }
    "more".to_string()
}
#[allow(dead_code)]
fn want(p: &mut Parser<H>, h: &mut H, pieces: &[&[u8]], end: &str, log: &str) {
    let e = feed(p, h, pieces);
    let l = show(&h.log);
    if e != end || l != log {
        println!("outcome {} (want {})\n got {}\nwant {}", e, end, l, log);
        std::process::exit(1);
    }
}
"""

BUGS = {}


def bug(name, prop, needs, breaks, edits, main, pre=PRE1):
    BUGS[name] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, main=pre + main)


bug('B04-data-cut', 'B04', 'chunk data that spans two calls', 'the remaining chunk length is reduced after the data was collected, by nothing',
    [(P1, """        self.length -= bs_available!(context);

        bs_collect_length!(context, bs_available!(context));

        callback_transition!(
            self,
            handler,
            context,
            on_chunk_data,""", """        bs_collect_length!(context, bs_available!(context));

        self.length -= bs_available!(context);

        callback_transition!(
            self,
            handler,
            context,
            on_chunk_data,""")],
    r"""fn main() {
    let mut p = Parser::new(); p.init_chunked(); let mut h = H::default();
    want(&mut p, &mut h, &[b"4\r\nab", b"cd\r\n0\r\n\r\n"], "finished",
         "chunk_begin, length 4, exts_finished, chunk_data=\"abcd\", chunk_begin, length 0, headers_finished, body_finished");
}
""")

bug('B03-escape-cut', 'B03', 'a header value cut right after a backslash', 'the bytes of the value before the cut are lost',
    [(P1, """        if bs_available!(context) == 0 {
            callback_eos_expr!(self, handler, context, on_header_value);
        }

        bs_next!(context);

        // escaped bytes must be 7bit, and cannot be control characters
        if context.byte > 0x1F && context.byte < 0x7B {
            callback_transition!(
                self,
                handler,
                context,
                on_header_value,""", """        if bs_available!(context) == 0 {
            exit_eos!(self, context);
        }

        bs_next!(context);

        // escaped bytes must be 7bit, and cannot be control characters
        if context.byte > 0x1F && context.byte < 0x7B {
            callback_transition!(
                self,
                handler,
                context,
                on_header_value,""")],
    r"""fn main() {
    let mut p = Parser::new(); p.init_head(); let mut h = H::default();
    want(&mut p, &mut h, &[b"GET / HTTP/1.1\r\na: \"x\\", b"y\"\r\n\r\n"], "finished",
         "method=\"GET\", url=\"/\", version 1.1, initial_finished, name=\"a\", value=\"\\\"x\\\\y\\\"\", headers_finished");
}
""")

bug('B08-finish-twice', 'B08', 'on_body_finished() returns false', 'on_body_finished() is called again when the parser is resumed',
    [(P1, """        set_state!(self, Finished, finished);

        if handler.on_body_finished() {
            transition!(self, context);
        }
""", """        if handler.on_body_finished() {
            set_state!(self, Finished, finished);

            transition!(self, context);
        }
""")],
    r"""fn main() {
    let mut p = Parser::new(); p.init_chunked(); let mut h = H::default(); h.stop = true;
    want(&mut p, &mut h, &[b"0\r\n\r\n"], "finished", "chunk_begin, length 0, headers_finished, body_finished");
}
""")

bug('A01-cr-peek', 'A01', 'a slice that ends right after the line end of a header', 'one byte behind the slice is read and consumed',
    [(P1, """            if bs_has_bytes!(context, 2) && bs_starts_with2!(context, b"\\r\\n") {
                bs_jump!(context, 2);

                transition!(
                    self,
                    context,
                    HeaderCr2,
                    header_cr2
                );""", """            if bs_has_bytes!(context, 1) && bs_starts_with2!(context, b"\\r\\n") {
                bs_jump!(context, 2);

                transition!(
                    self,
                    context,
                    HeaderCr2,
                    header_cr2
                );""")],
    r"""fn main() {
    let d = b"GET / HTTP/1.1\r\na: b\r\n\r\n";
    for i in 1..d.len() {
        let mut p = Parser::new(); p.init_head(); let mut h = H::default();
        want(&mut p, &mut h, &[&d[..i], &d[i..]], "finished",
             "method=\"GET\", url=\"/\", version 1.1, initial_finished, name=\"a\", value=\"b\", headers_finished");
    }
}
""")

bug('B13-bits-kept', 'B13', 'a parser re-initialised in the middle of a version number', 'digits of the old message leak into the new one',
    [(P1, """    pub fn reset(&mut self) {
        self.bit_data = 0;
        self.boundary = None;""", """    pub fn reset(&mut self) {
        self.boundary = None;""")],
    r"""fn main() {
    let mut p = Parser::new(); let mut h = H::default();
    p.init_multipart(); p.set_boundary(b"XX");
    feed(&mut p, &mut h, &[b"--X"]);
    p.init_multipart(); p.set_boundary(b"XX");
    h.log.clear();
    want(&mut p, &mut h, &[b"--XX\r\n"], "more", "multipart_begin");
}
""")

bug('B05-stale-index', 'B05', 'a multipart body cut inside something that starts like the boundary', 'the comparison index is not reset after a mismatch, so the next delimiter is missed or garbled',
    [(P1, """            if get_lower14!(self) == 0 {
                // reset boundary comparison index
                set_upper14!(self, 0);

                callback_transition!(""", """            if get_lower14!(self) == 0 {
                callback_transition!(""")],
    r"""fn main() {
    let mut p = Parser::new(); p.init_multipart(); p.set_boundary(b"XYZ"); let mut h = H::default();
    want(&mut p, &mut h, &[b"--XYZ\r\na: b\r\n\r\nd\r\n--X", b"aX\r\n--XYZ--"], "finished",
         "multipart_begin, name=\"a\", value=\"b\", headers_finished, multipart_data=\"d\\r\\n--XaX\", body_finished");
}
""")

bug('A05-upper-z', 'A05', 'a chunk extension name with an upper-case Z', 'two states hand the byte to each other forever',
    [(P1, """        if context.byte > 0x40 && context.byte < 0x5B {
            callback_transition!(
                self,
                handler,
                context,
                on_chunk_extension_name,
                &[context.byte + 0x20],""", """        if context.byte > 0x40 && context.byte < 0x5A {
            callback_transition!(
                self,
                handler,
                context,
                on_chunk_extension_name,
                &[context.byte + 0x20],""")],
    r"""fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(5)); std::process::exit(3) });
    let mut p = Parser::new(); p.init_chunked(); let mut h = H::default();
    want(&mut p, &mut h, &[b"1;aZ\r\nx\r\n"], "more",
         "chunk_begin, length 1, ext_name=\"az\", ext_finished, exts_finished, chunk_data=\"x\"");
}
""")

bug('F03-callback-length', 'F03', 'a callback that returns false in a URL encoded body followed by other data', 'the bytes of the interrupted call are not counted against the declared length',
    [(P1, """                Ok(Success::Callback(length)) => {
                    self.length -= length;

                    Ok(Success::Callback(length))""", """                Ok(Success::Callback(length)) => {
                    Ok(Success::Callback(length))""")],
    r"""fn main() {
    let mut p = Parser::new(); p.init_url_encoded(); p.set_length(5); let mut h = H::default(); h.stop = true;
    want(&mut p, &mut h, &[b"a=b&cGET /"], "finished",
         "pair, pname=\"a\", pvalue=\"b\", pair, pname=\"c\", body_finished");
}
""")

bug('B12-state-name', 'B12', 'state() asked between the CR and the LF after part data of declared length', 'two parsing steps report the same state',
    [(P1, """                MultipartDataByLengthLf,
                multipart_data_by_length_lf
            );
        }

        // this state is only used after multipart_data_by_length, so we can error if we don't
        // find the carriage return
        Err(ParserError::MultipartBoundary(context.byte))
    }

    #[inline]
    fn multipart_data_by_length_lf""", """                MultipartDataByLengthCr,
                multipart_data_by_length_lf
            );
        }

        // this state is only used after multipart_data_by_length, so we can error if we don't
        // find the carriage return
        Err(ParserError::MultipartBoundary(context.byte))
    }

    #[inline]
    fn multipart_data_by_length_lf""")],
    r"""fn main() {
    let mut p = Parser::new(); p.init_multipart(); p.set_boundary(b"XYZ"); let mut h = H::default(); h.len = Some(2);
    feed(&mut p, &mut h, &[b"--XYZ\r\na: b\r\n\r\nab"]);
    let a = p.state();
    feed(&mut p, &mut h, &[b"\r"]);
    let b = p.state();
    feed(&mut p, &mut h, &[b"\n"]);
    let c = p.state();
    if a == b || b == c || a == c { println!("{:?} {:?} {:?}", a, b, c); std::process::exit(1); }
}
""")

P2 = 'src/http2/parser.rs'
PRE2 = r"""extern crate http_box;
use http_box::http2::{HttpHandler, Parser};

#[allow(dead_code)]
#[derive(Default)]
struct H { log: Vec<String>, buf: Vec<u8>, stop: bool }
impl H {
    fn data(&mut self, n: &str, d: &[u8], f: bool) -> bool {
        self.buf.extend_from_slice(d);
        if f { let s = format!("{}={:?}", n, self.buf); self.log.push(s); self.buf.clear(); }
        !self.stop
    }
    fn ev(&mut self, s: String) -> bool { self.log.push(s); !self.stop }
}
impl HttpHandler for H {
    fn on_data(&mut self, d: &[u8], f: bool) -> bool { self.data("data", d, f) }
    fn on_frame_format(&mut self, l: u32, t: u8, g: u8, s: u32) -> bool { self.ev(format!("frame {} {} {} {}", l, t, g, s)) }
    fn on_go_away(&mut self, s: u32, e: u32) -> bool { self.ev(format!("goaway {} {}", s, e)) }
    fn on_go_away_debug_data(&mut self, d: &[u8], f: bool) -> bool { self.data("debug", d, f) }
    fn on_headers(&mut self, e: bool, s: u32, w: u8) -> bool { self.ev(format!("headers {} {} {}", e, s, w)) }
    fn on_headers_fragment(&mut self, d: &[u8], f: bool) -> bool { self.data("fragment", d, f) }
    fn on_ping(&mut self, d: &[u8], f: bool) -> bool { self.data("ping", d, f) }
    fn on_priority(&mut self, e: bool, s: u32, w: u8) -> bool { self.ev(format!("priority {} {} {}", e, s, w)) }
    fn on_push_promise(&mut self, s: u32) -> bool { self.ev(format!("promise {}", s)) }
    fn on_rst_stream(&mut self, e: u32) -> bool { self.ev(format!("rst {}", e)) }
    fn on_settings(&mut self, i: u16, v: u32) -> bool { self.ev(format!("setting {} {}", i, v)) }
    fn on_unsupported(&mut self, d: &[u8], f: bool) -> bool { self.data("unsupported", d, f) }
    fn on_window_update(&mut self, n: u32) -> bool { self.ev(format!("window {}", n)) }
}
#[allow(dead_code)]
fn feed(p: &mut Parser<H>, h: &mut H, pieces: &[&[u8]]) -> String {
    use http_box::fsm::Success::*;
    for piece in pieces {
        let mut rest: &[u8] = piece;
        for _ in 0..100000 {
            match p.resume(h, rest) {
                Ok(Eos(n)) => { if n != rest.len() { return format!("Eos({}) for {} bytes", n, rest.len()); } break; }
                Ok(Callback(n)) => { rest = &rest[n..]; }
                Ok(Finished(_)) => return "finished".to_string(),
                Err(_) => return "error".to_string(),
            }
        }
    }
    "more".to_string()
}
#[allow(dead_code)]
fn want(p: &mut Parser<H>, h: &mut H, pieces: &[&[u8]], end: &str, log: &str) {
    let e = feed(p, h, pieces);
    let l = h.log.join(", ");
    if e != end || l != log {
        println!("outcome {} (want {})\n got {}\nwant {}", e, end, l, log);
        std::process::exit(1);
    }
}
"""

bug('B07-promise-cut', 'B07', 'a PUSH_PROMISE frame cut inside the promised stream identifier', 'the third byte of the identifier is put in the place of the fourth',
    [(P2, """        self.bit_data32b |= (get_u8!(context) as u32) << 8;

        transition!(
            self,
            context,
            PushPromiseStreamId4,""", """        self.bit_data32b |= get_u8!(context) as u32;

        transition!(
            self,
            context,
            PushPromiseStreamId4,""")],
    r"""fn main() {
    want(&mut Parser::new(), &mut H::default(), &[&[0, 0, 5, 5, 0, 0, 0, 0, 1, 0, 0], &[1, 0, 7]], "more",
         "frame 5 5 0 1, promise 256, fragment=[7]");
}
""", PRE2)

bug('G07-flags-kept', 'G07', 'a HEADERS frame with priority whose frame header callback returned false',
    'the flags stay in the field that later holds the weight and the fields of the frame',
    [(P2, """        } else {
            self.bit_data16a  = 0;
            self.bit_data32a &= 0xFFFFFF00;
            self.bit_data32b  = 0;
""", """        } else {
            self.bit_data16a  = 0;
            self.bit_data32a &= 0xFFFFFF00;
""")],
    r"""fn main() {
    let mut h = H::default(); h.stop = true;
    want(&mut Parser::new(), &mut h, &[&[0, 0, 6, 1, 0x20, 0, 0, 0, 1], &[0, 0, 0], &[6, 3, 9]], "more",
         "frame 6 1 32 1, headers false 6 3, fragment=[9]");
}
""", PRE2)

bug('B09-padding-state', 'B09', 'a callback that returns false on the last piece of a padded frame', 'the padding is then taken for the next frame header',
    [(P2, """            if $parser.bit_data32a & 0xFF > 0 {
                set_state!($parser, FramePadding, frame_padding);
            } else {
                set_state!($parser, FrameLength1, frame_length1);
            }

            if $handler.$callback(bs_slice!($context), true) {
                transition!($parser, $context);
            } else {
                exit_callback!($parser, $context);
            }
""", """            if $handler.$callback(bs_slice!($context), true) {
                if $parser.bit_data32a & 0xFF > 0 {
                    set_state!($parser, FramePadding, frame_padding);
                } else {
                    set_state!($parser, FrameLength1, frame_length1);
                }

                transition!($parser, $context);
            } else {
                set_state!($parser, FrameLength1, frame_length1);

                exit_callback!($parser, $context);
            }
""")],
    r"""fn main() {
    let mut h = H::default(); h.stop = true;
    want(&mut Parser::new(), &mut h, &[&[0, 0, 4, 0, 8, 0, 0, 0, 1, 2, 65, 0, 0, 0, 0, 1, 6, 0, 0, 0, 0, 0, 9]], "more",
         "frame 4 0 8 1, data=[65], frame 1 6 0 0, ping=[9]");
}
""", PRE2)

bug('G05-long-padding', 'G05', 'padding that spans more than one call', 'the padding that was skipped is not subtracted, so bytes of the next frame are skipped too',
    [(P2, """        // consume remaining stream
        dec_payload_length!(self, bs_available!(context) as u32);

        bs_jump!(context, bs_available!(context));

        exit_eos!(self, context);""", """        // consume remaining stream
        bs_jump!(context, bs_available!(context));

        dec_payload_length!(self, bs_available!(context) as u32);

        exit_eos!(self, context);""")],
    r"""fn main() {
    want(&mut Parser::new(), &mut H::default(), &[&[0, 0, 4, 0, 8, 0, 0, 0, 1, 2, 65, 0], &[0], &[0, 0, 1, 6, 0, 0, 0, 0, 0, 9]], "more",
         "frame 4 0 8 1, data=[65], frame 1 6 0 0, ping=[9]");
}
""", PRE2)

bug('G03-goaway', 'G03', 'a GOAWAY frame whose last stream identifier has the reserved bit set', 'the reserved bit is delivered',
    [(P2, """        if handler.on_go_away(
            self.bit_data32b & 0x7FFFFFFF,""", """        if handler.on_go_away(
            self.bit_data32b,""")],
    r"""fn main() {
    want(&mut Parser::new(), &mut H::default(), &[&[0, 0, 8, 7, 0, 0, 0, 0, 0, 128, 0, 0, 5, 0, 1, 0, 2]], "more",
         "frame 8 7 0 0, goaway 5 65538");
}
""", PRE2)

bug('G02-error-cut', 'G02', 'a GOAWAY frame cut after the first two bytes of the error code', 'the upper half of the error code is lost',
    [(P2, """        self.bit_data16b |= (get_u8!(context) as u16) << 8;

        transition!(
            self,
            context,
            GoAwayErrorCode4,""", """        self.bit_data16b = (get_u8!(context) as u16) << 8;
        self.bit_data16a &= 0xFF;

        transition!(
            self,
            context,
            GoAwayErrorCode4,""")],
    r"""fn main() {
    want(&mut Parser::new(), &mut H::default(), &[&[0, 0, 8, 7, 0, 0, 0, 0, 0, 0, 0, 0, 5, 3], &[1, 0, 2]], "more",
         "frame 8 7 0 0, goaway 5 50397186");
}
""", PRE2)

bug('G01-type-bits', 'G01', 'a frame header cut after the third byte of the length, with a type of 16 or more', 'only four bits of the type are kept',
    [(P2, """        self.bit_data32a |= get_u8!(context) as u32;

        transition!(
            self,
            context,
            FrameFlags,""", """        self.bit_data32a |= (get_u8!(context) & 0x7F) as u32;

        transition!(
            self,
            context,
            FrameFlags,""")],
    r"""fn main() {
    want(&mut Parser::new(), &mut H::default(), &[&[0, 0, 1], &[200, 0, 0, 0, 0, 1, 9]], "more", "frame 1 200 0 1, unsupported=[9]");
}
""", PRE2)

bug('B02-count-error', 'B02', 'a call that ends in an error after consuming input (HTTP/2)', 'the bytes of that call are not counted',
    [(P2, """                    self.byte_count     += context.stream_index;
                    self.state           = ParserState::Dead;""", """                    self.state           = ParserState::Dead;""")],
    r"""fn main() {
    let mut p = Parser::new();
    want(&mut p, &mut H::default(), &[&[0, 0, 1, 0, 8, 0, 0, 0, 1, 9, 0]], "error", "frame 1 0 8 1");
    if p.byte_count() != 10 { println!("byte_count {}", p.byte_count()); std::process::exit(1); }
}
""", PRE2)
