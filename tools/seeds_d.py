"""Planted bugs, fourth part (see seeds.py)."""
from seeds import bug, P1, P2, PRE1, PRE2  # noqa: F401
FL = 'src/http2/flags.rs'
QU, FI, DE = 'src/util/query.rs', 'src/util/field.rs', 'src/util/decode.rs'

bug('C08-quoted-del', 'C08', 'a bare line feed behind at least one byte of a header value', 'the line feed is taken into the value',
    [(P1, 'fn header_value', "        } else if context.byte == b'\"' {", "        } else if context.byte == b'\\n' && bs_slice_length!(context) > 1 {\n            // bare line feed in a value\n            transition_no_remark!(self, context, HeaderValue, header_value);\n        } else if context.byte == b'\"' {")],
    r"""fn main() {
    let mut p = Parser::new(); p.init_head(); let mut h = H::default();
    want(&mut p, &mut h, &[b"GET / HTTP/1.1\r\nA: b\nc\r\n\r\n"], "<ParserError::HeaderValue: 10>", "method=\"GET\", url=\"/\", version 1.1, initial_finished, name=\"a\"");
}
""")
bug('D03-escape-cut', 'D03', 'an escaped quote followed by a carriage return in a quoted chunk extension value', 'the escaped quote closes the value',
    [(P1, 'fn chunk_extension_escaped_value', "        if context.byte > 0x1F && context.byte < 0x7B {", "        if context.byte == b'\"' && bs_starts_with_end!(context) {\n            callback_transition!(self, handler, context, on_chunk_extension_value, &[context.byte], ChunkExtensionValue, chunk_extension_value);\n        }\n\n        if context.byte > 0x1F && context.byte < 0x7B {"),
     (P1, "// -------------------------------------------------------------------------------------------------\n\n/// HTTP 1.x parser.", "macro_rules! bs_starts_with_end {\n    ($context:expr) => ($context.stream_index < $context.stream.len() && $context.stream[$context.stream_index] == b'\\r');\n}\n\n/// HTTP 1.x parser.")],
    r"""fn main() {
    let mut p = Parser::new(); p.init_chunked(); let mut h = H::default();
    want(&mut p, &mut h, &[b"0;a=\"b\\\"\r\n\r\n"], "<ParserError::ChunkExtensionValue: 13>", "chunk_begin, length 0, ext_name=\"a\", ext_value=\"b\\\"\"");
}
""")
bug('C04-second-space', 'C04', 'a URL followed by two spaces, cut between them', 'a space at the start of a piece is skipped behind the URL',
    [(P1, 'fn request_http1', "        exit_if_eos!(self, context);\n        bs_next!(context);\n", "        exit_if_eos!(self, context);\n        bs_next!(context);\n\n        if context.byte == b' ' && context.stream_index == 1 {\n            transition!(self, context);\n        }\n")],
    r"""fn main() {
    let mut p = Parser::new(); p.init_head(); let mut h = H::default();
    want(&mut p, &mut h, &[b"GET / ", b" HTTP/1.1\r\n\r\n"], "<ParserError::Version: 32>", "method=\"GET\", url=\"/\"");
}
""")
for q, c in (('ack', 'FL_ACK'),):
    bug('G09-' + q.replace('_', '-'), 'G09', 'two flags set at once', 'is_%s() answers only if the flag is the only one' % q,
        [(FL, 'pub fn is_%s' % q, "        self.flags & %s == %s" % (c, c), "        self.flags == %s" % c)],
        r"""extern crate http_box;
use http_box::http2::*;
fn main() {
    for b in 0..256 {
        let f = Flags::from_u8(b as u8);
        if f.is_ack() != (b & 1 != 0) || f.is_end_headers() != (b & 4 != 0) || f.is_padded() != (b & 8 != 0) || f.is_priority() != (b & 32 != 0) || f.is_empty() != (b == 0) {
            println!("flags {}", b);
            std::process::exit(1);
        }
    }
}
""", pre='')
bug('G09-empty', 'G09', 'a flag byte whose only bits have no name', 'is_empty() looks at the named flags only',
    [(FL, 'pub fn is_empty', "        self.flags == 0", "        self.flags & (FL_ACK | FL_END_HEADERS | FL_PADDED | FL_PRIORITY) == 0")],
    r"""extern crate http_box;
use http_box::http2::*;
fn main() {
    for b in 0..256 {
        if Flags::from_u8(b as u8).is_empty() != (b == 0) {
            println!("flags {}", b);
            std::process::exit(1);
        }
    }
}
""", pre='')
bug('B06-hex-cut', 'B06', 'an escape in a URL encoded value cut between its digits', 'the first digit is lost where the escape is cut',
    [(P1, 'fn url_encoded_value_hex2', "        exit_if_eos!(self, context);\n        bs_next!(context);\n", "        exit_if_eos!(self, context);\n\n        if context.stream_index == 0 {\n            set_upper14!(self, get_upper14!(self) & 0x70);\n        }\n\n        bs_next!(context);\n")],
    r"""fn main() {
    let mut o = Vec::new();
    for v in vec![vec![&b"a=%E1"[..]], vec![&b"a=%E"[..], &b"1"[..]]] {
        let mut p = Parser::new(); p.init_url_encoded(); p.set_length(5); let mut h = H::default();
        o.push(feed(&mut p, &mut h, &v) + &format!("{:?}", h.log));
    }
    if o[0] != o[1] { println!("{:?}", o); std::process::exit(1); }
}
""")
bug('B06-plus-cut', 'B06', 'a plus sign in a URL encoded name at the end of a piece', 'the space is only delivered if another byte follows in the same piece',
    [(P1, 'fn url_encoded_name_plus', "        callback_transition!(", "        exit_if_eos!(self, context);\n\n        callback_transition!(")],
    r"""fn main() {
    let mut p = Parser::new(); p.init_url_encoded(); p.set_length(2); let mut h = H::default();
    want(&mut p, &mut h, &[b"a+"], "finished", "pair, pname=\"a \", body_finished");
}
""")
bug('A06-delimiter-again', 'A06', 'a header field whose delimiter is an upper-case letter', 'the delimiter is looked at again by each call',
    [(FI, "                byte if byte == self.delimiter => {", "                byte if byte == self.delimiter => {\n                    if self.normalize && byte > 0x40 && byte < 0x5B {\n                        bs_replay!(self.context);\n                    }\n")],
    r"""extern crate http_box;
use http_box::util::FieldIterator;
fn main() {
    if FieldIterator::new(b"aXb", b'X', true).take(100).count() != 2 { std::process::exit(1); }
}
""", pre='')
bug('H04-quote-pair', 'H04', 'a second quoted value right behind the first one', 'the byte behind a quoted value is looked at again',
    [(FI, "                                // expected a semicolon to end the value\n", "                                if self.context.byte == b'\"' {\n                                    // empty value\n                                    bs_replay!(self.context);\n                                    submit_name_value!(self);\n                                }\n\n                                // expected a semicolon to end the value\n")],
    r"""extern crate http_box;
use http_box::util::FieldIterator;
fn main() {
    let mut e = 0;
    let n = { FieldIterator::new(b"a=\"b\"\"", b';', true).on_error(|_| e += 1).take(1000).count() };
    if e != 1 || n != 0 { println!("{} {}", n, e); std::process::exit(1); }
}
""", pre='')
