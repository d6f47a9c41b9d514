"""Planted bugs, third part (see seeds.py, seeds_b.py)."""
from seeds import bug, P1, P2, PRE1, PRE2  # noqa: F401

bug('B01-boundary-cut', 'B01', 'a multipart boundary cut in the middle', 'the boundary bytes compared before the cut are not counted in the length that is reported',
    [(P1, "        bs_jump!(context, length);\n\n        if let Some(v)", "        if finished {\n            bs_jump!(context, length);\n        }\n\n        if let Some(v)")],
    r"""fn main() {
    let mut p = Parser::new(); p.init_multipart(); p.set_boundary(b"XYZ"); let mut h = H::default();
    want(&mut p, &mut h, &[b"--X", b"YZ\r\na: b\r\n\r\nab\r\n--XYZ--"], "finished", "multipart_begin, name=\"a\", value=\"b\", headers_finished, multipart_data=\"ab\", body_finished");
}
""")

bug('C04-slow-case', 'C04', 'a request whose protocol name has a lower-case letter', 'a byte of the protocol name is compared without its case where it is read byte by byte',
    [(P1, 'fn request_http3', "if context.byte == b'T' {", "if context.byte & 0xDF == b'T' {")],
    r"""fn main() {
    let mut p = Parser::new(); p.init_head(); let mut h = H::default();
    want(&mut p, &mut h, &[b"GET / HTtP/1.1\r\n\r\n"], "<ParserError::Version: 116>", "method=\"GET\", url=\"/\"");
}
""")

bug('B11-next-message', 'B11', 'a finished head parser that is given the bytes behind the head in another call', 'the parser starts over with the next message by itself',
    [(P1, 'fn finished', "        exit_finished!(self, context);", "        if let ParserType::Head = self.parser_type {\n            if context.stream_index == 0 && bs_available!(context) > 0 {\n                // pipelined message\n                self.reset();\n\n                transition!(self, context);\n            }\n        }\n\n        exit_finished!(self, context);")],
    r"""fn main() {
    let mut p = Parser::new(); p.init_head(); let mut h = H::default();
    feed(&mut p, &mut h, &[b"GET / HTTP/1.1\r\n\r\n"]);
    h.log.clear();
    want(&mut p, &mut h, &[b"GET / HTTP/1.1\r\n\r\n"], "finished", "");
}
""")

bug('C05-tens-eight', 'C05', 'a status code in one piece whose second digit is not zero', 'the second digit is weighted with eight',
    [(P1, 'fn response_status_code1', "(context.byte - b'0') as u32 * 10);", "((context.byte - b'0') as u32) << 3);")],
    r"""fn main() {
    let mut p = Parser::new(); p.init_head(); let mut h = H::default();
    want(&mut p, &mut h, &[b"HTTP/1.1 416 No\r\n\r\n"], "finished", "version 1.1, code 416, status=\"No\", initial_finished, headers_finished");
}
""")

bug('C05-code-kept', 'C05', 'a response whose first version digits left something behind and whose status code is cut', 'the status code is added to what the version left in the field',
    [(P1, "        bs_next!(context);\n\n        if is_digit!(context.byte) {\n            set_lower14!(self, (context.byte - b'0') as u32 * 100);", "        bs_next!(context);\n\n        if is_digit!(context.byte) {\n            inc_lower14!(self, (context.byte - b'0') as u32 * 100);")],
    r"""fn main() {
    let mut p = Parser::new(); p.init_head(); let mut h = H::default();
    want(&mut p, &mut h, &[b"HTTP/3.1 2", b"00 No\r\n\r\n"], "finished", "version 3.1, code 200, status=\"No\", initial_finished, headers_finished");
}
""")

bug('C11-status-kind', 'C11', 'a letter as second digit of a status code that arrives in one piece', 'the error is reported as an error in the reason phrase',
    [(P1, "get_lower14!(self) + (context.byte - b'0') as u32 * 10);\n\n            bs_next!(context);\n\n            if !is_digit!(context.byte) {\n                exit_error!(StatusCode, context.byte);", "get_lower14!(self) + (context.byte - b'0') as u32 * 10);\n\n            bs_next!(context);\n\n            if !is_digit!(context.byte) {\n                exit_error!(Status, context.byte);")],
    r"""fn main() {
    let mut p = Parser::new(); p.init_head(); let mut h = H::default();
    want(&mut p, &mut h, &[b"HTTP/1.1 20x No\r\n\r\n"], "<ParserError::StatusCode: 120>", "version 1.1");
}
""")

bug('D01-leading-zero', 'D01', 'a chunk length with a leading zero that is not cut after it', 'the zero is taken for a first digit',
    [(P1, 'fn chunk_length1', "if context.byte == b'0' {", "if context.byte == b'0' && bs_is_eos!(context) {")],
    r"""fn main() {
    let mut o = Vec::new();
    for v in vec![vec![&b"02\r\nab\r\n0\r\n\r\n"[..]], vec![&b"0"[..], &b"2\r\nab\r\n0\r\n\r\n"[..]]] {
        let mut p = Parser::new(); p.init_chunked(); let mut h = H::default();
        o.push(feed(&mut p, &mut h, &v) + &show(&h.log));
    }
    if o[0] != o[1] || o[0].starts_with("finished") { println!("{:?}", o); std::process::exit(1); }
}
""")

bug('E01-boundary-u8', 'E01', 'part data that starts like a boundary of more than 256 bytes, cut behind the 256th', 'the number of boundary bytes already compared is narrowed to eight bits when they are delivered as data',
    [(P1, "v.extend_from_slice(&boundary[..get_upper14!(self) as usize]);", "v.extend_from_slice(&boundary[..get_upper14!(self) as u8 as usize]);")],
    r"""fn main() {
    let b: Vec<u8> = vec![b'B'; 300];
    let mut first = b"--".to_vec(); first.extend_from_slice(&b); first.extend_from_slice(b"\r\na: b\r\n\r\nab\r\n--");
    first.extend_from_slice(&b[..260]);
    let mut p = Parser::new(); p.init_multipart(); p.set_boundary(&b); let mut h = H::default();
    feed(&mut p, &mut h, &[&first, b"Xcd"]);
    let n: usize = h.log.iter().filter(|x| x.0 == "multipart_data").map(|x| x.1.len()).sum();
    if n != 2 + 4 + 260 + 3 { println!("{} bytes", n); std::process::exit(1); }
}
""")

bug('G02-weight-kept', 'G02', 'a HEADERS frame with priority, its weight cut off from the stream identifier', 'the dependency is dropped when the weight arrives in another call',
    [(P2, 'fn headers_weight', "        exit_if_eos!(self, context);\n", "        if bs_is_eos!(context) {\n            self.bit_data32b &= 0x7FFFFFFF;\n\n            exit_eos!(self, context);\n        }\n\n")],
    r"""fn main() {
    let mut p = Parser::new(); let mut h = H::default();
    want(&mut p, &mut h, &[b"\x00\x00\x06\x01\x20\x00\x00\x00\x01\x80\x00\x00\x07", b"\x09x"], "more", "frame 6 1 32 1, headers true 7 9, fragment=[120]");
}
""", pre=PRE2)

bug('A05-zero-padding', 'A05', 'a padded frame whose padding is announced but empty, cut before it', 'the parser does not wait for the padding and goes round without taking a byte',
    [(P2, 'fn frame_padding', "        dec_payload_length!(self, bs_available!(context) as u32);\n\n        bs_jump!(context, bs_available!(context));\n\n        exit_eos!(self, context);", "        dec_payload_length!(self, bs_available!(context) as u32);\n\n        bs_jump!(context, bs_available!(context));\n\n        transition!(\n            self,\n            context,\n            FramePadding,\n            frame_padding\n        );"),
     (P2, 'fn frame_padding', "        exit_if_eos!(self, context);\n", "        if payload_length!(self) < 2 {\n            exit_if_eos!(self, context);\n        }\n")],
    r"""fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); std::process::exit(1); });
    let mut p = Parser::new(); let mut h = H::default();
    want(&mut p, &mut h, &[b"\x00\x00\x08\x00\x08\x00\x00\x00\x01\x04abc\x00", b"\x00\x00\x00"], "more", "frame 8 0 8 1, data=[97, 98, 99]");
}
""", pre=PRE2)

bug('G07-unsupported-pad', 'G07', 'a CONTINUATION frame with the padded flag bit set', 'the flag, which has no meaning there, is obeyed',
    [(P2, "                set_state!(self, HeadersFragment, headers_fragment);\n            },\n            _ =>", "                if has_flag!(self, FL_PADDED) {\n                    set_state!(self, UnsupportedPadLength, headers_pad_length_without_priority);\n                } else {\n                    set_state!(self, HeadersFragment, headers_fragment);\n                }\n            },\n            _ =>")],
    r"""fn main() {
    let mut p = Parser::new(); let mut h = H::default();
    want(&mut p, &mut h, &[b"\x00\x00\x03\x09\x08\x00\x00\x00\x01\x01ab"], "more", "frame 3 9 8 1, fragment=[1, 97, 98]");
}
""", pre=PRE2)

bug('B12-priority-state', 'B12', 'state() asked in a HEADERS frame with padding and priority', 'the state named is not the one the parser resumes in',
    [(P2, """                        set_state!(
                            self,
                            HeadersPadLengthWithPriority,
""", """                        set_state!(
                            self,
                            HeadersPadLengthWithoutPriority,
""")],
    r"""fn main() {
    let mut s = Vec::new();
    for f in vec![0x08u8, 0x28] {
        let mut p = Parser::new(); let mut h = H::default();
        feed(&mut p, &mut h, &[&[0, 0, 9, 1, f, 0, 0, 0, 1]]);
        s.push(p.state());
    }
    if s[0] == s[1] { println!("{:?}", s); std::process::exit(1); }
}
""", pre=PRE2)

bug('B09-goaway-state', 'B09', 'on_go_away() returns false for a frame with debug data', 'the state is set behind the callback only, so that the stopped parser repeats it',
    [(P2, 'fn go_away_callback', """        if payload_length!(self) > 0 {
            set_state!(self, GoAwayDebugData, go_away_debug_data);
        } else {
            set_state!(self, FrameLength1, frame_length1);
        }

        if handler.on_go_away(
            self.bit_data32b & 0x7FFFFFFF,
            (self.bit_data16a as u32) << 16 | self.bit_data16b as u32
        ) {
""", """        if handler.on_go_away(
            self.bit_data32b & 0x7FFFFFFF,
            (self.bit_data16a as u32) << 16 | self.bit_data16b as u32
        ) || payload_length!(self) == 0 {
            if payload_length!(self) > 0 {
                set_state!(self, GoAwayDebugData, go_away_debug_data);
            } else {
                set_state!(self, FrameLength1, frame_length1);
            }

""")],
    r"""fn main() {
    let mut p = Parser::new(); let mut h = H::default(); h.stop = true;
    feed(&mut p, &mut h, &[b"\x00\x00\x0A\x07\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x02ab"]);
    let l = h.log.join(", ");
    if l != "frame 10 7 0 0, goaway 1 2, debug=[97, 98]" { println!("{}", l); std::process::exit(1); }
}
""", pre=PRE2)
