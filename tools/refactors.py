#!/usr/bin/env python3
"""refactors.py [NAME...]: edits of /repo's code that keep its behaviour; every check has to stay quiet on them.
Each is applied to a scratch copy, which must pass the tests, and all analyses are run on it."""
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H1, H2 = 'src/http1/parser.rs', 'src/http2/parser.rs'
R = {}


def r(name, f, *pairs):
    R.setdefault(name, []).extend((f, a, b) for a, b in zip(pairs[::2], pairs[1::2]))


# ---- HTTP/2
r('h2-take-payload', H2, """        if bs_available!($context) >= actual_length!($parser) as usize {
            // collect remaining data
            bs_jump!($context, actual_length!($parser) as usize);

            dec_payload_length!($parser, actual_length!($parser));

            if $parser.bit_data32a & 0xFF > 0 {
                set_state!($parser, FramePadding, frame_padding);
            } else {
                set_state!($parser, FrameLength1, frame_length1);
            }
""", """        let length = actual_length!($parser);

        if length as usize <= bs_available!($context) {
            // collect remaining data
            dec_payload_length!($parser, length);

            if pad_length!($parser) == 0 {
                set_state!($parser, FrameLength1, frame_length1);
            } else {
                set_state!($parser, FramePadding, frame_padding);
            }

            bs_jump!($context, length as usize);
""")
r('h2-methods', H2, """macro_rules! pad_length {
    ($parser:expr) => ({
        $parser.bit_data32a & 0xFF
    });
}""", """macro_rules! pad_length {
    ($parser:expr) => ({
        $parser.padding()
    });
}""", """macro_rules! payload_length {
    ($parser:expr) => ({
        $parser.bit_data32a >> 8
    });
}""", """macro_rules! payload_length {
    ($parser:expr) => ({
        $parser.remaining()
    });
}""", """    /// Reset bit data.
""", """    #[inline]
    fn padding(&self) -> u32 {
        u32::from(self.bit_data32a as u8)
    }

    fn remaining(&self) -> u32 {
        self.bit_data32a / 256
    }

    /// Reset bit data.
""")
r('h2-read32', H2, """        $into |= ($context.stream[$context.stream_index] as u32) << 24;
        $into |= ($context.stream[$context.stream_index + 1] as u32) << 16;
        $into |= ($context.stream[$context.stream_index + 2] as u32) << 8;
        $into |= $context.stream[$context.stream_index + 3] as u32;

        bs_jump!($context, 4);
""", """        for _ in 0..4 {
            $into = $into << 8 | $context.stream[$context.stream_index] as u32;

            $context.stream_index += 1;
        }
""")
r('h2-read16', H2, """        $into |= ($context.stream[$context.stream_index] as u16) << 8;
        $into |= $context.stream[$context.stream_index + 1] as u16;
""", """        let bytes = &$context.stream[$context.stream_index..$context.stream_index + 2];

        $into |= u16::from(bytes[0]) << 8 | u16::from(bytes[1]);
""")
r('h2-format-end', H2, """        if handler.on_frame_format(
            payload_length!(self),
            (self.bit_data32a & 0xFF) as u8,
            self.bit_data16a as u8,
            self.bit_data32b & 0x7FFFFFFF
        ) {
            self.bit_data16a  = 0;
            self.bit_data32a &= 0xFFFFFF00;
            self.bit_data32b  = 0;

            transition!(self, context);
        } else {
            self.bit_data16a  = 0;
            self.bit_data32a &= 0xFFFFFF00;
            self.bit_data32b  = 0;

            exit_callback!(self, context);
        }
""", """        let (length, kind, flags, id) = (
            payload_length!(self),
            self.bit_data32a as u8,
            self.bit_data16a as u8,
            self.bit_data32b & !(1 << 31)
        );

        self.forget_header();

        if !handler.on_frame_format(length, kind, flags, id) {
            exit_callback!(self, context);
        }

        transition!(self, context);
""", """    /// Reset bit data.
""", """    /// Forget everything but the payload length.
    fn forget_header(&mut self) {
        self.bit_data16a = 0;
        self.bit_data32a = self.bit_data32a >> 8 << 8;
        self.bit_data32b = 0;
    }

    /// Reset bit data.
""")
r('h2-resume', H2, """            match (self.state_function)(self, &mut handler, &mut context) {
                Ok(ParserValue::Continue) => {
                },
                Ok(ParserValue::Exit(success)) => {
                    self.byte_count += context.stream_index;

                    if let Success::Finished(_) = success {
                        self.state = ParserState::Finished;
                    }

                    return Ok(success);
                },
                Err(error) => {
                    self.byte_count     += context.stream_index;
                    self.state           = ParserState::Dead;
                    self.state_function  = Parser::dead;

                    return Err(error);
                }
            }
""", """            let result = match (self.state_function)(self, &mut handler, &mut context) {
                Ok(ParserValue::Continue) => continue,
                Ok(ParserValue::Exit(success)) => Ok(success),
                Err(error) => Err(error)
            };

            self.byte_count += context.stream_index;

            match result {
                Ok(Success::Finished(_)) => {
                    self.state = ParserState::Finished;
                },
                Ok(_) => {},
                Err(_) => {
                    set_state!(self, Dead, dead);
                }
            }

            return result;
""")
r('h2-padding-min', H2, """        if bs_available!(context) >= payload_length!(self) as usize {
            // consume remaining padding
            bs_jump!(context, payload_length!(self) as usize);

            transition!(
                self,
                context,
                FrameLength1,
                frame_length1
            );
        }

        // consume remaining stream
        dec_payload_length!(self, bs_available!(context) as u32);

        bs_jump!(context, bs_available!(context));

        exit_eos!(self, context);
""", """        let length = ::std::cmp::min(bs_available!(context), payload_length!(self) as usize);

        bs_jump!(context, length);
        dec_payload_length!(self, length as u32);

        if payload_length!(self) > 0 {
            exit_eos!(self, context);
        }

        transition!(
            self,
            context,
            FrameLength1,
            frame_length1
        );
""")
# ---- HTTP/1
r('h1-strip', H1, """        if context.byte == b'\\r' || context.byte == b'\\n'
        || context.byte == b'\\t' || context.byte == b' ' {
            loop {
                bs_available!(context) > 0 || exit_eos!(self, context);

                bs_next!(context);

                if context.byte == b'\\r' || context.byte == b'\\n'
                || context.byte == b'\\t' || context.byte == b' ' {
                    continue;
                }

                break;
            }
        }
""", """        while is_blank(context.byte) {
            exit_if_eos!(self, context);
            bs_next!(context);
        }
""", """/// HTTP 1.x parser.
pub struct Parser""", """fn is_blank(byte: u8) -> bool {
    match byte {
        b'\\r' | b'\\n' | b'\\t' | b' ' => true,
        _ => false
    }
}

/// HTTP 1.x parser.
pub struct Parser""")
r('h1-resume', H1, """            if self.length < stream.len() {
                // amount of data to process is less than the stream length
                stream = &stream[0..self.length];
            }
""", """            stream = &stream[..::std::cmp::min(self.length, stream.len())];
""", """                    if self.length - length == 0 {
                        self.state          = ParserState::BodyFinished;
                        self.state_function = Parser::body_finished;
""", """                    if self.length <= length {
                        set_state!(self, BodyFinished, body_finished);
""")
r('h1-method-range', H1, """            if context.byte < 0x41 || context.byte > 0x5A {
                break;
            },
""", """            match context.byte {
                b'A'...b'Z' => {},
                _ => { break; }
            },
""")
r('h1-detect', H1, """        // make sure we have an upper-cased alphabetical character
        if context.byte > 0x40 && context.byte < 0x5B {
            // this is a request
            transition_no_remark!(
                self,
                context,
                RequestMethod,
                request_method
            );
        }

        Err(ParserError::Method(context.byte))
    }

    #[inline]
    fn detect2""", """        // make sure we have an upper-cased alphabetical character
        if !(context.byte as char).is_ascii_uppercase() {
            exit_error!(Method, context.byte);
        }

        // this is a request
        transition_no_remark!(
            self,
            context,
            RequestMethod,
            request_method
        );
    }

    #[inline]
    fn detect2""")


def rall(name, f, a, b):
    R.setdefault(name, []).append((f, a, b, True))


QU, FI, DE, BY, CO = 'src/util/query.rs', 'src/util/field.rs', 'src/util/decode.rs', 'src/byte.rs', 'src/collect.rs'
FL, FT, EC = 'src/http2/flags.rs', 'src/http2/frame_type.rs', 'src/http2/error_code.rs'

r('h1-version-digits', H1, """        set_lower14!(self, 0);
        set_upper14!(self, 0);

        if is_digit!(context.byte) {
            set_lower14!(self, (context.byte - b'0') as u32);

            transition!(
                self,
                context,
                RequestVersionMajor2,
                request_version_major2
            );
        }

        Err(ParserError::Version(context.byte))
""", """        self.bit_data &= !0xFFFFFFF;

        if !self.digit(context.byte) {
            return Err(ParserError::Version(context.byte));
        }

        transition!(
            self,
            context,
            RequestVersionMajor2,
            request_version_major2
        );
""", """        if context.byte == b'.' {
            transition!(
                self,
                context,
                RequestVersionMinor1,
                request_version_minor1
            );
        } else if is_digit!(context.byte) {
            set_lower14!(self, (get_lower14!(self) * 10) + (context.byte - b'0') as u32);

            transition!(
                self,
                context,
                RequestVersionMajor3,
                request_version_major3
            );
        }

        Err(ParserError::Version(context.byte))
""", """        match context.byte {
            b'.' => {
                transition!(
                    self,
                    context,
                    RequestVersionMinor1,
                    request_version_minor1
                );
            },
            byte if self.digit(byte) => {
                transition!(
                    self,
                    context,
                    RequestVersionMajor3,
                    request_version_major3
                );
            },
            byte => Err(ParserError::Version(byte))
        }
""", """    /// Main parser loop.
""", """    /// Add a decimal digit to the lower bits.
    fn digit(&mut self, byte: u8) -> bool {
        if byte < b'0' || byte > b'9' {
            return false;
        }

        let value = get_lower14!(self) * 10 + u32::from(byte - b'0');

        set_lower14!(self, value);

        true
    }

    /// Main parser loop.
""")
r('h1-status-loop', H1, """            // have enough bytes to compare the entire status code
            bs_next!(context);

            if !is_digit!(context.byte) {
                exit_error!(StatusCode, context.byte);
            }

            set_lower14!(self, (context.byte - b'0') as u32 * 100);

            bs_next!(context);

            if !is_digit!(context.byte) {
                exit_error!(StatusCode, context.byte);
            }

            set_lower14!(self, get_lower14!(self) + (context.byte - b'0') as u32 * 10);

            bs_next!(context);

            if !is_digit!(context.byte) {
                exit_error!(StatusCode, context.byte);
            }

            set_lower14!(self, get_lower14!(self) + (context.byte - b'0') as u32);
""", """            // have enough bytes to compare the entire status code
            let mut code = 0;

            for _ in 0..3 {
                bs_next!(context);

                if !is_digit!(context.byte) {
                    exit_error!(StatusCode, context.byte);
                }

                code = code * 10 + (context.byte - b'0') as u32;
            }

            set_lower14!(self, code);
""")
r('h1-no-fast-status', H1, """        if bs_available!(context) > 2 {
            // have enough bytes to compare the entire status code
            bs_next!(context);

            if !is_digit!(context.byte) {
                exit_error!(StatusCode, context.byte);
            }

            set_lower14!(self, (context.byte - b'0') as u32 * 100);

            bs_next!(context);

            if !is_digit!(context.byte) {
                exit_error!(StatusCode, context.byte);
            }

            set_lower14!(self, get_lower14!(self) + (context.byte - b'0') as u32 * 10);

            bs_next!(context);

            if !is_digit!(context.byte) {
                exit_error!(StatusCode, context.byte);
            }

            set_lower14!(self, get_lower14!(self) + (context.byte - b'0') as u32);

            transition!(
                self,
                context,
                ResponseStatusCodeSpace,
                response_status_code_space
            );
        }

""", "")
r('h1-safe-compare', H1, """            unsafe {
                if bs_starts_with9!(context, b"HTTP/1.1\\r") {
                    version!(1, 1, 9);
                } else if bs_starts_with9!(context, b"HTTP/2.0\\r") {
                    version!(2, 0, 9);
                } else if bs_starts_with9!(context, b"HTTP/1.0\\r") {
                    version!(1, 0, 9);
                }
            }
""", """            let rest = &context.stream[context.stream_index..];

            if rest.starts_with(b"HTTP/1.1\\r") {
                version!(1, 1, 9);
            } else if rest.starts_with(b"HTTP/2.0\\r") {
                version!(2, 0, 9);
            } else if &rest[..9] == b"HTTP/1.0\\r" {
                version!(1, 0, 9);
            }
""")
r('h1-cr2-get', H1, """        unsafe {
            if bs_has_bytes!(context, 2) && bs_starts_with2!(context, b"\\r\\n") {
                bs_jump!(context, 2);

                transition!(
                    self,
                    context,
                    HeaderEnd,
                    header_end
                );
            }
        }

        exit_if_eos!(self, context);
        bs_next!(context);
""", """        match context.stream.get(context.stream_index) {
            Some(&byte) => {
                context.byte = byte;
                context.stream_index += 1;
            },
            None => {
                exit_eos!(self, context);
            }
        }
""")
r('h1-header-value-match', H1, """        if context.byte == b'\\r' {
            callback_ignore_transition!(
                self,
                handler,
                context,
                on_header_value,
                HeaderLf1,
                header_lf1
            );
        } else if context.byte == b'"' {
            transition_no_remark!(
                self,
                context,
                HeaderQuotedValue,
                header_quoted_value
            );
        }

        Err(ParserError::HeaderValue(context.byte))
    }

    #[inline]
    fn header_quoted_value""", """        match context.byte {
            b'\\r' => {
                let end = context.stream_index - 1;
                let value = &context.stream[context.mark_index..end];

                set_state!(self, HeaderLf1, header_lf1);

                if !value.is_empty() && !handler.on_header_value(value) {
                    exit_callback!(self, context);
                }

                transition!(self, context);
            },
            b'"' => {
                transition_no_remark!(
                    self,
                    context,
                    HeaderQuotedValue,
                    header_quoted_value
                );
            },
            byte => Err(ParserError::HeaderValue(byte))
        }
    }

    #[inline]
    fn header_quoted_value""")
r('h1-strip-value-while', CO, """        unsafe {
            if bs_starts_with1!($context, b" ") || bs_starts_with1!($context, b"\\t") {
                loop {
                    bs_available!($context) > 0 || $on_eos;

                    bs_next!($context);

                    if !($context.byte == b' ' || $context.byte == b'\\t') {
                        break;
                    }
                }
            } else {
                bs_next!($context);
            }
        }
""", """        bs_next!($context);

        while $context.byte == b' ' || $context.byte == b'\\t' {
            if bs_is_eos!($context) {
                $on_eos;
            }

            bs_next!($context);
        }
""")
r('h1-chunk-hex', H1, """        if is_hex!(context.byte) {
            self.length <<= 4;
            self.length  |= hex_to_byte!(context.byte) as usize;

            transition!(
                self,
                context,
                ChunkLength3,
                chunk_length3
            );
        }

        bs_replay!(context);
""", """        if let Some(digit) = (context.byte as char).to_digit(16) {
            self.length = self.length * 16 + digit as usize;

            transition!(
                self,
                context,
                ChunkLength3,
                chunk_length3
            );
        }

        bs_replay!(context);
""", """        if is_hex!(context.byte) {
            self.length <<= 4;
            self.length  |= hex_to_byte!(context.byte) as usize;

            transition!(
                self,
                context,
                ChunkLength4,
                chunk_length4
            );
        }

        bs_replay!(context);
""", """        if self.hex_digit(context.byte) {
            transition!(
                self,
                context,
                ChunkLength4,
                chunk_length4
            );
        }

        bs_replay!(context);
""", """    /// Main parser loop.
""", """    fn hex_digit(&mut self, byte: u8) -> bool {
        let digit = match byte {
            b'0'...b'9' => byte - b'0',
            b'a'...b'f' => byte - b'a' + 10,
            b'A'...b'F' => byte - b'A' + 10,
            _ => return false
        };

        self.length = self.length << 4 | usize::from(digit);

        true
    }

    /// Main parser loop.
""")
for i, (nm, cb, st) in enumerate((('chunk_data', 'on_chunk_data', 'ChunkData'), ('multipart_data_by_length', 'on_multipart_data', 'MultipartDataByLength'))):
    w = ('chunk', 'multipart')[i]
    fn2 = nm + '_cr'
    r('h1-data-min', H1, """        if bs_available!(context) >= self.length {
            // collect remaining %s data
            bs_collect_length!(context, self.length);

            self.length = 0;

            callback_transition!(
                self,
                handler,
                context,
                %s,
                %sCr,
                %s
            );
        }

        // collect remaining stream data
        self.length -= bs_available!(context);

        bs_collect_length!(context, bs_available!(context));

        callback_transition!(
            self,
            handler,
            context,
            %s,
            %s,
            %s
        );
""" % (w, cb, st, fn2, cb, st, nm), """        let length = ::std::cmp::min(self.length, bs_available!(context));
        let start = context.stream_index;

        self.length -= length;

        if self.length == 0 {
            set_state!(self, %sCr, %s);
        }

        context.stream_index += length;

        if length == 0 || handler.%s(&context.stream[start..start + length]) {
            transition!(self, context);
        }

        exit_callback!(self, context);
""" % (st, fn2, cb))
r('h1-replay-vec', H1, """                let mut v = Vec::with_capacity(// \\r\\n--
                                               4 as usize +

                                               // old boundary data
                                               get_upper14!(self) as usize);

                v.extend_from_slice(b"\\r\\n--");
                v.extend_from_slice(&boundary[..get_upper14!(self) as usize]);
""", """                let mut v = b"\\r\\n--".to_vec();

                v.extend(boundary.iter().take(get_upper14!(self) as usize));
""")
r('h1-boundary-compare', H1, """            if bs_starts_with!(context, slice) {
""", """            if context.stream[context.stream_index..].starts_with(slice) {
""", """            let slice =
                if boundary.len() - get_upper14!(self) as usize <= bs_available!(context) {
                    // compare remainder of boundary
                    &boundary[get_upper14!(self) as usize..]
                } else {
                    // compare remainder of stream
                    &boundary[
                        get_upper14!(self) as usize..
                        get_upper14!(self) as usize + bs_available!(context)
                    ]
                };
""", """            let rest = &boundary[get_upper14!(self) as usize..];
            let slice = &rest[..::std::cmp::min(rest.len(), bs_available!(context))];
""")
r('h1-boundary-compare2', H1, """            if bs_starts_with!(context, slice) {
""", """            if &context.stream[context.stream_index..context.stream_index + slice.len()] == slice {
""")
r('h1-data-position', H1, """        bs_collect_until!(
            context,

            // collect bytes until
            context.byte == b'\\r',

            // on end-of-stream
            callback_eos_expr!(self, handler, context, on_multipart_data)
        );

        callback_ignore_transition!(
            self,
            handler,
            context,
            on_multipart_data,
            MultipartDataByByteLf,
            multipart_data_by_byte_lf
        );
""", """        while !bs_is_eos!(context) {
            bs_next!(context);

            if context.byte == b'\\r' {
                callback_ignore_transition!(
                    self,
                    handler,
                    context,
                    on_multipart_data,
                    MultipartDataByByteLf,
                    multipart_data_by_byte_lf
                );
            }
        }

        callback_eos_expr!(self, handler, context, on_multipart_data)
""")
r('h1-hyphen-or', H1, """        if context.byte == b'-' {
            transition!(
                self,
                context,
                MultipartHyphen2,
                multipart_hyphen2
            );
        } else if get_lower14!(self) == 0 {
            // we're checking for the boundary within multipart data, but it's not the boundary,
            // so let's send the data to the callback and get back to parsing
            // this byte is data as well, or the start of the next delimiter
            bs_replay!(context);
""", """        let byte = context.byte;

        if byte == b'-' {
            transition!(
                self,
                context,
                MultipartHyphen2,
                multipart_hyphen2
            );
        }

        let strict = get_lower14!(self) != 0;

        if !strict {
            // not the boundary: data
            context.stream_index -= 1;
""", """        Err(ParserError::MultipartBoundary(context.byte))
    }

    #[inline]
    fn multipart_hyphen2""", """        Err(ParserError::MultipartBoundary(byte))
    }

    #[inline]
    fn multipart_hyphen2""")
r('h1-url-hex', H1, """        set_upper14!(
            self,
            if is_digit!(context.byte) {
                (context.byte - b'0') << 4
            } else if b'@' < context.byte && context.byte < b'G' {
                (context.byte - 0x37) << 4
            } else if b'`' < context.byte && context.byte < b'g' {
                (context.byte - 0x57) << 4
            } else {
                exit_error!(UrlEncodedName, context.byte);
            }
        );
""", """        let digit = match (context.byte as char).to_digit(16) {
            Some(digit) => digit,
            None => exit_error!(UrlEncodedName, context.byte)
        };

        set_upper14!(self, digit * 16);
""", """        set_lower14!(
            self,
            if is_digit!(context.byte) {
                context.byte - b'0'
            } else if b'@' < context.byte && context.byte < b'G' {
                context.byte - 0x37
            } else if b'`' < context.byte && context.byte < b'g' {
                context.byte - 0x57
            } else {
                exit_error!(UrlEncodedName, context.byte);
            }
        );

        callback_transition!(
            self,
            handler,
            context,
            on_url_encoded_name,
            &[(get_upper14!(self) | get_lower14!(self)) as u8],
            UrlEncodedName,
            url_encoded_name
        );
""", """        let low = match context.byte {
            byte @ b'0'...b'9' => byte - b'0',
            byte @ b'A'...b'F' => byte - b'A' + 10,
            byte @ b'a'...b'f' => byte - b'a' + 10,
            byte => return Err(ParserError::UrlEncodedName(byte))
        };

        let value = get_upper14!(self) as u8 + low;

        callback_transition!(
            self,
            handler,
            context,
            on_url_encoded_name,
            &[value],
            UrlEncodedName,
            url_encoded_name
        );
""")
r('h1-url-name-if', H1, """            b'%' => {
                callback_ignore_transition!(
                    self,
                    handler,
                    context,
                    on_url_encoded_name,
                    UrlEncodedNameHex1,
                    url_encoded_name_hex1
                );
            },
            b'+' => {
                callback_ignore_transition!(
                    self,
                    handler,
                    context,
                    on_url_encoded_name,
                    UrlEncodedNamePlus,
                    url_encoded_name_plus
                );
            },
            b'=' => {
                callback_ignore_transition!(
                    self,
                    handler,
                    context,
                    on_url_encoded_name,
                    UrlEncodedValue,
                    url_encoded_value
                );
            },
            b'&' | b';' => {
                callback_ignore_transition!(
                    self,
                    handler,
                    context,
                    on_url_encoded_name,
                    FirstUrlEncodedName,
                    first_url_encoded_name
                );
            },
            _ => {
                Err(ParserError::UrlEncodedName(context.byte))
            }
        }
""", """            b'%' => {
                set_state!(self, UrlEncodedNameHex1, url_encoded_name_hex1);
            },
            b'+' => {
                set_state!(self, UrlEncodedNamePlus, url_encoded_name_plus);
            },
            b'=' => {
                set_state!(self, UrlEncodedValue, url_encoded_value);
            },
            b'&' | b';' => {
                set_state!(self, FirstUrlEncodedName, first_url_encoded_name);
            },
            byte => {
                return Err(ParserError::UrlEncodedName(byte));
            }
        }

        if context.mark_index + 1 == context.stream_index
        || handler.on_url_encoded_name(bs_slice_ignore!(context)) {
            transition!(self, context);
        }

        exit_callback!(self, context);
""")
r('byte-token', BY, """    TOKENS[byte as usize]
""", """    match byte {
        b'0'...b'9' | b'a'...b'z' | b'A'...b'Z' => true,
        b'!' | b'#' | b'$' | b'%' | b'&' | b'\\'' | b'*' | b'+' | b'-' | b'.' | b'^' | b'_' | b'`' | b'|' | b'~' => true,
        _ => false
    }
""", """    HEADER_FIELDS[byte as usize]
""", """    !(byte == b'"' || byte == 0x7F || byte < 0x20 && byte != b'\\t')
""")
r('byte-quoted', BY, """    QUOTED_HEADER_FIELDS[byte as usize]
""", """    *QUOTED_HEADER_FIELDS.get(usize::from(byte)).unwrap_or(&false)
""")
r('flags-bits', FL, """    pub fn is_ack(&self) -> bool {
        self.flags & FL_ACK == FL_ACK
""", """    pub fn is_ack(&self) -> bool {
        self.flags % 2 == 1
""", """    pub fn is_end_headers(&self) -> bool {
        self.flags & FL_END_HEADERS == FL_END_HEADERS
""", """    pub fn is_end_headers(&self) -> bool {
        self.has(FL_END_HEADERS)
""", """    /// Indicates that the ack flag has been set.
""", """    fn has(&self, bit: u8) -> bool {
        self.flags & bit != 0
    }

    /// Indicates that the ack flag has been set.
""")
r('frame-type', FT, """        match *self {
            FrameType::Continuation => FR_CONTINUATION,
""", """        if *self == FrameType::Data {
            return 0;
        }

        match *self {
            FrameType::Continuation => *self as u8,
""", """        match byte {
            FR_DATA          => FrameType::Data,
            FR_HEADERS       => FrameType::Headers,
            FR_PRIORITY      => FrameType::Priority,
            FR_RST_STREAM    => FrameType::RstStream,
""", """        if byte > FR_CONTINUATION {
            return FrameType::Unsupported;
        } else if byte == FR_DATA {
            return FrameType::Data;
        }

        match byte {
            FR_HEADERS       => FrameType::Headers,
            FR_PRIORITY      => FrameType::Priority,
            FR_RST_STREAM    => FrameType::RstStream,
""")
r('decode-helper', DE, """            if bs_has_bytes!(context, 2) {
                submit!(decoded, &[
                    collect_hex8!(context, DecodeError::HexSequence)
                ]);
            } else {
                if bs_has_bytes!(context, 1) {
                    bs_next!(context);
                }

                return Err(DecodeError::HexSequence(context.byte));
            }
""", """            let mut value = 0;

            for _ in 0..2 {
                if bs_is_eos!(context) {
                    return Err(DecodeError::HexSequence(context.byte));
                } else if !bs_has_bytes!(context, 1) {
                    unreachable!();
                }

                let last = bs_available!(context) == 1 && value == 0 && context.byte == b'%';

                bs_next!(context);

                if last {
                    return Err(DecodeError::HexSequence(context.byte));
                }

                value = value * 16 + match digit(context.byte) {
                    Some(digit) => digit,
                    None => return Err(DecodeError::HexSequence(context.byte))
                };
            }

            decoded.push(value);
""", """/// Decode URL encoded data.
""", """fn digit(byte: u8) -> Option<u8> {
    match byte {
        b'0'...b'9' => Some(byte - b'0'),
        b'a'...b'f' => Some(byte - b'a' + 10),
        b'A'...b'F' => Some(byte - b'A' + 10),
        _ => None
    }
}

/// Decode URL encoded data.
""")
r('decode-iter', DE, """    let mut context = ByteStream::new(encoded);
    let mut decoded = Vec::new();

    loop {
        bs_mark!(context);

        collect_visible_7bit!(
            context,

            // stop on these bytes
               context.byte == b'+'
            || context.byte == b'%',

            // on end-of-stream
            {
                if context.mark_index < context.stream_index {
                    submit!(decoded, bs_slice!(context));
                }

                return Ok(String::from_utf8_lossy(&decoded).into_owned());
            }
        );

        if bs_slice_length!(context) > 1 {
            submit!(decoded, bs_slice_ignore!(context));
        }

        if context.byte == b'+' {
""", """    let mut context = ByteStream::new(encoded);
    let mut decoded: Vec<u8> = Vec::with_capacity(encoded.len());

    loop {
        if bs_is_eos!(context) {
            return Ok(String::from_utf8_lossy(&decoded).into_owned());
        }

        bs_next!(context);

        if is_visible_7bit!(context.byte) && context.byte != b'+' && context.byte != b'%' {
            decoded.push(context.byte);
            continue;
        }

        if context.byte == b'+' {
""")
r('query-fail', QU, """                    _ => {
                        bs_jump!(self.context, bs_available!(self.context));

                        (*self.on_error)(QueryError::Name(self.context.byte));

                        return None;
                    }
""", """                    byte => {
                        return self.fail(QueryError::Name(byte));
                    }
""", """                    _ => {
                        bs_jump!(self.context, bs_available!(self.context));

                        (*self.on_error)(QueryError::Value(self.context.byte));

                        return None;
                    }
""", """                    byte => {
                        return self.fail(QueryError::Value(byte));
                    }
""", """    /// Set the on error callback.
""", """    /// Give up.
    fn fail(&mut self, error: QueryError) -> Option<(String, Option<String>)> {
        self.context.stream_index = self.context.stream.len();

        (self.on_error)(error);

        None
    }

    /// Set the on error callback.
""")
r('query-name-loop', QU, """                bs_mark!(self.context);

                collect_visible_7bit!(
                    self.context,

                    // stop on these bytes
                       self.context.byte == b'%'
                    || self.context.byte == b'+'
                    || self.context.byte == b'='
                    || self.context.byte == b'&'
                    || self.context.byte == b';',

                    // on end-of-stream
                    {
                        if bs_slice_length!(self.context) > 0 {
                            self.name.extend_from_slice(bs_slice!(self.context));
                        }

                        submit_name!(self);
                    }
                );

                if bs_slice_length!(self.context) > 1 {
                    self.name.extend_from_slice(bs_slice_ignore!(self.context));
                }

                match self.context.byte {
""", """                if bs_is_eos!(self.context) {
                    submit_name!(self);
                }

                bs_next!(self.context);

                match self.context.byte {
                    b'!'...b'$' | b'\\''...b'*' | b','...b':' | b'<' | b'>'...b'~' => {
                        self.name.push(self.context.byte);
                    },
""")
r('query-clear', QU, """        self.name.clear();
        self.value.clear();
""", """        self.name = Vec::new();
        self.value.truncate(0);
""")
r('field-clear', FI, """        if bs_available!(self.context) == 0 {
            return None;
        }

        self.name.clear();
        self.value.clear();
""", """        self.name.clear();
        self.value.clear();

        if bs_is_eos!(self.context) {
            return None;
        }
""", """                                self.value.extend_from_slice(bs_slice_ignore!(self.context));

                                bs_next!(self.context);

                                self.value.push(self.context.byte);
""", """                                self.value.extend_from_slice(bs_slice_ignore!(self.context));

                                let escaped = self.context.stream[self.context.stream_index];

                                self.context.stream_index += 1;
                                self.context.byte = escaped;
                                self.value.extend_from_slice(&[escaped]);
""", """                byte if byte > 0x40 && byte < 0x5B => {
                    // upper-cased byte, let's lower-case it
                    self.name.push(self.context.byte + 0x20);
                },
""", """                byte if byte > 0x40 && byte < 0x5B => {
                    self.name.push(byte.to_ascii_lowercase());
                },
""")
r('hex-fn', CO, """        (
            if is_digit!($context.byte) {
                ($context.byte - b'0') << 4
            } else if b'@' < $context.byte && $context.byte < b'G' {
                ($context.byte - 0x37) << 4
            } else if b'`' < $context.byte && $context.byte < b'g' {
                ($context.byte - 0x57) << 4
            } else {
                submit_error!($iter, $error);
            } as u8
        )
        +
""", """        (
            if let Some(digit) = ($context.byte as char).to_digit(16) {
                digit as u8 * 16
            } else {
                submit_error!($iter, $error);
            }
        )
        |
""")
r('lower-header-order', H1, """        if context.byte > 0x40 && context.byte < 0x5B {
            // upper-cased byte
            bs_replay!(context);

            callback_transition!(
                self,
                handler,
                context,
                on_header_name,
                UpperHeaderName,
                upper_header_name
            );
        } else if context.byte == b':' {
            callback_ignore_transition!(
                self,
                handler,
                context,
                on_header_name,
                StripHeaderValue,
                strip_header_value
            );
        }

        Err(ParserError::HeaderName(context.byte))
""", """        if context.byte == b':' {
            callback_ignore_transition!(
                self,
                handler,
                context,
                on_header_name,
                StripHeaderValue,
                strip_header_value
            );
        }

        if !(context.byte as char).is_uppercase() || context.byte >= 0x80 {
            exit_error!(HeaderName, context.byte);
        }

        bs_replay!(context);

        let name = bs_slice!(context);

        set_state!(self, UpperHeaderName, upper_header_name);

        if name.len() > 0 && !handler.on_header_name(name) {
            exit_callback!(self, context);
        }

        transition!(self, context);
""")
r('header-end-match', H1, """        if let ParserType::Chunked = self.parser_type {
            set_state!(self, BodyFinished, body_finished);
        } else if let ParserType::Multipart = self.parser_type {
            set_state!(self, MultipartDetectData, multipart_detect_data);
        } else {
            set_state!(self, Finished, finished);
        }
""", """        let (state, function): (ParserState, fn(&mut Parser<'a, T>, &mut T, &mut ByteStream) -> Result<ParserValue, ParserError>) = match self.parser_type {
            ParserType::Chunked => (ParserState::BodyFinished, Parser::body_finished),
            ParserType::Multipart => (ParserState::MultipartDetectData, Parser::multipart_detect_data),
            _ => (ParserState::Finished, Parser::finished)
        };

        self.state = state;
        self.state_function = function;
""")
r('content-length-map', H1, """        if let Some(length) = handler.content_length() {
            self.length = length;

            // expect boundary after data
            set_lower14!(self, 1);

            transition!(
                self,
                context,
                MultipartDataByLength,
                multipart_data_by_length
            );
        }

        // do not expect boundary since it can be part of the data itself
        set_lower14!(self, 0);

        transition!(
            self,
            context,
            MultipartDataByByte,
            multipart_data_by_byte
        );
""", """        let length = handler.content_length();

        set_lower14!(self, length.is_some());

        match length {
            Some(n) => {
                self.length = n;

                set_state!(self, MultipartDataByLength, multipart_data_by_length);
            },
            None => {
                set_state!(self, MultipartDataByByte, multipart_data_by_byte);
            }
        }

        transition!(self, context);
""")


import refactors_b  # noqa: E402
OLD = list(R)
refactors_b.add(r)
NEWB = list(R)
import refactors_c  # noqa: E402
refactors_c.add(r)
NEWC = list(R)
import refactors_d  # noqa: E402
refactors_d.add(r)


def main():
    base = '/tmp/refac'
    keep = '-k' in sys.argv
    for name in [a for a in sys.argv[1:] if a not in ('-k', '-b', '-c', '-d')] or ([n for n in R if n not in NEWC] if '-d' in sys.argv else [n for n in R if n not in NEWB] if '-c' in sys.argv else list(R) if '-b' not in sys.argv else [n for n in R if n not in OLD]):
        d = '%s-%s' % (base, name)
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', d], check=True)
        try:
            ok = True
            for f, a, b, *al in R[name]:
                s = open(os.path.join(d, f)).read()
                if s.count(a) < 1:
                    print(name, 'TEXT NOT FOUND', repr(a[:80]))
                    ok = False
                    break
                open(os.path.join(d, f), 'w').write(s.replace(a, b) if al else s.replace(a, b, 1))
            if not ok:
                continue
            if keep:
                continue
            t = subprocess.run(['cargo', 'test', '--offline', '--lib'], cwd=d, capture_output=True, text=True)
            if t.returncode:
                print(name, 'TESTS FAIL', '\n'.join(x for x in (t.stdout + t.stderr).split('\n') if x.startswith(('error', 'test result: FAILED', '  -->')) or 'panicked' in x or 'FAILED' in x)[:600], flush=True)
                continue
            a = subprocess.run([sys.executable, os.path.join(V, 'tools', 'allprops.py'), d], capture_output=True, text=True)
            print('==', name, '\n' + (a.stdout + a.stderr[-500:]).rstrip(), flush=True)
        finally:
            keep or shutil.rmtree(d, ignore_errors=True)


main()
