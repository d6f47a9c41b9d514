"""Library functions instead of hand-written comparisons, and other arrangements of the same steps (see refactors.py)."""
H1, H2 = 'src/http1/parser.rs', 'src/http2/parser.rs'
CO, BY, FS = 'src/collect.rs', 'src/byte.rs', 'src/fsm.rs'
QU, FI, DE, UM = 'src/util/query.rs', 'src/util/field.rs', 'src/util/decode.rs', 'src/util/mod.rs'

NAME_HEX1 = """            if is_digit!(context.byte) {
                (context.byte - b'0') << 4
            } else if b'@' < context.byte && context.byte < b'G' {
                (context.byte - 0x37) << 4
            } else if b'`' < context.byte && context.byte < b'g' {
                (context.byte - 0x57) << 4
            } else {
                exit_error!(UrlEncodedName, context.byte);
            }
"""
HEX_MACRO = """        if $byte > 0x2F && $byte < 0x3A {
            // digit
            $byte - b'0'
        } else if $byte > 0x40 && $byte < 0x5B {
            // upper-case
            $byte - 0x37
        } else {
            // lower-case
            $byte - 0x57
        }
"""
PARSE = """        loop {
            match (self.state_function)(self, &mut handler, &mut context) {
                Ok(ParserValue::Continue) => {
                },
                Ok(ParserValue::Exit(success)) => {
                    self.byte_count += context.stream_index;

                    if let Success::Finished(_) = success {
                        self.state = ParserState::Finished;
                    }

                    return Ok(success);
                },
                Err(error) => {
                    self.byte_count     += context.stream_index;
                    self.state           = ParserState::Dead;
                    self.state_function  = Parser::dead;

                    return Err(error);
                }
            }
        }
"""
PARSE_LOCAL = """        let result = loop {
            match (self.state_function)(self, &mut handler, &mut context) {
                Ok(ParserValue::Continue) => continue,
                Ok(ParserValue::Exit(success)) => break Ok(success),
                Err(error) => break Err(error)
            }
        };

        self.byte_count += context.stream_index;

        match result {
            Ok(Success::Finished(_)) => {
                self.state = ParserState::Finished;
            },
            Ok(_) => { },
            Err(_) => {
                self.state          = ParserState::Dead;
                self.state_function = Parser::dead;
            }
        }

        result
"""
STATUS1 = """            bs_next!(context);

            if !is_digit!(context.byte) {
                exit_error!(StatusCode, context.byte);
            }

            set_lower14!(self, (context.byte - b'0') as u32 * 100);
"""
MISMATCH = """                let mut v = Vec::with_capacity(// \\r\\n--
                                               4 as usize +

                                               // old boundary data
                                               get_upper14!(self) as usize);

                v.extend_from_slice(b"\\r\\n--");
                v.extend_from_slice(&boundary[..get_upper14!(self) as usize]);

                (0, Some(v), false)
"""
SLICE = """            let slice =
                if boundary.len() - get_upper14!(self) as usize <= bs_available!(context) {
                    // compare remainder of boundary
                    &boundary[get_upper14!(self) as usize..]
                } else {
                    // compare remainder of stream
                    &boundary[
                        get_upper14!(self) as usize..
                        get_upper14!(self) as usize + bs_available!(context)
                    ]
                };

            if bs_starts_with!(context, slice) {
"""
TAKE = """        if bs_available!($context) >= actual_length!($parser) as usize {
            // collect remaining data
            bs_jump!($context, actual_length!($parser) as usize);

            dec_payload_length!($parser, actual_length!($parser));

            if $parser.bit_data32a & 0xFF > 0 {
                set_state!($parser, FramePadding, frame_padding);
            } else {
                set_state!($parser, FrameLength1, frame_length1);
            }

            if $handler.$callback(bs_slice!($context), true) {
                transition!($parser, $context);
            } else {
                exit_callback!($parser, $context);
            }
        }

        // collect remaining slice
        dec_payload_length!($parser, bs_available!($context) as u32);

        bs_jump!($context, bs_available!($context));

        if $handler.$callback(bs_slice!($context), false) {
            exit_eos!($parser, $context);
        } else {
            exit_callback!($parser, $context);
        }
"""
FORMAT = """        if handler.on_frame_format(
            payload_length!(self),
            (self.bit_data32a & 0xFF) as u8,
            self.bit_data16a as u8,
            self.bit_data32b & 0x7FFFFFFF
        ) {
            self.bit_data16a  = 0;
            self.bit_data32a &= 0xFFFFFF00;
            self.bit_data32b  = 0;

            transition!(self, context);
        } else {
            self.bit_data16a  = 0;
            self.bit_data32a &= 0xFFFFFF00;
            self.bit_data32b  = 0;

            exit_callback!(self, context);
        }
"""
HEADERS = """                if has_flag!(self, FL_PADDED) {
                    if has_flag!(self, FL_PRIORITY) {
                        set_state!(
                            self,
                            HeadersPadLengthWithPriority,
                            headers_pad_length_with_priority
                        );
                    } else {
                        set_state!(
                            self,
                            HeadersPadLengthWithoutPriority,
                            headers_pad_length_without_priority
                        );
                    }
                } else if has_flag!(self, FL_PRIORITY) {
                    set_state!(self, HeadersStreamId1, headers_stream_id1);
                } else {
                    set_state!(self, HeadersCallback, headers_callback);
                }
"""
URLRES = """                Ok(Success::Eos(length)) => {
                    if self.length - length == 0 {
                        self.state          = ParserState::BodyFinished;
                        self.state_function = Parser::body_finished;

                        // parsing counts the whole stream index again
                        self.byte_count -= length;

                        self.parse(&mut handler, &mut context)
                    } else {
                        self.length -= length;

                        Ok(Success::Eos(length))
                    }
                },
"""
DECODE = """    let mut context = ByteStream::new(encoded);
    let mut decoded = Vec::new();

    loop {
        bs_mark!(context);

        collect_visible_7bit!(
            context,

            // stop on these bytes
               context.byte == b'+'
            || context.byte == b'%',

            // on end-of-stream
            {
                if context.mark_index < context.stream_index {
                    submit!(decoded, bs_slice!(context));
                }

                return Ok(String::from_utf8_lossy(&decoded).into_owned());
            }
        );

        if bs_slice_length!(context) > 1 {
            submit!(decoded, bs_slice_ignore!(context));
        }

        if context.byte == b'+' {
            submit!(decoded, b" ");
        } else if context.byte == b'%' {
            if bs_has_bytes!(context, 2) {
                submit!(decoded, &[
                    collect_hex8!(context, DecodeError::HexSequence)
                ]);
            } else {
                if bs_has_bytes!(context, 1) {
                    bs_next!(context);
                }

                return Err(DecodeError::HexSequence(context.byte));
            }
        } else {
            return Err(DecodeError::Byte(context.byte));
        }
    }
"""
DECODE_HDR = """    macro_rules! submit {
        ($decoded:expr, $slice:expr) => (
            $decoded.extend_from_slice($slice);
        );
    }

"""
CL2 = """        if is_hex!(context.byte) {
            self.length <<= 4;
            self.length  |= hex_to_byte!(context.byte) as usize;
"""
CALLBACK = """    ($parser:expr, $handler:expr, $context:expr, $callback:ident, $exec:expr) => ({
        if bs_slice_length!($context) > 0 {
            if $handler.$callback(bs_slice!($context)) {
                $exec
            }

            exit_callback!($parser, $context);
        }

        $exec
    });
"""


def add(r):
    r('d-to-digit', H1, HEX_MACRO, "        ($byte as char).to_digit(36).unwrap() as u8\n")
    r('d-to-digit16', H1, CL2, """        if let Some(digit) = (context.byte as char).to_digit(16) {
            self.length <<= 4;
            self.length  |= digit as usize;
""")
    r('d-mul-add', H1, CL2, """        if is_hex!(context.byte) {
            self.length = self.length * 16 + hex_to_byte!(context.byte) as usize;
""")
    r('d-is-ascii-digit', H1, STATUS1, """            bs_next!(context);

            if !context.byte.is_ascii_digit() {
                exit_error!(StatusCode, context.byte);
            }

            set_lower14!(self, 100 * u32::from(context.byte - b'0'));
""")
    r('d-wrapping-digit', H1, STATUS1, """            bs_next!(context);

            let digit = context.byte.wrapping_sub(b'0');

            if digit > 9 {
                exit_error!(StatusCode, context.byte);
            }

            set_lower14!(self, digit as u32 * 100);
""")
    r('d-checked-digit', H1, STATUS1, """            bs_next!(context);

            let digit = match context.byte.checked_sub(b'0') {
                Some(n) if n < 10 => n,
                _ => { exit_error!(StatusCode, context.byte); }
            };

            set_lower14!(self, digit as u32 * 100);
""")
    r('d-name-hex-range', H1, NAME_HEX1, """            match context.byte {
                byte @ b'0'..=b'9' => (byte & 0xF) << 4,
                byte @ b'A'..=b'F' | byte @ b'a'..=b'f' => ((byte & 0xF) + 9) << 4,
                _ => { exit_error!(UrlEncodedName, context.byte); }
            }
""")
    r('d-name-hex-contains', H1, NAME_HEX1, """            if (b'0'..=b'9').contains(&context.byte) {
                (context.byte - b'0') << 4
            } else if (b'A'..b'G').contains(&context.byte) {
                (context.byte - 0x37) << 4
            } else if matches!(context.byte, b'a'..=b'f') {
                (context.byte - 0x57) << 4
            } else {
                exit_error!(UrlEncodedName, context.byte);
            }
""")
    r('d-parse-local', H1, PARSE, PARSE_LOCAL)
    r('d-h2-parse-local', H2, PARSE, PARSE_LOCAL)
    r('d-mismatch-concat', H1, MISMATCH, """                let compared = get_upper14!(self) as usize;

                (0, Some([&b"\\r\\n--"[..], &boundary[..compared]].concat()), false)
""")
    r('d-mismatch-to-vec', H1, MISMATCH, """                let mut v = b"\\r\\n--".to_vec();

                v.extend(boundary.iter().take(get_upper14!(self) as usize));

                (0, Some(v), false)
""")
    r('d-boundary-min', H1, SLICE, """            let start = get_upper14!(self) as usize;
            let end   = ::std::cmp::min(boundary.len(), start + bs_available!(context));
            let slice = &boundary[start..end];

            if bs_starts_with!(context, slice) {
""")
    r('d-boundary-take', H1, SLICE, """            let rest  = &boundary[get_upper14!(self) as usize..];
            let slice = &rest[..rest.len().min(bs_available!(context))];

            if context.stream[context.stream_index..].starts_with(slice) {
""")
    r('d-boundary-split', H1, SLICE, """            let (_, rest)  = boundary.split_at(get_upper14!(self) as usize);
            let count      = rest.len().min(bs_available!(context));
            let (slice, _) = rest.split_at(count);

            if slice == &context.stream[context.stream_index..context.stream_index + count] {
""")
    r('d-h2-one-callback', H2, TAKE, """        let actual   = actual_length!($parser) as usize;
        let length   = if bs_available!($context) < actual { bs_available!($context) } else { actual };
        let finished = length == actual;

        dec_payload_length!($parser, length as u32);
        bs_jump!($context, length);

        if finished {
            if pad_length!($parser) > 0 {
                set_state!($parser, FramePadding, frame_padding);
            } else {
                set_state!($parser, FrameLength1, frame_length1);
            }
        }

        if !$handler.$callback(bs_slice!($context), finished) {
            exit_callback!($parser, $context);
        }

        if finished {
            transition!($parser, $context);
        }

        exit_eos!($parser, $context);
""")
    r('d-h2-format-result', H2, FORMAT, """        let proceed = handler.on_frame_format(
            payload_length!(self),
            (self.bit_data32a & 0xFF) as u8,
            self.bit_data16a as u8,
            self.bit_data32b & 0x7FFFFFFF
        );

        self.bit_data16a = 0;
        self.bit_data32a = self.bit_data32a >> 8 << 8;
        self.bit_data32b = 0;

        if !proceed {
            exit_callback!(self, context);
        }

        transition!(self, context);
""")
    r('d-h2-headers-tuple', H2, HEADERS, """                match (has_flag!(self, FL_PADDED), has_flag!(self, FL_PRIORITY)) {
                    (true, true) => {
                        set_state!(
                            self,
                            HeadersPadLengthWithPriority,
                            headers_pad_length_with_priority
                        );
                    },
                    (true, false) => {
                        set_state!(
                            self,
                            HeadersPadLengthWithoutPriority,
                            headers_pad_length_without_priority
                        );
                    },
                    (false, true) => {
                        set_state!(self, HeadersStreamId1, headers_stream_id1);
                    },
                    (false, false) => {
                        set_state!(self, HeadersCallback, headers_callback);
                    }
                }
""")
    r('d-h2-flag-type', H2, "use http2::flags::{", "use http2::flags::Flags;\nuse http2::flags::{",
      """        $parser.bit_data16a as u8 & $flag == $flag
""", """        ($parser.bit_data16a & $flag as u16) != 0
""")
    r('d-url-checked', H1, URLRES, """                Ok(Success::Eos(length)) => {
                    match self.length.checked_sub(length) {
                        Some(0) => {
                            self.state          = ParserState::BodyFinished;
                            self.state_function = Parser::body_finished;

                            // parsing counts the whole stream index again
                            self.byte_count -= length;

                            self.parse(&mut handler, &mut context)
                        },
                        Some(remaining) => {
                            self.length = remaining;

                            Ok(Success::Eos(length))
                        },
                        None => unreachable!()
                    }
                },
""")
    r('d-url-guard', H1, URLRES, """                Ok(Success::Eos(length)) if length == self.length => {
                    self.state          = ParserState::BodyFinished;
                    self.state_function = Parser::body_finished;

                    // parsing counts the whole stream index again
                    self.byte_count -= length;

                    self.parse(&mut handler, &mut context)
                },
                Ok(Success::Eos(length)) => {
                    self.length -= length;

                    Ok(Success::Eos(length))
                },
""")
    r('d-decode-while', DE, DECODE_HDR, '', DECODE, """    let mut context = ByteStream::new(encoded);
    let mut decoded = Vec::with_capacity(encoded.len());

    while !bs_is_eos!(context) {
        bs_next!(context);

        match context.byte {
            b'+' => decoded.push(b' '),
            b'%' => {
                if !bs_has_bytes!(context, 2) {
                    if bs_has_bytes!(context, 1) {
                        bs_next!(context);
                    }

                    return Err(DecodeError::HexSequence(context.byte));
                }

                decoded.push(collect_hex8!(context, DecodeError::HexSequence));
            },
            byte if is_not_visible_7bit!(byte) => {
                return Err(DecodeError::Byte(byte));
            },
            byte => decoded.push(byte)
        }
    }

    Ok(String::from_utf8_lossy(&decoded).into_owned())
""")
    r('d-decode-index', DE, DECODE_HDR, '', "use byte_slice::ByteStream;\n\n", "", DECODE, """    fn nibble(byte: u8) -> Result<u8, DecodeError> {
        match byte {
            b'0'..=b'9' => Ok(byte - b'0'),
            b'A'..=b'F' => Ok(byte - b'A' + 10),
            b'a'..=b'f' => Ok(byte - b'a' + 10),
            _ => Err(DecodeError::HexSequence(byte))
        }
    }

    let mut decoded = Vec::new();
    let mut index   = 0;

    while index < encoded.len() {
        let byte = encoded[index];

        index += 1;

        if byte == b'+' {
            decoded.push(b' ');
        } else if byte == b'%' {
            if encoded.len() - index < 2 {
                return Err(DecodeError::HexSequence(*encoded.last().unwrap()));
            }

            let high = nibble(encoded[index])?;
            let low  = nibble(encoded[index + 1])?;

            decoded.push(high << 4 | low);

            index += 2;
        } else if byte > 0x20 && byte < 0x7F {
            decoded.push(byte);
        } else {
            return Err(DecodeError::Byte(byte));
        }
    }

    Ok(String::from_utf8_lossy(&decoded).into_owned())
""")
    r('d-callback-order', FS, CALLBACK, """    ($parser:expr, $handler:expr, $context:expr, $callback:ident, $exec:expr) => ({
        if bs_slice_length!($context) == 0 || $handler.$callback(bs_slice!($context)) {
            $exec
        }

        exit_callback!($parser, $context);
    });
""")
    r('d-bits-fn', H1, """        let bits = $bits as u32;

        $parser.bit_data &= !(LOWER14_MASK << LOWER14_SHIFT);
        $parser.bit_data |= bits << LOWER14_SHIFT;
""", """        let bits = $bits as u32;

        $parser.bit_data = ($parser.bit_data & !(LOWER14_MASK << LOWER14_SHIFT))
                         | ((bits & LOWER14_MASK) << LOWER14_SHIFT);
""", """        let bits = $bits as u32;

        $parser.bit_data &= !(UPPER14_MASK << UPPER14_SHIFT);
        $parser.bit_data |= bits << UPPER14_SHIFT;
""", """        $parser.bit_data = $parser.bit_data % (1 << UPPER14_SHIFT)
                         + (($bits as u32) << UPPER14_SHIFT);
""")
    r('d-bits-xor', H1, """        ($parser.bit_data >> UPPER14_SHIFT) & UPPER14_MASK
""", """        $parser.bit_data >> UPPER14_SHIFT
""", """        ($parser.bit_data >> LOWER14_SHIFT) & LOWER14_MASK
""", """        ($parser.bit_data / 16) % 16384
""")
    r('d-query-first', QU, """                    b'=' => {
                        if self.context.stream_index == 1 {
                            // first byte cannot be an equal sign
                            submit_error!(self, QueryError::Name);
                        }

                        break;
                    },
                    _ if self.context.stream_index == 1 => {
                        // first byte cannot be a delimiter
                        submit_error!(self, QueryError::Name);
                    },
""", """                    _ if self.context.stream_index < 2 => {
                        // first byte cannot be an equal sign or a delimiter
                        submit_error!(self, QueryError::Name);
                    },
                    b'=' => {
                        break;
                    },
""")
    r('d-query-take', UM, """        return Some((String::from_utf8_lossy(&$iter.name).into_owned(), None));
""", """        let name = String::from_utf8_lossy(&$iter.name[..]).to_string();

        return Some((name, None));
""")
    r('d-query-mem', UM, """        submit_name_value!($iter.name, $iter.value)
""", """        let name  = ::std::mem::replace(&mut $iter.name, Vec::new());
        let value = ::std::mem::replace(&mut $iter.value, Vec::new());

        submit_name_value!(name, value)
""")
    r('d-field-ascii', FI, """                || (self.normalize && self.context.byte > 0x40 && self.context.byte < 0x5B),
""", """                || (self.normalize && self.context.byte.is_ascii_uppercase()),
""", """                byte if byte > 0x40 && byte < 0x5B => {
                    // upper-cased byte, let's lower-case it
                    self.name.push(self.context.byte + 0x20);
                },
""", """                byte if byte.is_ascii_uppercase() => {
                    // upper-cased byte, let's lower-case it
                    self.name.push(byte.to_ascii_lowercase());
                },
""")
    r('d-field-error-fn', UM, """        bs_jump!($iter.context, bs_available!($iter.context));

        (*$iter.on_error)($error($iter.context.byte));

        return None;
""", """        let byte = $iter.context.byte;

        $iter.context.stream_index = $iter.context.stream.len();

        ($iter.on_error)($error(byte));

        return None;
""")
    r('d-eos-macro', FS, """        bs_available!($context) > 0 || exit_eos!($parser, $context);
""", """        if $context.stream_index >= $context.stream.len() {
            exit_eos!($parser, $context);
        }
""")
    r('d-upper-lower', H1, """            callback_transition!(
                self,
                handler,
                context,
                on_header_name,
                &[context.byte + 0x20],
                LowerHeaderName,
                lower_header_name
            );
""", """            let lower = [context.byte | 0x20];

            set_state!(self, LowerHeaderName, lower_header_name);

            if !handler.on_header_name(&lower) {
                exit_callback!(self, context);
            }

            transition!(self, context);
""")
    r('d-table-bits', BY, """    HEADER_FIELDS[byte as usize]
""", """    match byte {
        b'\\t' | b' ' | b'!' => true,
        b'"' | 0x7F => false,
        _ => byte > b' '
    }
""")
    r('d-table-u32', BY, """    HEADER_FIELDS[byte as usize]
""", """    const LOW: [u32; 4] = [0x0000_0200, 0xFFFF_FFFB, 0xFFFF_FFFF, 0x7FFF_FFFF];

    byte > 0x7F || LOW[byte as usize >> 5] >> (byte & 0x1F) & 1 == 1
""")
    r('d-table-get', BY, """    TOKENS[byte as usize]
""", """    TOKENS.get(usize::from(byte)).map_or(false, |&token| token)
""")
    r('d-chunk-split', H1, """        if bs_available!(context) >= self.length {
            // collect remaining chunk data
            bs_collect_length!(context, self.length);

            self.length = 0;

            callback_transition!(
                self,
                handler,
                context,
                on_chunk_data,
                ChunkDataCr,
                chunk_data_cr
            );
        }

        // collect remaining stream data
        self.length -= bs_available!(context);

        bs_collect_length!(context, bs_available!(context));

        callback_transition!(
            self,
            handler,
            context,
            on_chunk_data,
            ChunkData,
            chunk_data
        );
""", """        let available = bs_available!(context);
        let (taken, left) = match self.length.checked_sub(available) {
            Some(left) => (available, left),
            None => (self.length, 0)
        };

        bs_mark!(context);
        bs_jump!(context, taken);

        self.length = left;

        if left == 0 {
            set_state!(self, ChunkDataCr, chunk_data_cr);
        }

        if taken == 0 || handler.on_chunk_data(bs_slice!(context)) {
            transition!(self, context);
        }

        exit_callback!(self, context);
""")
    r('d-chunk-saturating', H1, """            // collect remaining chunk data
            bs_collect_length!(context, self.length);

            self.length = 0;
""", """            // collect remaining chunk data
            let length = ::std::mem::replace(&mut self.length, 0);

            bs_collect_length!(context, length);
""")
    r('d-h2-be', H2, """        $into |= ($context.stream[$context.stream_index] as u32) << 24;
        $into |= ($context.stream[$context.stream_index + 1] as u32) << 16;
        $into |= ($context.stream[$context.stream_index + 2] as u32) << 8;
        $into |= $context.stream[$context.stream_index + 3] as u32;

        bs_jump!($context, 4);
""", """        let mut bytes = [0; 4];

        bytes.copy_from_slice(&$context.stream[$context.stream_index..$context.stream_index + 4]);

        $into |= u32::from_be_bytes(bytes);

        bs_jump!($context, 4);
""")
    r('d-h2-bytes', H2, """        $into |= ($context.stream[$context.stream_index] as u16) << 8;
        $into |= $context.stream[$context.stream_index + 1] as u16;

        bs_jump!($context, 2);
""", """        if let [high, low] = $context.stream[$context.stream_index..$context.stream_index + 2] {
            $into |= u16::from_be_bytes([high, low]);
        }

        bs_jump!($context, 2);
""")
    r('d-h2-dec-checked', H2, """        if payload_length!($parser) < $length {
            // the payload is too short for its fields
            exit_error!(Dead);
        }

        $parser.bit_data32a = ($parser.bit_data32a & 0xFF)
                            | (($parser.bit_data32a >> 8) - $length) << 8;
""", """        match payload_length!($parser).checked_sub($length) {
            Some(remaining) => {
                $parser.bit_data32a = remaining << 8 | pad_length!($parser);
            },
            None => {
                // the payload is too short for its fields
                exit_error!(Dead);
            }
        }
""")
