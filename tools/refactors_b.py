"""More edits that keep the behaviour, in the ways somebody else might write them (see refactors.py)."""
H1, H2 = 'src/http1/parser.rs', 'src/http2/parser.rs'
CO, BY, FS = 'src/collect.rs', 'src/byte.rs', 'src/fsm.rs'
QU, FI, DE = 'src/util/query.rs', 'src/util/field.rs', 'src/util/decode.rs'
SIG = """    #[inline]
    fn %s(&mut self, %s: &mut T, context: &mut ByteStream)
    -> Result<ParserValue, ParserError> {
"""


def add(r):
    # ---- fsm and loops
    r('fsm-parse-question', H1, """            match (self.state_function)(self, &mut handler, &mut context) {
                Ok(ParserValue::Continue) => {
                },
                Ok(ParserValue::Exit(success)) => {
                    self.byte_count += context.stream_index;

                    if let Success::Finished(_) = success {
                        self.state = ParserState::Finished;
                    }

                    return Ok(success);
                },
                Err(error) => {
                    self.byte_count     += context.stream_index;
                    self.state           = ParserState::Dead;
                    self.state_function  = Parser::dead;

                    return Err(error);
                }
            }
""", """            let result = (self.state_function)(self, &mut handler, &mut context);

            if let Ok(ParserValue::Continue) = result {
                continue;
            }

            self.byte_count += context.stream_index;

            return result.map(|value| match value {
                ParserValue::Exit(success) => success,
                ParserValue::Continue => unreachable!()
            }).map(|success| {
                if let Success::Finished(_) = success {
                    self.state = ParserState::Finished;
                }

                success
            }).map_err(|error| {
                self.state          = ParserState::Dead;
                self.state_function = Parser::dead;

                error
            });
""")
    r('fsm-while', H1, """        loop {
            match (self.state_function)(self, &mut handler, &mut context) {
                Ok(ParserValue::Continue) => {
                },
                Ok(ParserValue::Exit(success)) => {
                    self.byte_count += context.stream_index;

                    if let Success::Finished(_) = success {
                        self.state = ParserState::Finished;
                    }

                    return Ok(success);
                },
                Err(error) => {
                    self.byte_count     += context.stream_index;
                    self.state           = ParserState::Dead;
                    self.state_function  = Parser::dead;

                    return Err(error);
                }
            }
        }
""", """        let mut step = (self.state_function)(self, &mut handler, &mut context);

        while let Ok(ParserValue::Continue) = step {
            step = (self.state_function)(self, &mut handler, &mut context);
        }

        self.byte_count += context.stream_index;

        let success = match step {
            Ok(ParserValue::Exit(success)) => success,
            Ok(ParserValue::Continue) => unreachable!(),
            Err(error) => {
                self.kill();

                return Err(error);
            }
        };

        match success {
            Success::Finished(_) => self.state = ParserState::Finished,
            Success::Callback(_) | Success::Eos(_) => {}
        }

        Ok(success)
""", """    /// Reset `Parser` to its initial state.
""", """    /// Nothing more can be parsed.
    fn kill(&mut self) {
        self.state          = ParserState::Dead;
        self.state_function = Parser::dead;
    }

    /// Reset `Parser` to its initial state.
""")
    r('resume-min', H1, """            if self.length < stream.len() {
                // amount of data to process is less than the stream length
                stream = &stream[0..self.length];
            }

            let mut context = ByteStream::new(stream);
""", """            let amount = ::std::cmp::min(stream.len(), self.length);

            stream = &stream[..amount];

            let mut context = ByteStream::new(stream);
""")
    r('resume-split', H1, """            if self.length < stream.len() {
                // amount of data to process is less than the stream length
                stream = &stream[0..self.length];
            }
""", """            if stream.len() > self.length {
                stream = stream.split_at(self.length).0;
            }
""", """                    if self.length - length == 0 {
                        self.state""", """                    if length == self.length {
                        self.state""")
    # ---- head
    r('strip-matches', H1, """        if context.byte == b'\\r' || context.byte == b'\\n'
        || context.byte == b'\\t' || context.byte == b' ' {
            loop {
                bs_available!(context) > 0 || exit_eos!(self, context);

                bs_next!(context);

                if context.byte == b'\\r' || context.byte == b'\\n'
                || context.byte == b'\\t' || context.byte == b' ' {
                    continue;
                }

                break;
            }
        }
""", """        while matches!(context.byte, b'\\r' | b'\\n' | b'\\t' | b' ') {
            exit_if_eos!(self, context);
            bs_next!(context);
        }
""")
    r('strip-position', H1, """        bs_available!(context) > 0 || exit_eos!(self, context);
        bs_next!(context);

        if context.byte == b'\\r' || context.byte == b'\\n'
        || context.byte == b'\\t' || context.byte == b' ' {
            loop {
                bs_available!(context) > 0 || exit_eos!(self, context);

                bs_next!(context);

                if context.byte == b'\\r' || context.byte == b'\\n'
                || context.byte == b'\\t' || context.byte == b' ' {
                    continue;
                }

                break;
            }
        }

        bs_replay!(context);
""", """        loop {
            bs_available!(context) > 0 || exit_eos!(self, context);

            bs_next!(context);

            if !b"\\r\\n\\t ".contains(&context.byte) {
                break;
            }
        }

        bs_replay!(context);
""")
    r('detect-shared', H1, SIG % ('detect2', 'handler') + """        exit_if_eos!(self, context);
        bs_next!(context);

        if context.byte == b'T' {
            transition!(
                self,
                context,
                Detect3,
                detect3
            );
        }

        // this is a request method that shares a prefix with the HTTP version
        if context.byte == b' ' || (context.byte > 0x40 && context.byte < 0x5B) {
            bs_replay!(context);

            callback_transition!(
                self,
                handler,
                context,
                on_method,
                b"H",
                RequestMethod,
                request_method
            );
        }

        Err(ParserError::Method(context.byte))
    }
""", """    /// A request method that shares a prefix with the HTTP version.
    fn shared_prefix(&mut self, handler: &mut T, context: &mut ByteStream, prefix: &[u8])
    -> Result<ParserValue, ParserError> {
        match context.byte {
            b' ' | b'A'...b'Z' => {
                bs_replay!(context);

                callback_transition!(
                    self,
                    handler,
                    context,
                    on_method,
                    prefix,
                    RequestMethod,
                    request_method
                );
            },
            byte => Err(ParserError::Method(byte))
        }
    }

""" + SIG % ('detect2', 'handler') + """        exit_if_eos!(self, context);
        bs_next!(context);

        if context.byte != b'T' {
            return self.shared_prefix(handler, context, b"H");
        }

        transition!(
            self,
            context,
            Detect3,
            detect3
        );
    }
""", SIG % ('detect5', 'handler') + """        exit_if_eos!(self, context);
        bs_next!(context);

        if context.byte == b'/' {
            transition!(
                self,
                context,
                ResponseVersionMajor1,
                response_version_major1
            );
        }

        // this is a request method that shares a prefix with the HTTP version
        if context.byte == b' ' || (context.byte > 0x40 && context.byte < 0x5B) {
            bs_replay!(context);

            callback_transition!(
                self,
                handler,
                context,
                on_method,
                b"HTTP",
                RequestMethod,
                request_method
            );
        }

        Err(ParserError::Method(context.byte))
    }
""", SIG % ('detect5', 'handler') + """        exit_if_eos!(self, context);
        bs_next!(context);

        if context.byte != b'/' {
            return self.shared_prefix(handler, context, b"HTTP");
        }

        transition!(
            self,
            context,
            ResponseVersionMajor1,
            response_version_major1
        );
    }
""")
    r('method-while', H1, """        bs_collect!(
            context,

            // break when non-upper-case is found
            if context.byte < 0x41 || context.byte > 0x5A {
                break;
            },

            // on end-of-stream
            callback_eos_expr!(self, handler, context, on_method)
        );

        if context.byte == b' ' {
            callback_ignore_transition!(
""", """        loop {
            if bs_is_eos!(context) {
                callback_eos_expr!(self, handler, context, on_method);
            }

            bs_next!(context);

            if !context.byte.is_ascii_uppercase() {
                break;
            }
        }

        if context.byte == b' ' {
            callback_ignore_transition!(
""")
    r('method-count', H1, """        bs_collect!(
            context,

            // break when non-upper-case is found
            if context.byte < 0x41 || context.byte > 0x5A {
                break;
            },

            // on end-of-stream
            callback_eos_expr!(self, handler, context, on_method)
        );

        if context.byte == b' ' {
            callback_ignore_transition!(
""", """        let mut count = 0;

        while count < bs_available!(context) {
            let byte = context.stream[context.stream_index + count];

            if byte < b'A' || b'Z' < byte {
                break;
            }

            count += 1;
        }

        bs_jump!(context, count);

        if bs_is_eos!(context) {
            callback_eos_expr!(self, handler, context, on_method);
        }

        bs_next!(context);

        if context.byte == b' ' {
            callback_ignore_transition!(
""")
    r('url-position', H1, """        collect_visible_7bit!(
            context,

            // on end-of-stream
            callback_eos_expr!(self, handler, context, on_url)
        );
""", """        let end = context.stream[context.stream_index..].iter().position(|byte| {
            *byte < 0x21 || *byte > 0x7E
        });

        match end {
            Some(n) => {
                bs_jump!(context, n + 1);

                context.byte = context.stream[context.stream_index - 1];
            },
            None => {
                bs_jump!(context, bs_available!(context));

                callback_eos_expr!(self, handler, context, on_url);
            }
        }
""")
    r('version-table', H1, """            unsafe {
                if bs_starts_with9!(context, b"HTTP/1.1\\r") {
                    version!(1, 1, 9);
                } else if bs_starts_with9!(context, b"HTTP/2.0\\r") {
                    version!(2, 0, 9);
                } else if bs_starts_with9!(context, b"HTTP/1.0\\r") {
                    version!(1, 0, 9);
                }
            }
""", """            let known = match &context.stream[context.stream_index..context.stream_index + 9] {
                b"HTTP/1.0\\r" => Some((1, 0)),
                b"HTTP/1.1\\r" => Some((1, 1)),
                b"HTTP/2.0\\r" => Some((2, 0)),
                _ => None
            };

            if let Some((major, minor)) = known {
                version!(major, minor, 9);
            }
""")
    r('version-loop-table', H1, """            unsafe {
                if bs_starts_with9!(context, b"HTTP/1.1\\r") {
                    version!(1, 1, 9);
                } else if bs_starts_with9!(context, b"HTTP/2.0\\r") {
                    version!(2, 0, 9);
                } else if bs_starts_with9!(context, b"HTTP/1.0\\r") {
                    version!(1, 0, 9);
                }
            }
""", """            for &(text, major, minor) in &[(b"HTTP/1.1\\r", 1, 1), (b"HTTP/2.0\\r", 2, 0), (b"HTTP/1.0\\r", 1, 0)] {
                if bs_starts_with!(context, text) {
                    version!(major, minor, 9);
                }
            }
""")
    r('digit-helper', H1, SIG % ('request_version_major2', '_handler') + """        exit_if_eos!(self, context);
        bs_next!(context);

        if context.byte == b'.' {
            transition!(
                self,
                context,
                RequestVersionMinor1,
                request_version_minor1
            );
        } else if is_digit!(context.byte) {
            set_lower14!(self, (get_lower14!(self) * 10) + (context.byte - b'0') as u32);
""", """    /// Append a digit to the lower 14 bits.
    fn push_lower_digit(&mut self, digit: u8) {
        let value = get_lower14!(self) * 10 + u32::from(digit);

        set_lower14!(self, value);
    }

""" + SIG % ('request_version_major2', '_handler') + """        exit_if_eos!(self, context);
        bs_next!(context);

        if context.byte == b'.' {
            transition!(
                self,
                context,
                RequestVersionMinor1,
                request_version_minor1
            );
        } else if context.byte.is_ascii_digit() {
            self.push_lower_digit(context.byte & 0x0F);
""", SIG % ('response_version_major2', '_handler') + """        exit_if_eos!(self, context);
        bs_next!(context);

        if context.byte == b'.' {
            transition!(
                self,
                context,
                ResponseVersionMinor1,
                response_version_minor1
            );
        } else if is_digit!(context.byte) {
            set_lower14!(self, (get_lower14!(self) * 10) + (context.byte - b'0') as u32);
""", SIG % ('response_version_major2', '_handler') + """        exit_if_eos!(self, context);
        bs_next!(context);

        if context.byte == b'.' {
            transition!(
                self,
                context,
                ResponseVersionMinor1,
                response_version_minor1
            );
        } else if let Some(digit) = (context.byte as char).to_digit(10) {
            self.push_lower_digit(digit as u8);
""")
    r('version-early-error', H1, SIG % ('request_version_minor1', '_handler') + """        exit_if_eos!(self, context);
        bs_next!(context);

        if is_digit!(context.byte) {
            set_upper14!(self, (context.byte - b'0') as u32);

            transition!(
                self,
                context,
                RequestVersionMinor2,
                request_version_minor2
            );
        }

        Err(ParserError::Version(context.byte))
    }
""", SIG % ('request_version_minor1', '_handler') + """        exit_if_eos!(self, context);
        bs_next!(context);

        let digit = context.byte.wrapping_sub(b'0');

        if digit > 9 {
            exit_error!(Version, context.byte);
        }

        set_upper14!(self, digit);

        transition!(
            self,
            context,
            RequestVersionMinor2,
            request_version_minor2
        );
    }
""")
    r('status-fold', H1, """            // have enough bytes to compare the entire status code
            bs_next!(context);

            if !is_digit!(context.byte) {
                exit_error!(StatusCode, context.byte);
            }

            set_lower14!(self, (context.byte - b'0') as u32 * 100);

            bs_next!(context);

            if !is_digit!(context.byte) {
                exit_error!(StatusCode, context.byte);
            }

            set_lower14!(self, get_lower14!(self) + (context.byte - b'0') as u32 * 10);

            bs_next!(context);

            if !is_digit!(context.byte) {
                exit_error!(StatusCode, context.byte);
            }

            set_lower14!(self, get_lower14!(self) + (context.byte - b'0') as u32);
""", """            // have enough bytes to compare the entire status code
            let mut code = 0;

            for weight in &[100u32, 10, 1] {
                bs_next!(context);

                if !is_digit!(context.byte) {
                    exit_error!(StatusCode, context.byte);
                }

                code += (context.byte - b'0') as u32 * weight;
            }

            set_lower14!(self, code);
""")
    r('status2-else', H1, """            if context.byte > 0x1F && context.byte != 0x7F {
                continue;
            } else if context.byte == b'\\r' {
                break;
            } else {
                exit_error!(Status, context.byte);
            },
""", """            match context.byte {
                b'\\r' => break,
                0x00...0x1F | 0x7F => return Err(ParserError::Status(context.byte)),
                _ => {}
            },
""")
    r('initial-end-order', H1, SIG % ('initial_end', 'handler') + """        set_state!(self, InitialLf, initial_lf);

        if handler.on_initial_finished() {
            transition!(self, context);
        }

        exit_callback!(self, context);
    }
""", SIG % ('initial_end', 'handler') + """        let more = handler.on_initial_finished();

        set_state!(self, InitialLf, initial_lf);

        if !more {
            exit_callback!(self, context);
        }

        transition!(self, context);
    }
""")
    # ---- header lines
    r('check-name-match', H1, """        if context.byte == b' ' || context.byte == b'\\t' {
            // multiline value
            transition!(
                self,
                context,
                HeaderValue,
                header_value
            );
        }

        bs_replay!(context);

        transition!(
            self,
            context,
            FirstHeaderName,
            first_header_name
        );
""", """        match context.byte {
            b'\\t' | b' ' => {
                set_state!(self, HeaderValue, header_value);
            },
            _ => {
                bs_replay!(context);
                set_state!(self, FirstHeaderName, first_header_name);
            }
        }

        transition!(self, context);
""")
    r('check-name-peek', H1, """        exit_if_eos!(self, context);
        bs_next!(context);

        if context.byte == b' ' || context.byte == b'\\t' {
            // multiline value
            transition!(
                self,
                context,
                HeaderValue,
                header_value
            );
        }

        bs_replay!(context);

        transition!(
            self,
            context,
            FirstHeaderName,
            first_header_name
        );
""", """        match context.stream[context.stream_index..].first() {
            None => exit_eos!(self, context),
            Some(&byte) => {
                context.byte = byte;

                if byte == b' ' || byte == b'\\t' {
                    // multiline value
                    bs_jump!(context, 1);

                    transition!(
                        self,
                        context,
                        HeaderValue,
                        header_value
                    );
                }
            }
        }

        transition!(
            self,
            context,
            FirstHeaderName,
            first_header_name
        );
""")
    r('names-flat', H1, """                if context.byte == b'A' {
                    if bs_starts_with7!(context, b"Accept:") {
                        name!(b"accept", 7);
                    } else if bs_starts_with15!(context, b"Accept-Charset:") {
                        name!(b"accept-charset", 15);
                    } else if bs_starts_with16!(context, b"Accept-Encoding:") {
                        name!(b"accept-encoding", 16);
                    } else if bs_starts_with16!(context, b"Accept-Language:") {
                        name!(b"accept-language", 16);
                    } else if bs_starts_with14!(context, b"Authorization:") {
                        name!(b"authorization", 14);
                    }
                } else if bs_starts_with5!(context, b"Host:") {
""", """                if context.byte == b'A' {
                    let names: [(&[u8], &[u8]); 5] = [(b"Accept:", b"accept"),
                                                      (b"Accept-Charset:", b"accept-charset"),
                                                      (b"Accept-Encoding:", b"accept-encoding"),
                                                      (b"Accept-Language:", b"accept-language"),
                                                      (b"Authorization:", b"authorization")];

                    for &(text, name) in names.iter() {
                        if bs_starts_with!(context, text) {
                            name!(name, text.len());
                        }
                    }
                } else if bs_starts_with5!(context, b"Host:") {
""")
    r('names-slice', H1, """                } else if context.byte == b'L' {
                    if bs_starts_with9!(context, b"Location:") {
                        name!(b"location", 9);
                    } else if bs_starts_with14!(context, b"Last-Modified:") {
                        name!(b"last-modified", 14);
                    }
                } else if""", """                } else if context.byte == b'L' {
                    let rest = &context.stream[context.stream_index..];

                    if rest.starts_with(b"Location:") {
                        name!(b"location", 9);
                    } else if rest.starts_with(b"Last-Modified:") {
                        name!(b"last-modified", 14);
                    }
                } else if""")
    r('no-known-names', H1, """        if bs_has_bytes!(context, 24) {
            // have enough""", """        if false && bs_has_bytes!(context, 24) {
            // have enough""")
    r('upper-lowercase', H1, SIG % ('upper_header_name', 'handler') + """        exit_if_eos!(self, context);
        bs_next!(context);

        if context.byte > 0x40 && context.byte < 0x5B {
            // upper-cased byte, let's lower-case it
            callback_transition!(
                self,
                handler,
                context,
                on_header_name,
                &[context.byte + 0x20],
                LowerHeaderName,
                lower_header_name
            );
        }

        bs_replay!(context);

        transition!(
            self,
            context,
            LowerHeaderName,
            lower_header_name
        );
    }
""", SIG % ('upper_header_name', 'handler') + """        exit_if_eos!(self, context);
        bs_next!(context);
        set_state!(self, LowerHeaderName, lower_header_name);

        if context.byte.is_ascii_uppercase() {
            let lower = [context.byte.to_ascii_lowercase()];

            if !handler.on_header_name(&lower[..]) {
                exit_callback!(self, context);
            }
        } else {
            bs_replay!(context);
        }

        transition!(self, context);
    }
""")
    r('lower-skip-upper', H1, """        if context.byte > 0x40 && context.byte < 0x5B {
            // upper-cased byte
            bs_replay!(context);

            callback_transition!(
                self,
                handler,
                context,
                on_header_name,
                UpperHeaderName,
                upper_header_name
            );
        } else if context.byte == b':' {
            callback_ignore_transition!(
                self,
                handler,
                context,
                on_header_name,
                StripHeaderValue,
                strip_header_value
            );
        }

        Err(ParserError::HeaderName(context.byte))
""", """        match context.byte {
            b':' => {
                set_state!(self, StripHeaderValue, strip_header_value);
            },
            b'A'...b'Z' => {
                // upper-cased byte
                bs_replay!(context);
                set_state!(self, UpperHeaderName, upper_header_name);

                callback!(self, handler, context, on_header_name, {
                    transition!(self, context);
                });
            },
            byte => return Err(ParserError::HeaderName(byte))
        }

        if bs_slice_length!(context) > 1 && !handler.on_header_name(bs_slice_ignore!(context)) {
            exit_callback!(self, context);
        }

        transition!(self, context);
""")
    r('quoted-any', CO, """            if !is_quoted_header_field($context.byte) {
                break;
            },""", """            match $context.byte {
                b'"' | b'\\\\' => break,
                byte if is_quoted_header_field(byte) => {},
                _ => break
            },""")
    r('field-table-fn', BY, """    HEADER_FIELDS[byte as usize]
""", """    match byte {
        b'\\t' => true,
        b'"' | 0x7F => false,
        _ => byte >= b' '
    }
""", """    TOKENS[byte as usize]
""", """    byte.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&byte)
""")
    r('escape-range', H1, SIG % ('header_escaped_value', 'handler') + """        // since we're not collecting, and because it's EOS, we must execute the callback
        // manually
        if bs_available!(context) == 0 {
            callback_eos_expr!(self, handler, context, on_header_value);
        }

        bs_next!(context);

        // escaped bytes must be 7bit, and cannot be control characters
        if context.byte > 0x1F && context.byte < 0x7B {
            callback_transition!(
                self,
                handler,
                context,
                on_header_value,
                HeaderQuotedValue,
                header_quoted_value
            );
        }

        Err(ParserError::HeaderValue(context.byte))
    }
""", SIG % ('header_escaped_value', 'handler') + """        if bs_is_eos!(context) {
            // the backslash may be in this slice
            if bs_slice_length!(context) == 0 || handler.on_header_value(bs_slice!(context)) {
                exit_eos!(self, context);
            }

            exit_callback!(self, context);
        }

        bs_next!(context);

        // escaped bytes must be 7bit, and cannot be control characters
        if context.byte < 0x20 || 0x7A < context.byte {
            exit_error!(HeaderValue, context.byte);
        }

        set_state!(self, HeaderQuotedValue, header_quoted_value);

        if handler.on_header_value(&context.stream[context.mark_index..context.stream_index]) {
            transition!(self, context);
        }

        exit_callback!(self, context);
    }
""")
    r('crlf-helper', H1, SIG % ('header_lf1', '_handler') + """        exit_if_eos!(self, context);
        bs_next!(context);

        if context.byte == b'\\n' {
            transition!(
                self,
                context,
                HeaderCr2,
                header_cr2
            );
        }

        Err(ParserError::CrlfSequence(context.byte))
    }
""", """    /// The next byte, if there is one.
    #[inline]
    fn take(context: &mut ByteStream) -> Option<u8> {
        if bs_available!(context) == 0 {
            None
        } else {
            bs_next!(context);

            Some(context.byte)
        }
    }

""" + SIG % ('header_lf1', '_handler') + """        match Self::take(context) {
            Some(b'\\n') => {
                transition!(
                    self,
                    context,
                    HeaderCr2,
                    header_cr2
                );
            },
            Some(byte) => Err(ParserError::CrlfSequence(byte)),
            None => {
                exit_eos!(self, context);
            }
        }
    }
""", SIG % ('header_lf2', '_handler') + """        exit_if_eos!(self, context);
        bs_next!(context);

        if context.byte == b'\\n' {
""", SIG % ('header_lf2', '_handler') + """        if Self::take(context).is_none() {
            exit_eos!(self, context);
        }

        if context.byte == b'\\n' {
""")
    r('skip-state', H1, """        if context.byte == b'\\n' {
            transition!(
                self,
                context,
                HeaderCr2,
                header_cr2
            );
        }

        Err(ParserError::CrlfSequence(context.byte))
    }

    #[inline]
    fn check_header_name""", """        if context.byte == b'\\n' {
            set_state!(self, HeaderCr2, header_cr2);
            bs_mark!(context, context.stream_index);

            return self.header_cr2(_handler, context);
        }

        Err(ParserError::CrlfSequence(context.byte))
    }

    #[inline]
    fn check_header_name""")
    # ---- chunks
    r('chunk-first-match', H1, """        if context.byte == b'0' {
            set_state!(self, ChunkLengthCr, chunk_length_cr);
        } else if is_hex!(context.byte) {
            self.length = hex_to_byte!(context.byte) as usize;

            set_state!(self, ChunkLength2, chunk_length2);
        } else {
            exit_error!(ChunkLength, context.byte);
        }

        if handler""", """        match context.byte {
            b'0' => {
                set_state!(self, ChunkLengthCr, chunk_length_cr);
            },
            b'1'...b'9' | b'a'...b'f' | b'A'...b'F' => {
                self.length = (context.byte as char).to_digit(16).unwrap() as usize;

                set_state!(self, ChunkLength2, chunk_length2);
            },
            _ => {
                exit_error!(ChunkLength, context.byte);
            }
        }

        if handler""")
    r('chunk-digit-helper', H1, SIG % ('chunk_length2', '_handler') + """        exit_if_eos!(self, context);
        bs_next!(context);

        if is_hex!(context.byte) {
            self.length <<= 4;
            self.length  |= hex_to_byte!(context.byte) as usize;

            transition!(
                self,
                context,
                ChunkLength3,
                chunk_length3
            );
        }
""", """    /// Append a hex digit to the length.
    fn push_length(&mut self, byte: u8) -> bool {
        let digit = match byte {
            b'0'...b'9' => byte - b'0',
            b'a'...b'f' => byte - b'a' + 10,
            b'A'...b'F' => byte - b'A' + 10,
            _ => return false
        };

        self.length = self.length * 16 + digit as usize;

        true
    }

""" + SIG % ('chunk_length2', '_handler') + """        exit_if_eos!(self, context);
        bs_next!(context);

        if self.push_length(context.byte) {
            transition!(
                self,
                context,
                ChunkLength3,
                chunk_length3
            );
        }
""", SIG % ('chunk_length8', '_handler') + """        exit_if_eos!(self, context);
        bs_next!(context);

        if is_hex!(context.byte) {
            self.length <<= 4;
            self.length  |= hex_to_byte!(context.byte) as usize;
        } else {
            bs_replay!(context);
        }
""", SIG % ('chunk_length8', '_handler') + """        exit_if_eos!(self, context);
        bs_next!(context);

        if !self.push_length(context.byte) {
            bs_replay!(context);
        }
""")
    r('chunk-data-min', H1, SIG % ('chunk_data', 'handler') + """        exit_if_eos!(self, context);

        if bs_available!(context) >= self.length {
            // collect remaining chunk data
            bs_collect_length!(context, self.length);

            self.length = 0;

            callback_transition!(
                self,
                handler,
                context,
                on_chunk_data,
                ChunkDataCr,
                chunk_data_cr
            );
        }

        // collect remaining stream data
        self.length -= bs_available!(context);

        bs_collect_length!(context, bs_available!(context));

        callback_transition!(
            self,
            handler,
            context,
            on_chunk_data,
            ChunkData,
            chunk_data
        );
""", SIG % ('chunk_data', 'handler') + """        exit_if_eos!(self, context);

        let amount = ::std::cmp::min(self.length, bs_available!(context));

        bs_jump!(context, amount);

        self.length -= amount;

        if self.length == 0 {
            set_state!(self, ChunkDataCr, chunk_data_cr);
        } else {
            set_state!(self, ChunkData, chunk_data);
        }

        callback!(self, handler, context, on_chunk_data, {
            transition!(self, context);
        });
""")
    r('chunk-data-slice', H1, SIG % ('chunk_data', 'handler') + """        exit_if_eos!(self, context);

        if bs_available!(context) >= self.length {
            // collect remaining chunk data
            bs_collect_length!(context, self.length);

            self.length = 0;

            callback_transition!(
                self,
                handler,
                context,
                on_chunk_data,
                ChunkDataCr,
                chunk_data_cr
            );
        }
""", SIG % ('chunk_data', 'handler') + """        exit_if_eos!(self, context);

        if self.length <= bs_available!(context) {
            // collect remaining chunk data
            let data = &context.stream[context.stream_index..context.stream_index + self.length];

            context.stream_index += data.len();
            self.length = 0;

            set_state!(self, ChunkDataCr, chunk_data_cr);

            if data.is_empty() || handler.on_chunk_data(data) {
                transition!(self, context);
            }

            exit_callback!(self, context);
        }
""")
    r('ext-finished-match', H1, """        if context.byte == b'\\r' {
            set_state!(self, ChunkExtensionsFinished, chunk_extensions_finished);
        } else {
            set_state!(self, StripChunkExtensionName, strip_chunk_extension_name);
        }

        if handler.on_chunk_extension_finished() {
            transition!(self, context);
        }

        exit_callback!(self, context);
""", """        let last = context.byte == b'\\r';

        if last {
            set_state!(self, ChunkExtensionsFinished, chunk_extensions_finished);
        } else {
            set_state!(self, StripChunkExtensionName, strip_chunk_extension_name);
        }

        let more = handler.on_chunk_extension_finished();

        bs_mark!(context, context.stream_index);

        Ok(if more {
            ParserValue::Continue
        } else {
            ParserValue::Exit(Success::Callback(context.stream_index))
        })
""")
    r('chunk-cr-nested', H1, """        if context.byte == b'\\r' {
            if self.length == 0 {
                callback_transition!(
                    self,
                    handler,
                    context,
                    on_chunk_length,
                    self.length,
                    HeaderLf1,
                    header_lf1
                );
            }

            callback_transition!(
                self,
                handler,
                context,
                on_chunk_length,
                self.length,
                ChunkExtensionsFinished,
                chunk_extensions_finished
            );
        } else if context.byte == b';' {
            callback_transition!(
                self,
                handler,
                context,
                on_chunk_length,
                self.length,
                StripChunkExtensionName,
                strip_chunk_extension_name
            );
        }

        Err(ParserError::ChunkLength(context.byte))
""", """        match (context.byte, self.length) {
            (b'\\r', 0) => {
                set_state!(self, HeaderLf1, header_lf1);
            },
            (b'\\r', _) => {
                set_state!(self, ChunkExtensionsFinished, chunk_extensions_finished);
            },
            (b';', _) => {
                set_state!(self, StripChunkExtensionName, strip_chunk_extension_name);
            },
            (byte, _) => return Err(ParserError::ChunkLength(byte))
        }

        let length = self.length;

        if handler.on_chunk_length(length) {
            transition!(self, context);
        }

        exit_callback!(self, context);
""")
    # ---- multipart
    r('hyphen-let', H1, SIG % ('multipart_hyphen1', 'handler') + """        exit_if_eos!(self, context);
        bs_next!(context);

        if context.byte == b'-' {
            transition!(
                self,
                context,
                MultipartHyphen2,
                multipart_hyphen2
            );
        } else if get_lower14!(self) == 0 {
""", SIG % ('multipart_hyphen1', 'handler') + """        exit_if_eos!(self, context);
        bs_next!(context);

        let within_data = get_lower14!(self) == 0;
        let found = context.byte == b'-';

        if found {
            transition!(
                self,
                context,
                MultipartHyphen2,
                multipart_hyphen2
            );
        }

        if within_data {
""")
    r('boundary-bytes', H1, """            let slice =
                if boundary.len() - get_upper14!(self) as usize <= bs_available!(context) {
                    // compare remainder of boundary
                    &boundary[get_upper14!(self) as usize..]
                } else {
                    // compare remainder of stream
                    &boundary[
                        get_upper14!(self) as usize..
                        get_upper14!(self) as usize + bs_available!(context)
                    ]
                };
""", """            let done = get_upper14!(self) as usize;
            let rest = &boundary[done..];
            let slice = &rest[..::std::cmp::min(rest.len(), bs_available!(context))];
""")
    r('boundary-eq', H1, """            if bs_starts_with!(context, slice) {
                // matches""", """            let same = context.stream[context.stream_index..].starts_with(slice);

            if same {
                // matches""")
    r('by-length-min', H1, SIG % ('multipart_data_by_length', 'handler') + """        exit_if_eos!(self, context);

        if bs_available!(context) >= self.length {
            // collect remaining multipart data
            bs_collect_length!(context, self.length);

            self.length = 0;

            callback_transition!(
                self,
                handler,
                context,
                on_multipart_data,
                MultipartDataByLengthCr,
                multipart_data_by_length_cr
            );
        }

        // collect remaining stream data
        self.length -= bs_available!(context);

        bs_collect_length!(context, bs_available!(context));
""", SIG % ('multipart_data_by_length', 'handler') + """        exit_if_eos!(self, context);

        let available = bs_available!(context);

        if let Some(rest) = self.length.checked_sub(available + 1) {
            // collect remaining stream data
            self.length = rest + 1;
        } else {
            // collect remaining multipart data
            bs_jump!(context, self.length);

            self.length = 0;

            callback_transition!(
                self,
                handler,
                context,
                on_multipart_data,
                MultipartDataByLengthCr,
                multipart_data_by_length_cr
            );
        }

        bs_jump!(context, available);
""")
    r('boundary-len-cast', H1, """        // boundary comparison not finished
        inc_upper14!(self, length);
""", """        // boundary comparison not finished
        let compared = get_upper14!(self) + length as u32;

        set_upper14!(self, compared);
""")
    # ---- HTTP/2
    r('h2-u16-from', H2, """        $into |= ($context.stream[$context.stream_index] as u16) << 8;
        $into |= $context.stream[$context.stream_index + 1] as u16;

        bs_jump!($context, 2);
""", """        $into |= u16::from_be_bytes([$context.stream[$context.stream_index],
                                     $context.stream[$context.stream_index + 1]]);

        bs_jump!($context, 2);
""")
    r('h2-u32-fold', H2, """        $into |= ($context.stream[$context.stream_index] as u32) << 24;
        $into |= ($context.stream[$context.stream_index + 1] as u32) << 16;
        $into |= ($context.stream[$context.stream_index + 2] as u32) << 8;
        $into |= $context.stream[$context.stream_index + 3] as u32;

        bs_jump!($context, 4);
""", """        let mut value: u32 = 0;

        for n in 0..4 {
            value = value << 8 | $context.stream[$context.stream_index + n] as u32;
        }

        $into |= value;

        bs_jump!($context, 4);
""")
    r('h2-u32-iter', H2, """        $into |= ($context.stream[$context.stream_index] as u32) << 24;
        $into |= ($context.stream[$context.stream_index + 1] as u32) << 16;
        $into |= ($context.stream[$context.stream_index + 2] as u32) << 8;
        $into |= $context.stream[$context.stream_index + 3] as u32;

        bs_jump!($context, 4);
""", """        $into |= $context.stream[$context.stream_index..$context.stream_index + 4]
                     .iter()
                     .fold(0u32, |value, byte| (value << 8) + u32::from(*byte));

        bs_jump!($context, 4);
""")
    r('h2-get-u8', H2, """        bs_jump!($context, 1);

        $context.stream[$context.stream_index - 1]
""", """        let byte = $context.stream[$context.stream_index];

        bs_jump!($context, 1);

        byte
""")
    r('h2-get-u8-next', H2, """        bs_jump!($context, 1);

        $context.stream[$context.stream_index - 1]
""", """        bs_next!($context);

        $context.byte
""")
    r('h2-format-locals', H2, """        if handler.on_frame_format(
            payload_length!(self),
            (self.bit_data32a & 0xFF) as u8,
            self.bit_data16a as u8,
            self.bit_data32b & 0x7FFFFFFF
        ) {
            self.bit_data16a  = 0;
            self.bit_data32a &= 0xFFFFFF00;
            self.bit_data32b  = 0;

            transition!(self, context);
        } else {
            self.bit_data16a  = 0;
            self.bit_data32a &= 0xFFFFFF00;
            self.bit_data32b  = 0;

            exit_callback!(self, context);
        }
""", """        let (length, kind) = (self.bit_data32a >> 8, self.bit_data32a as u8);
        let flags = self.bit_data16a as u8;
        let stream_id = self.bit_data32b << 1 >> 1;

        self.bit_data16a = 0;
        self.bit_data32a = length << 8;
        self.bit_data32b = 0;

        if !handler.on_frame_format(length, kind, flags, stream_id) {
            exit_callback!(self, context);
        }

        transition!(self, context);
""")
    r('h2-kind-early', H2, """                if has_flag!(self, FL_PADDED) {
                    if has_flag!(self, FL_PRIORITY) {
                        set_state!(
                            self,
                            HeadersPadLengthWithPriority,
                            headers_pad_length_with_priority
                        );
                    } else {
                        set_state!(
                            self,
                            HeadersPadLengthWithoutPriority,
                            headers_pad_length_without_priority
                        );
                    }
                } else if has_flag!(self, FL_PRIORITY) {
                    set_state!(self, HeadersStreamId1, headers_stream_id1);
                } else {
                    set_state!(self, HeadersCallback, headers_callback);
                }
""", """                match (has_flag!(self, FL_PADDED), has_flag!(self, FL_PRIORITY)) {
                    (true, true) => set_state!(self, HeadersPadLengthWithPriority, headers_pad_length_with_priority),
                    (true, false) => set_state!(self, HeadersPadLengthWithoutPriority, headers_pad_length_without_priority),
                    (false, true) => set_state!(self, HeadersStreamId1, headers_stream_id1),
                    (false, false) => set_state!(self, HeadersCallback, headers_callback)
                }
""")
    r('h2-byte-by-byte', H2, """        if bs_available!(context) >= 4 {
            // read entire stream id
            read_u32!(context, self.bit_data32b);

            transition!(
                self,
                context,
                FrameFormatEnd,
                frame_format_end
            );
        }

""", "")
    r('h2-length-fn', H2, """    /// Reset bit data.
""", """    /// Remove some bytes from the payload length.
    fn consume_payload(&mut self, length: u32) -> Result<(), ParserError> {
        match payload_length!(self).checked_sub(length) {
            Some(rest) => {
                self.bit_data32a = rest << 8 | pad_length!(self);

                Ok(())
            },
            None => Err(ParserError::Dead)
        }
    }

    /// Reset bit data.
""", SIG % ('data_pad_length', '_handler') + """        exit_if_eos!(self, context);

        self.bit_data32a |= get_u8!(context) as u32;

        dec_payload_length!(self, 1);
""", SIG % ('data_pad_length', '_handler') + """        exit_if_eos!(self, context);

        self.bit_data32a |= get_u8!(context) as u32;

        self.consume_payload(1)?;
""")
    # ---- util
    r('query-hex-helper', CO, """macro_rules! collect_hex8_iter {
    ($iter:expr, $context:expr, $error:expr) => ({
        bs_next!($context);

        (
            if is_digit!($context.byte) {
                ($context.byte - b'0') << 4
            } else if b'@' < $context.byte && $context.byte < b'G' {
                ($context.byte - 0x37) << 4
            } else if b'`' < $context.byte && $context.byte < b'g' {
                ($context.byte - 0x57) << 4
            } else {
                submit_error!($iter, $error);
            } as u8
        )
        +
        {
            bs_next!($context);

            (
                if is_digit!($context.byte) {
                    $context.byte - b'0'
                } else if b'@' < $context.byte && $context.byte < b'G' {
                    $context.byte - 0x37
                } else if b'`' < $context.byte && $context.byte < b'g' {
                    $context.byte - 0x57
                } else {
                    submit_error!($iter, $error);
                } as u8
            )
        }
    });
}
""", """macro_rules! collect_hex8_iter {
    ($iter:expr, $context:expr, $error:expr) => ({
        let mut value = 0u8;

        for _ in 0..2 {
            bs_next!($context);

            value = value << 4 | match ($context.byte as char).to_digit(16) {
                Some(digit) => digit as u8,
                None => {
                    submit_error!($iter, $error);
                }
            };
        }

        value
    });
}
""")
    r('decode-match', DE, """        if context.byte == b'+' {
            submit!(decoded, b" ");
        } else if context.byte == b'%' {
            if bs_has_bytes!(context, 2) {
                submit!(decoded, &[
                    collect_hex8!(context, DecodeError::HexSequence)
                ]);
            } else {
                if bs_has_bytes!(context, 1) {
                    bs_next!(context);
                }

                return Err(DecodeError::HexSequence(context.byte));
            }
        } else {
            return Err(DecodeError::Byte(context.byte));
        }
""", """        match context.byte {
            b'+' => decoded.push(b' '),
            b'%' if bs_available!(context) >= 2 => {
                let byte = collect_hex8!(context, DecodeError::HexSequence);

                decoded.push(byte);
            },
            b'%' => {
                let last = *encoded.last().unwrap();

                return Err(DecodeError::HexSequence(last));
            },
            byte => return Err(DecodeError::Byte(byte))
        }
""")
    r('decode-capacity', DE, """    let mut decoded = Vec::new();
""", """    let mut decoded = Vec::with_capacity(encoded.len());
""", """                return Ok(String::from_utf8_lossy(&decoded).into_owned());
""", """                return Ok(match String::from_utf8(decoded) {
                    Ok(string) => string,
                    Err(error) => String::from_utf8_lossy(error.as_bytes()).into_owned()
                });
""")
    r('decode-question', DE, """                submit!(decoded, &[
                    collect_hex8!(context, DecodeError::HexSequence)
                ]);
""", """                let high = hex_value(encoded[context.stream_index])?;

                context.byte = encoded[context.stream_index];

                let low = hex_value(encoded[context.stream_index + 1])?;

                context.byte = encoded[context.stream_index + 1];
                context.stream_index += 2;

                submit!(decoded, &[high << 4 | low]);
""", """/// Decode URL encoded data.
///
/// # Arg""", """fn hex_value(byte: u8) -> Result<u8, DecodeError> {
    match byte {
        b'0'...b'9' => Ok(byte - b'0'),
        b'A'...b'F' => Ok(byte - b'A' + 10),
        b'a'...b'f' => Ok(byte - b'a' + 10),
        _ => Err(DecodeError::HexSequence(byte))
    }
}

/// Decode URL encoded data.
///
/// # Arg""")
    r('query-if-chain', QU, """                    b'+' => {
                        self.value.push(b' ');
                    },
                      b'&'
                    | b';' => {
                        // name with a value
                        submit_name_value!(self);
                    },
                    _ => {
                        bs_jump!(self.context, bs_available!(self.context));

                        (*self.on_error)(QueryError::Value(self.context.byte));

                        return None;
                    }
""", """                    byte if byte == b'+' => self.value.extend(&[b' ']),
                    byte if byte == b'&' || byte == b';' => {
                        submit_name_value!(self);
                    },
                    _ => {
                        self.context.stream_index = self.context.stream.len();

                        (self.on_error)(QueryError::Value(self.context.byte));

                        return None;
                    }
""")
    r('field-lower', FI, """                    self.name.push(self.context.byte + 0x20);
""", """                    self.name.push(self.context.byte.to_ascii_lowercase());
""", """                    // this isn't allowed as a token, but since it's a name-only field, it's allowed
                    self.name.push(b'/');
""", """                    // this isn't allowed as a token, but since it's a name-only field, it's allowed
                    let slash = self.context.byte;

                    self.name.extend_from_slice(&[slash]);
""")
    r('field-escape-helper', FI, """                                // found backslash
                                if bs_is_eos!(self.context) {
                                    submit_error!(self, FieldError::Value);
                                }

                                self.value.extend_from_slice(bs_slice_ignore!(self.context));

                                bs_next!(self.context);

                                self.value.push(self.context.byte);
""", """                                // found backslash
                                self.value.extend_from_slice(bs_slice_ignore!(self.context));

                                if bs_available!(self.context) > 0 {
                                    bs_next!(self.context);

                                    let byte = self.context.byte;

                                    self.value.push(byte);
                                } else {
                                    submit_error!(self, FieldError::Value);
                                }
""")
