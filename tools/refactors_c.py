"""Loops rewritten: bytes are looked at before the stream index moves (see refactors.py)."""
H1, H2 = 'src/http1/parser.rs', 'src/http2/parser.rs'
CO, BY, FS = 'src/collect.rs', 'src/byte.rs', 'src/fsm.rs'
QU, FI, DE = 'src/util/query.rs', 'src/util/field.rs', 'src/util/decode.rs'
VIS = """    ($context:expr, $on_eos:expr) => ({
        bs_collect!($context,
            if is_not_visible_7bit!($context.byte) {
                break;
            },
            $on_eos
        );
    });
"""
METHOD = """        bs_collect!(
            context,

            // break when non-upper-case is found
            if context.byte < 0x41 || context.byte > 0x5A {
                break;
            },

            // on end-of-stream
            callback_eos_expr!(self, handler, context, on_method)
        );
"""
DATA = """        bs_collect_until!(
            context,

            // collect bytes until
            context.byte == b'\\r',

            // on end-of-stream
            callback_eos_expr!(self, handler, context, on_multipart_data)
        );
"""


def add(r):
    r('c-visible-get', CO, VIS, """    ($context:expr, $on_eos:expr) => ({
        let mut i = $context.stream_index;

        loop {
            match $context.stream.get(i) {
                Some(&byte) => {
                    i += 1;

                    if is_not_visible_7bit!(byte) {
                        $context.byte         = byte;
                        $context.stream_index = i;

                        break;
                    }
                },
                None => {
                    $context.stream_index = i;

                    $on_eos
                }
            }
        }
    });
""")
    r('c-method-enumerate', H1, METHOD, """        let mut found = None;

        for (i, byte) in context.stream[context.stream_index..].iter().enumerate() {
            if *byte < b'A' || *byte > b'Z' {
                found = Some((i, *byte));
                break;
            }
        }

        match found {
            Some((i, byte)) => {
                context.byte = byte;
                bs_jump!(context, i + 1);
            },
            None => {
                bs_jump!(context, bs_available!(context));
                callback_eos_expr!(self, handler, context, on_method);
            }
        }
""")
    r('c-method-takewhile', H1, METHOD, """        let n = context.stream[context.stream_index..].iter()
                                                      .take_while(|b| **b >= b'A' && **b <= b'Z')
                                                      .count();

        bs_jump!(context, n);

        bs_available!(context) > 0 || callback_eos_expr!(self, handler, context, on_method);
        bs_next!(context);
""")
    r('c-method-index', H1, METHOD, """        let mut end = context.stream_index;

        while end < context.stream.len() && context.stream[end] >= b'A' && context.stream[end] <= b'Z' {
            end += 1;
        }

        context.stream_index = end;

        if end == context.stream.len() {
            callback_eos_expr!(self, handler, context, on_method);
        }

        bs_next!(context);
""")
    r('c-data-position', H1, DATA, """        match context.stream[context.stream_index..].iter().position(|byte| *byte == b'\\r') {
            Some(i) => {
                context.byte = b'\\r';
                bs_jump!(context, i + 1);
            },
            None => {
                context.stream_index = context.stream.len();

                callback_eos_expr!(self, handler, context, on_multipart_data)
            }
        }
""")
    r('c-data-for', H1, DATA, """        let mut end = context.stream.len();

        for i in context.stream_index..context.stream.len() {
            if context.stream[i] == b'\\r' {
                end = i;
                break;
            }
        }

        bs_jump!(context, end - context.stream_index);

        if bs_is_eos!(context) {
            callback_eos_expr!(self, handler, context, on_multipart_data)
        }

        bs_next!(context);
""")
    r('c-strip-while', H1, """        bs_available!(context) > 0 || exit_eos!(self, context);
        bs_next!(context);

        if context.byte == b'\\r' || context.byte == b'\\n'
        || context.byte == b'\\t' || context.byte == b' ' {
            loop {
                bs_available!(context) > 0 || exit_eos!(self, context);

                bs_next!(context);

                if context.byte == b'\\r' || context.byte == b'\\n'
                || context.byte == b'\\t' || context.byte == b' ' {
                    continue;
                }

                break;
            }
        }

        bs_replay!(context);
""", """        while bs_available!(context) > 0 {
            match context.stream[context.stream_index] {
                b'\\r' | b'\\n' | b'\\t' | b' ' => bs_jump!(context, 1),
                _ => break
            }
        }

        bs_available!(context) > 0 || exit_eos!(self, context);
""")
    r('c-collect-fn', CO, """    ($context:expr, $on_eos:expr) => ({
        bs_collect!($context,
            if !is_token($context.byte) {
                break;
            },
            $on_eos
        );
    });
""", """    ($context:expr, $on_eos:expr) => ({
        let rest = &$context.stream[$context.stream_index..];

        if let Some(i) = rest.iter().position(|byte| !is_token(*byte)) {
            $context.byte          = rest[i];
            $context.stream_index += i + 1;
        } else {
            $context.stream_index += rest.len();

            $on_eos
        }
    });
""")
    r('c-all', H1, """            unsafe {
                if bs_starts_with9!(context, b"HTTP/1.1\\r") {""", """            unsafe {
                if context.stream[context.stream_index..].iter().zip(b"HTTP/1.1\\r".iter()).all(|(a, b)| a == b) {""")
    r('c-field-any', CO, """    ($context:expr, $on_eos:expr) => ({
        bs_collect!($context,
            if !is_header_field($context.byte) {
                break;
            },
            $on_eos
        );
    });
""", """    ($context:expr, $on_eos:expr) => ({
        loop {
            if bs_available!($context) == 0 {
                $on_eos
            }

            let byte = $context.stream[$context.stream_index];

            $context.stream_index += 1;

            if is_header_field(byte) {
                continue;
            }

            $context.byte = byte;

            break;
        }
    });
""")
    r('c-url-name-scan', H1, """        collect_visible_7bit!(
            context,

            // stop on these bytes
               context.byte == b'%'
            || context.byte == b'+'
            || context.byte == b'='
            || context.byte == b'&'
            || context.byte == b';',

            // on end-of-stream
            callback_eos_expr!(self, handler, context, on_url_encoded_name)
        );
""", """        let mut length = 0;

        loop {
            if length == bs_available!(context) {
                bs_jump!(context, length);

                callback_eos_expr!(self, handler, context, on_url_encoded_name)
            }

            let byte = context.stream[context.stream_index + length];

            if is_not_visible_7bit!(byte) || b"%+=&;".contains(&byte) {
                break;
            }

            length += 1;
        }

        bs_jump!(context, length);
        bs_next!(context);
""")
