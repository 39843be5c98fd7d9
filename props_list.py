T_FIX = 'The existing tests replay fixed recorded streams; '
prop('C01', 'Request parsing is total: no crash, hang or over-consumption',
 'For every byte sequence offered as request data, in whatever chunks, with or without a following close, parsing returns normally (no panic, no out-of-bounds access, no arithmetic overflow, no unbounded loop). Each call reports a stream state, never reports more bytes consumed than it was given, reports DATA only when the whole chunk was consumed and DATA_OTHER only when some of it was not.',
 ['inputs', 'configurations', 'histories'], 'all request byte strings around every protocol element, all two-chunk deliveries, server personalities',
 T_FIX + 'one input per file, never all byte values at a position.',
 ['src/request.rs', 'src/connection_parser.rs', 'src/headers.rs', 'src/parsers.rs', 'src/util.rs', 'src/uri.rs', 'src/urlencoded.rs'],
 [('request state machine', 'src/request.rs'), ('request_data status contract', 'src/connection_parser.rs')],
 'request templates with 2-6 unconstrained symbolic bytes at each protocol element (line, URI, protocol, headers, folding, C-L, T-E, chunk size/data, trailers, auth, host, multi-chunk), personalities MINIMAL/IDS/IIS/APACHE; besides, every path of the checks of the other properties that deliver request data counts: all cuts, gaps, limits, failing callbacks, compressed bodies, up to 300 transactions and lines and bodies of tens of kilobytes.',
 'longer symbolic regions.', only='request',
 also='c03_.*|c05_.*|c07_.*|c08_.*|c09_(?!res|default_s|endless_res|body_res|chunk_res).*|c10_(?!res).*|c11_.*req.*|c12_.*|c14_.*|c15_.*|c16_.*|c17_.*|c18_.*|c19_.*|c20_.*|c22_.*|c23_.*|c24_.*|c27_.*|c28_.*|c29_.*|c30_.*|c31_.*|c32_.*|c33_.*')
prop('C02', 'Response parsing is total: no crash, hang or over-consumption',
 'For every byte sequence offered as response data, in whatever chunks, with or without a matching request or a following close, parsing returns normally (no panic, no out-of-bounds access, no arithmetic overflow, no unbounded loop). Each call reports a stream state, never reports more bytes consumed than it was given, reports DATA only when the whole chunk was consumed and DATA_OTHER only when some of it was not.',
 ['inputs', 'configurations', 'histories'], 'all response byte strings around every protocol element, including compressed bodies, all two-chunk deliveries',
 T_FIX + 'one input per file, never all byte values at a position.',
 ['src/response.rs', 'src/connection_parser.rs', 'src/headers.rs', 'src/decompressors.rs'],
 [('response state machine', 'src/response.rs'), ('response_data status contract', 'src/connection_parser.rs')],
 'response templates with 2-6 unconstrained symbolic bytes at each protocol element (line, status, headers, folding, C-L, T-E, chunk size/data, trailers, close-delimited, 100-continue, unmatched responses, gzip/deflate/lzma bodies); besides, every path of the checks of the other properties that deliver response data counts: all cuts, gaps, limits, failing callbacks, compressed bodies, up to 300 transactions and lines and bodies of tens of kilobytes.',
 'longer symbolic regions.', only='response',
 also='c04_.*|c06_.*|c07_.*|c08_.*|c09_(?!req|default_q|endless_req|endless_after_req|body_req|chunk_req).*|c10_res.*|c11_.*res.*|c13_.*|c18_(cl|ch|st|proto).*|c23_.*|c24_.*|c25_(?!large|bombd).*|c27_.*|c28_.*|c29_.*|c30_.*|c31_.*|c32_.*|c33_.*')
prop('C03', 'Request results do not depend on how the stream is cut',
 'For a stream of well-formed requests (CRLF or LF line ends, at least one header), delivering it in one call, in two calls cut at any position, or one byte per call yields the same transactions: the same request line, method, URI, parsed URI, protocol, headers, body bytes, trailers, lengths, flags, raw header/trailer bytes, stream status and the same sequence of hook calls (only the flag saying that the head arrived in several packets may differ).',
 ['inputs', 'histories'], 'all cut positions and byte-by-byte delivery of the stream templates, with symbolic URI, header-value, body and chunk-size bytes',
 T_FIX + 'only a few files are cut, at fixed positions.',
 ['src/request.rs', 'src/connection_parser.rs', 'src/headers.rs'],
 [('request_buf / request_header buffering', 'src/request.rs'), ('request_data_consume', 'src/request.rs')],
 '12 stream templates (plain, LF, folded, repeated headers, C-L body, pipelined, chunked with extension and trailer, CONNECT, absolute URI with auth); symbolic bytes: 1 URI byte, 2-3 header-value bytes, 2-3 body bytes, 1 chunk-size digit; every cut position, byte-by-byte, three pieces of the shorter ones, pieces of any equal size; three pipelined transactions; bodies of up to 20 kB.',
 'malformed line endings, HTTP/0.9, other cuts into three and more pieces.')
prop('C04', 'Response results do not depend on how the stream is cut',
 'For a stream of well-formed responses (CRLF or LF line ends, at least one header) to well-formed requests, delivering it in one call, in two calls cut at any position, or one byte per call yields the same transactions: the same status line fields, headers, body bytes, trailers, lengths, flags, raw header/trailer bytes, stream status and the same sequence of hook calls (only the flag saying that the head arrived in several packets may differ).',
 ['inputs', 'histories'], 'all cut positions and byte-by-byte delivery of the stream templates, with symbolic status-line, header-value, body and chunk-size bytes',
 T_FIX + 'only a few files are cut, at fixed positions.',
 ['src/response.rs', 'src/connection_parser.rs', 'src/headers.rs'],
 [('response_buf / response_header buffering', 'src/response.rs'), ('response_data_consume', 'src/response.rs')],
 '12 stream templates (plain, LF, folded, C-L body, pipelined, chunked with extension and trailer, close-delimited, 204/304, 100-continue, HEAD); symbolic bytes: 3 status-line bytes, 2-3 header-value bytes, 2-3 body bytes, 1 chunk-size digit; every cut position, byte-by-byte, three pieces of the shorter ones, pieces of any equal size; three pipelined transactions; bodies of up to 20 kB.',
 'malformed line endings, header-less heads, other cuts into three and more pieces.')
prop('C05', 'Request bodies are delivered exactly',
 'For every well-formed request with a Content-Length body or a chunked body (any legal chunk sizes, extensions, hex case, trailers, CRLF or LF), in any two-chunk delivery, the body-data callbacks deliver exactly the body bytes, in order, without framing bytes; message and entity lengths equal what was received; the next request starts right after the body; a request whose body is not complete is not reported complete and has delivered exactly the bytes received so far; Content-Length 0 or no body headers means no body.',
 ['inputs', 'histories'], 'all body bytes, chunk-size spellings, Content-Length spellings and cut positions of the templates',
 T_FIX + 'a framing error shows only for particular sizes, spellings and cuts.',
 ['src/request.rs', 'src/headers.rs', 'src/util.rs'],
 [('chunked and identity body states', 'src/request.rs'), ('chunked length parser', 'src/util.rs')],
 'body 0-12 symbolic bytes, 1-3 chunks, symbolic chunk-size digits, one symbolic cut position (two in small bodies), declared lengths up to i64 range for incomplete bodies, bodies and chunks of up to 30 kB with symbolic bytes at their ends, three requests in a row.',
 'more chunks with symbolic sizes, three or more cuts.')
prop('C06', 'Response bodies are framed and delivered exactly',
 'For every response to a request that is not CONNECT, the body length rule follows HTTP: HEAD, 1xx, 204 and 304 without body headers have no body; chunked coding wins over Content-Length (and is flagged); Content-Length delivers exactly that many bytes; otherwise the body lasts to the close (as does everything sent in answer to an HTTP/0.9 request, which has neither response line nor headers). 100 Continue responses are interim and the final response follows. The body-data callbacks deliver exactly the body bytes, lengths match, the next response starts right after, and an incomplete body is not reported complete.',
 ['inputs', 'histories'], 'all status codes (symbolic digits), body bytes, length spellings and cut positions of the templates',
 T_FIX + 'the status-code/method/header combinations and byte values are sampled only.',
 ['src/response.rs', 'src/util.rs', 'src/headers.rs'],
 [('response body determination', 'src/response.rs'), ('identity/chunked body states', 'src/response.rs')],
 'three symbolic status bytes (numbers or not), all methods, HTTP/0.9 requests, body 0-12 symbolic bytes, 1-3 chunks, symbolic chunk-size digits, one symbolic cut (two in small bodies), bodies and chunks of up to 30 kB with symbolic bytes at their ends, three responses in a row.',
 'compressed bodies (C25), more chunks with symbolic sizes, three or more cuts, multipart/byteranges.')
prop('C07', 'Callbacks follow the message life cycle',
 'For every interleaving of request and response data, the callbacks for one transaction occur in life-cycle order: request start, line, headers, body data, trailer, complete; response start, line, headers, body data, trailer, complete; each start/line/headers/complete callback at most once per message (a 100 Continue response repeats response line/headers), request progress and response progress never go backwards, and transaction_complete is reported exactly once, after both request_complete and response_complete, for every transaction both of whose sides completed.',
 ['inputs', 'schedules', 'histories'], 'all interleavings of two request/response exchanges cut into two pieces each, and all values of symbolic bytes in the line, header, length, chunk and trailing positions',
 T_FIX + 'one interleaving per file and well-behaved inputs.',
 ['src/connection_parser.rs', 'src/request.rs', 'src/response.rs', 'src/hook.rs'],
 [('state_request_* / state_response_*', 'src/connection_parser.rs'), ('finalization and completion', 'src/response.rs')],
 'two or three pipelined transactions, one cut in each direction, every order; 2-4 symbolic bytes per template; CONNECT accepted/refused, 100-continue, early response.',
 'second response before the second request is seen (recorded finding h_c07_unmatched), more than three transactions.',
 shards={'h_c07_100': 8, 'h_c07_il': 8, 'h_c07_ilc': 8})
prop('C08', 'STOP, ERROR and DECLINED verdicts are obeyed',
 'When a start/line/headers/trailer/body-data/complete callback returns STOP or ERROR, the data call in which it ran reports STOP or ERROR respectively, and every later data call on that side reports the same, consumes nothing and runs no callback; a stream in which the parser itself reported ERROR stays in ERROR for any further data and across close. All this holds for compressed bodies as well. A callback returning DECLINED is equivalent to one returning OK. (Raw header/trailer-data callbacks and the empty end-of-body notification are outside.)',
 ['inputs', 'faults', 'histories'], 'every callback failing with STOP or ERROR, every cut position of the stream, and all two-byte continuations',
 T_FIX + 'no test fails every callback at every cut position.',
 ['src/connection_parser.rs', 'src/hook.rs', 'src/request.rs', 'src/response.rs'],
 [('hook run_all', 'src/hook.rs'), ('request_data/response_data status handling', 'src/connection_parser.rs')],
 'chunked, Content-Length and compressed exchanges followed by others; failing callback, verdict and which of its calls fails symbolic; one symbolic cut; 2-3 symbolic bytes.',
 'raw header/trailer data callbacks, the empty end-of-body notification.')
prop('C15', 'URL decoding follows the configured decoder exactly',
 'For every byte string and every decoder configuration (%u decoding on/off, invalid-encoding handling PRESERVE/REMOVE/PROCESS, encoded and raw NUL terminating or not, plus-to-space, backslash conversion, lowercasing, separator compression and decoding, expected-status settings), decoding a query value, a parameter or a path yields exactly the bytes a straightforward reference decoder yields, raises exactly the flags the input deserves (invalid encoding, encoded/raw NUL, overlong %u, half/full width, encoded separator), reports the expected response status of the last offending byte (later innocent bytes or parameters do not erase it), and never panics.',
 ['inputs', 'configurations'], 'all byte strings within the bound and all combinations of the decoder switches',
 'The unit tests pin a few dozen strings under one configuration each; the decoder has 3 x 2^7 switch combinations and misbehaves only on particular bytes.',
 ['src/urlencoded.rs', 'src/config.rs'],
 [('decode_uri / decode_percent', 'src/urlencoded.rs'), ('path_decode_uri / path_decode_percent', 'src/urlencoded.rs')],
 'inputs of 3 fully symbolic bytes and templates "%xx", "%xx%xx", "%uxxxx" (valid, invalid, truncated) with 1-4 symbolic bytes, every switch combination; thorough: 4 bytes and "%u"+6.',
 'longer symbolic stretches; code points outside the pages of the best-fit table.')
prop('C16', 'Path normalization decodes, converts UTF-8 and removes dot segments',
 'For every path, the normalized path is the raw path URL-decoded, then (if configured) converted from UTF-8 (invalid, overlong and half/full-width sequences flagged, invalid ones replaced), then freed of "." and ".." segments as in RFC 3986; encoded dots and separators take part once decoded. No dot segment remains, a plain path raises no flag and never grows, and a transaction reports both the untouched raw path and the normalized one, under each server personality.',
 ['inputs', 'configurations'], 'all byte strings of the bounded lengths in the path, four personalities, conversion on and off',
 'The tests pin about thirty paths; evasion works precisely through the combinations they do not contain.',
 ['src/uri.rs', 'src/utf8_decoder.rs', 'src/urlencoded.rs', 'src/transaction.rs'],
 [('normalize_uri_path_inplace', 'src/uri.rs'), ('decode_and_validate_inplace', 'src/utf8_decoder.rs'), ('normalize_parsed_uri', 'src/transaction.rs')],
 'paths of 6-7 symbolic bytes for dot segments, 2-4 symbolic bytes for UTF-8, templates with 2-3 symbolic bytes for encoded characters and for transactions; thorough: 8, 6 and 4.',
 'longer paths; code points outside the pages of the best-fit table.')
prop('C18', 'Numbers in the protocol are parsed exactly',
 'For every byte string: Content-Length parses to the first run of decimal digits after optional leading junk, or fails when there is none or it exceeds 64 bits; a chunk length parses to its hexadecimal value after leading control/space characters, is invalid beyond 2^31-1, reports an extension iff a ";" follows, and fails on anything else; a status parses only if it is a number in 100..999 surrounded by blanks; a port only if it is all digits and in 1..65535; a protocol only if it is HTTP/0.9, 1.0 or 1.1 with optional white space and leading zeros. No value is ever truncated or wrapped.',
 ['inputs'], 'all byte strings of the bounded lengths, and all values around each numeric limit',
 'The tests sample a handful of numbers; off-by-one limits and overflow show only at particular values.',
 ['src/parsers.rs', 'src/util.rs'],
 [('parse_content_length / parse_chunked_length / parse_status / parse_protocol', 'src/parsers.rs'), ('convert_port / ascii_digits / hex_digits', 'src/util.rs')],
 '4 fully symbolic bytes per parser; symbolic digits around 2^64, 2^31, 2^16; protocol with 2-4 symbolic bytes at every position; thorough: 6 bytes.',
 'longer strings.', shards={'h_c18_port5': 1, 'h_c18_port6': 1, 'h_c18_st5': 1, 'h_c18_cl_big': 1})
prop('C22', 'Urlencoded parameters are split exactly and independently of the cut',
 'For every query string or urlencoded body, the parameters are the "&"-separated non-empty segments, each split at its first "=" into name and value and then URL-decoded; non-empty data yields at least one parameter; feeding the data in any number of pieces gives the same parameters, flags and order as feeding it whole; the expected status of one parameter is not erased by a later one; a different separator or disabled decoding is honoured. The parameters of a request reach the configured parameter processor in that form and order.',
 ['inputs', 'histories'], 'all byte strings of the bounded lengths and all cut positions (up to two cuts, thorough: three)',
 'The tests feed about twenty fixed strings, each cut in one way.',
 ['src/urlencoded.rs', 'src/table.rs'],
 [('Parser::parse_partial / finalize', 'src/urlencoded.rs')],
 '3-5 symbolic bytes and templates with 2-4 symbolic bytes, one or two symbolic cuts, names and values of up to 5000 bytes; thorough: 7 bytes, three cuts.',
 'longer symbolic stretches.')
prop('C12', 'The request line is split exactly',
 'For every request line: leading white space is skipped (or kept in the method and answered with the configured status), the method is the first run of non-blank bytes and its number is that of exactly this spelling (unknown otherwise); the URI and the protocol are what remains, split at the first space - or, with allow_space_uri, the last - and, only when there is no space, at other white space, both trimmed; a line without a protocol is HTTP/0.9; the request line itself is kept unchanged; on the Apache personality a NUL ends the line. Empty lines (on IIS 5.0 also blank ones) before a request are skipped and counted.',
 ['inputs', 'configurations'], 'all byte values at every delimiter position, all 28 methods with any one byte replaced or appended',
 T_FIX + 'a handful of request lines under one configuration each.',
 ['src/request.rs', 'src/util.rs', 'src/parsers.rs'],
 [('ConnectionParser::parse_request_line', 'src/request.rs'), ('split_on_predicate / is_line_ignorable', 'src/util.rs')],
 'lines of 5 fully symbolic bytes; templates with 2-4 symbolic bytes at each delimiter, in the method, the protocol and before the line; allow_space_uri on/off; lines of up to 17 kB; thorough: 6-7 bytes.',
 'longer symbolic stretches; which odd protocol spellings count as which version (C18).')
prop('C14', 'Request URIs are split into their components and recomposed faithfully',
 'For every request URI, scheme, username, password, hostname, port, path, query and fragment are exactly the substrings RFC 3986 delimits (leniently: the scheme is whatever precedes the first colon unless the URI starts with a slash; credentials end with the first "@" inside the authority, never beyond the first "/", "?" or "#"; IPv6 literals keep their brackets; a port may be empty; an empty query does not hide the fragment), nothing is lost or invented. The normalized components are the decoded/lowercased ones, the port number is set only for 1..65535, and the complete and partial normalized URIs are the recomposition of the normalized components, decoded a second time only when configured.',
 ['inputs', 'configurations'], 'all URIs of the bounded length, and all byte values at every delimiter of an absolute URI',
 'The tests pin about twenty URIs; host/credential confusion attacks use precisely the unusual delimiter orders.',
 ['src/uri.rs', 'src/parsers.rs', 'src/transaction.rs', 'src/connection_parser.rs'],
 [('Uri::parse_uri / generate_normalized_uri', 'src/uri.rs'), ('scheme, credentials, hostname, port, path, query, fragment', 'src/parsers.rs'), ('normalize_parsed_uri', 'src/transaction.rs')],
 '7 fully symbolic bytes (also after "a:"), 2-5 symbolic bytes in templates, all 256 subsets of components for recomposition; thorough: 11 bytes.',
 'longer URIs; blanks between an empty port and the path; the port in the complete normalized URI of a transaction (not recomposed).')
prop('C19', 'Host and port of a request, and the flags that doubt them',
 'For every request: the hostname is that of the URI (or CONNECT target) in normalized form if there is one, else that of the Host header, lowercased; the port likewise, and only a number in 1..65535. A Host header that is not a valid host with an optional valid port (labels of letters, digits, "-" and "_", at most 63 bytes each, 255 in all, no empty label but a trailing dot allowed, or a bracketed IPv6 address; no trailing data; repeated headers) raises HOSTH_INVALID; an invalid URI host or port HOSTU_INVALID; a URI and a Host header that name different hosts or different ports HOST_AMBIGUOUS; an HTTP/1.1 request without Host HOST_MISSING; and none of these flags is raised otherwise.',
 ['inputs'], 'all Host values and URI authorities of the bounded length',
 'The tests contain about fifteen Host values; ambiguity evasion relies on the combinations they do not contain.',
 ['src/transaction.rs', 'src/parsers.rs', 'src/util.rs', 'src/uri.rs'],
 [('process_request_headers', 'src/transaction.rs'), ('parse_hostport', 'src/parsers.rs'), ('validate_hostname', 'src/util.rs')],
 'Host values of 5 symbolic bytes, ports of 5 symbolic digits, 3 symbolic bytes inside IPv6 literals and 1 in seven further forms of them, ports of up to 20 digits, authorities of 4 symbolic bytes, hostnames with lengths around 63 and 255; thorough: 6-9 bytes.',
 'Host values starting with "//"; longer values.')
prop('C20', 'Authorization credentials are extracted exactly',
 'When request authentication parsing is enabled, for every Authorization header: the scheme word (any case) determines the type; Basic yields the base64-decoded bytes before and after the first colon; Digest yields the quoted username with escaped quotes unescaped; Bearer yields the token; whatever cannot be decoded yields no credentials and raises AUTH_INVALID, valid ones do not; an unknown scheme yields no credentials; nothing in the header ever ends the stream. When disabled nothing is extracted.',
 ['inputs'], 'all encoded credentials, quoted usernames and scheme words of the bounded length',
 'The tests contain four Authorization headers.',
 ['src/parsers.rs', 'src/transaction.rs'],
 [('parse_authorization*', 'src/parsers.rs')],
 '4-8 symbolic base64 characters, any non-alphabet byte at any position, 3-5 symbolic bytes in the quoted username, 6 symbolic bytes of scheme word; thorough: 12, 8, 8.',
 'longer headers; NUL bytes in the value (header parsing cuts them).')
prop('C09', 'The field limit bounds what is buffered, and refuses nothing below it',
 'For every field limit L and every cut of the data: a request line or response line is refused (the stream ends in error and stays ended) iff it is longer than L; an unfinished header, trailer or chunk-length line is refused iff more than L bytes of it would have to be buffered; a line that never ends is refused as soon as its unfinished part exceeds L, whatever the size of the pieces it comes in; nothing shorter is ever refused, however it is cut; bodies are not subject to the limit.',
 ['inputs', 'histories', 'configurations'], 'all limits one below to two above the length of the line, all cut positions, pieces of one to six bytes',
 'The tests set the limit once, with one line delivered in one way.',
 ['src/request.rs', 'src/response.rs', 'src/config.rs'],
 [('check_request_buffer_limit / handle_request_absent_lf / request_headers', 'src/request.rs'), ('check_response_buffer_limit / handle_response_absent_lf / response_headers', 'src/response.rs')],
 'lines of 16-40 bytes with 2-3 symbolic bytes, limits 16-43, and lines around the default limit of 18000; thorough: up to 20 symbolic bytes.',
 'limits in between; the memory held by completed headers.')
prop('C10', 'Bodies are framed by the right header, and ambiguous framing is flagged',
 'For every request: a Transfer-Encoding that contains "chunked" (any case, NUL bytes ignored) makes the body chunked, any other Transfer-Encoding makes the request invalid and ends the stream; else Content-Length gives the length, or makes the request invalid when it holds no number; else there is no body. REQUEST_SMUGGLING is raised iff chunked is used before HTTP/1.1 (or with a protocol that cannot be parsed), or together with Content-Length, or Content-Length is repeated or folded; REQUEST_INVALID_T_E, REQUEST_INVALID_C_L and REQUEST_INVALID exactly in the cases they name. Only headers whose name is exactly Transfer-Encoding / Content-Length (any case, NULs ignored) count. For every response likewise, except that an unknown Transfer-Encoding is ignored, and multipart/byteranges without a length ends the stream.',
 ['inputs'], 'all values of the bounded length, any byte inserted in or replacing one of the words "chunked", "Transfer-Encoding", "Content-Length", "multipart/byteranges"',
 'Smuggling works through the odd spellings; ' + T_FIX[0].lower() + T_FIX[1:] + 'about ten of them.',
 ['src/transaction.rs', 'src/response.rs', 'src/parsers.rs', 'src/bstr.rs'],
 [('process_request_headers', 'src/transaction.rs'), ('response_body_determine', 'src/response.rs'), ('parse_content_length', 'src/parsers.rs'), ('index_of_nocase_nozero', 'src/bstr.rs')],
 '1-2 symbolic bytes at every position of "chunked", 3-byte symbolic Content-Length, one symbolic byte at every position of the names, two in the protocol; thorough: 2-5 bytes.',
 'longer values; which of several Content-Length values a given server would use.')
prop('C11', 'Header blocks are split into exactly the fields they contain',
 'For every header block of a request or a response: each line gives one field, whose name is what precedes the first colon and whose value what follows it, both without surrounding white space; a line starting with white space continues the field before it (on the response side unless it reads as a field of its own); a line without a colon is a field without a name; fields keep their order, fields of the same name (in any case) are joined with ", " and marked repeated, except that the first Content-Length is kept; after 64 repetitions only the surplus is dropped. A field is flagged FIELD_INVALID, FIELD_UNPARSEABLE, INVALID_FOLDING or FIELD_FOLDED exactly when its name is empty / not a token / followed by white space, its colon is missing, its name is preceded by white space, or it spans lines; the transaction carries the flags of its fields. Every field can be looked up by its name in any case.',
 ['inputs'], 'all header blocks of the bounded length over all bytes but CR and NUL, and all byte values at the delimiters of a block of several lines',
 T_FIX + 'about thirty header blocks.',
 ['src/headers.rs', 'src/request.rs', 'src/response.rs', 'src/transaction.rs'],
 [('Parser::headers', 'src/headers.rs'), ('parse_request_headers / process_request_header', 'src/request.rs'), ('parse_response_headers / process_response_header', 'src/response.rs'), ('Headers::get_nocase', 'src/transaction.rs')],
 'blocks of 4-5 fully symbolic bytes (which may form several lines), templates of 2-3 lines with 2-4 symbolic bytes, line endings CRLF and LF, 90 fields for the repetition limit, 70 continuation lines; thorough: 7 symbolic bytes.',
 'stray CR, NUL and LFCR line endings; continuation lines that are blank or precede any colon.')
prop('C13', 'The response line is split exactly, and what is not one is body',
 'For every response line: after optional white space and NULs, a line that starts with "http" in any case gives the protocol (up to white space), the status (the next word) and the message (the rest, without line ending); the status number is the decimal value if in 100..999, else invalid; STATUS_LINE_INVALID is raised iff the protocol or the status is invalid; the line itself is kept. Any other line is delivered unchanged as response body and nothing is parsed from it. Empty lines before the response line are skipped and counted, and an interim response leaves nothing behind in the final one.',
 ['inputs'], 'all lines of the bounded length, all byte values at every delimiter',
 T_FIX + 'a handful of response lines.',
 ['src/response.rs', 'src/util.rs', 'src/parsers.rs'],
 [('parse_response_line / response_line_complete', 'src/response.rs'), ('treat_response_line_as_body', 'src/util.rs'), ('validate_response_line', 'src/transaction.rs')],
 '5 fully symbolic bytes, templates with 2-4 symbolic bytes in each part of the line, lines of up to 17 kB, lines after interim responses; thorough: 4-7.',
 'longer symbolic stretches; vertical tabs before the message; CR-only line endings.')
prop('C21', 'Byte strings and tables compare, search and look up as documented',
 'For all byte strings: Bstr comparisons are the byte order, of the lowercased strings for the _nocase ones, ignoring NULs of the left side for the _nozero ones and its surrounding white space for the _trimmed ones; index_of_nocase* gives the first occurrence, also after partial matches, or none; starts_with* compares the prefix; add appends everything, add_noex what fits without growing; split gives the parts between separators. Tables and header lists keep insertion order, and lookups give the first entry with that key whatever its case, or none.',
 ['inputs'], 'all byte strings of the bounded lengths on both sides',
 'The tests compare about twenty fixed strings.',
 ['src/bstr.rs', 'src/table.rs', 'src/transaction.rs'],
 [('Bstr', 'src/bstr.rs'), ('Table::get_nocase', 'src/table.rs'), ('Headers::get_nocase*', 'src/transaction.rs')],
 '2-5 symbolic bytes on either side, haystacks of 6 bytes over the needle\'s letters; thorough: 5-8.',
 'longer strings; Unicode white space when trimming.')
prop('C23', 'Responses are paired with requests in order, and transactions are kept, freed and reported as configured',
 'For every sequence of requests and responses, however interleaved: the n-th response is attributed to the n-th request; a response that arrives before its request is complete still ends that transaction exactly once; tx(i) gives transaction i from its start until it is removed (or, with auto-destroy, until it is complete) and none afterwards; a removed transaction never affects the others; more than the configured number of live transactions ends the stream in error and a lower number never does; when the connection closes, each started and unfinished transaction is reported complete exactly once, iff flush_incomplete is set, and no finished one is reported again.',
 ['inputs', 'histories', 'configurations'], 'all interleavings of up to three requests and responses, all close points of a request and of a response, all limits near the number of requests',
 'The tests contain a handful of orders; the cut and close points in between are not sampled.',
 ['src/transactions.rs', 'src/connection_parser.rs', 'src/request.rs', 'src/response.rs', 'src/transaction.rs'],
 [('Transactions', 'src/transactions.rs'), ('flush_incomplete_transactions / remove_tx', 'src/connection_parser.rs'), ('request_next / response_next', 'src/request.rs')],
 '2-3 transactions in every interleaving of whole messages, up to 300 in order, every close position in a 50-byte exchange, limits 1-4 and 40.',
 'other orders of more transactions; interleavings inside messages beyond one cut (see C03, C04).')
prop('C24', 'CONNECT, protocol upgrades and interim responses switch the connection exactly when they should',
 'For every exchange: after CONNECT nothing the client sends is consumed or parsed before the response arrives; a 2xx response is followed by a tunnel unless the first line the client sends then is HTTP, in which case parsing goes on, whatever the pieces it comes in; any other status leaves HTTP. A 101 response without Content-Length or Transfer-Encoding opens a tunnel and no other 1xx does; h2c is noticed iff a 101 names it. In a tunnel nothing is parsed, no hook runs and no transaction appears, in either direction, for ever. Interim 100 responses are skipped, any number of them and however cut, and leave only the mark that there was one. A 4xx answer to Expect: 100-continue ends the very request it answers, and no other, iff none of its body has been sent.',
 ['inputs', 'histories'], 'all status codes of the class, all tunnel bytes of the bounded length, all cut positions',
 'A parser that misjudges where HTTP ends either misses requests or invents them; ' + T_FIX[0].lower() + T_FIX[1:] + 'six CONNECT exchanges.',
 ['src/request.rs', 'src/response.rs', 'src/transaction.rs'],
 [('request_connect_check / connect_wait_response / connect_probe_data', 'src/request.rs'), ('response_body_determine', 'src/response.rs')],
 'all 3-byte statuses (numbers or not), all methods, data sent before the answer, 2-5 symbolic tunnel or body bytes, every cut of the following request, up to two interim responses, an answer to an earlier pipelined request.',
 'longer tunnel probes; probes that begin with a method name; a 2xx answer whose tunnel never carries a line end.')
prop('C27', 'Gaps count as body where a body is expected, and are refused everywhere else',
 'For every position and length of a gap (bytes the caller could not capture): inside a body of known length, or one that lasts to the end of the stream, a gap is delivered to the body hooks as a gap of that length (at most what the body still needs), is counted in the message length, raises the missing-bytes flag of that transaction and of no other, and leaves everything else - events, framing, the next message - exactly as data of the same length would; a gap longer than the body completes it, and the surplus is refused. Anywhere else a gap is refused, reaches no hook, is never parsed as data, and a leading gap of the request stream ends it for good. After an HTTP/0.9 request gaps are ignored.',
 ['inputs', 'histories'], 'all gap positions and lengths in a six-byte body with all body bytes, all positions outside',
 'The tests deliver gaps at about six fixed places.',
 ['src/request.rs', 'src/response.rs', 'src/connection_parser.rs'],
 [('request_body_identity / request_data', 'src/request.rs'), ('response_body_identity_cl_known / response_body_identity_stream_close / response_data', 'src/response.rs'), ('ParserData', 'src/connection_parser.rs')],
 'body of 6 symbolic bytes, all gap positions and lengths and one further cut, Content-Length of two symbolic digits with a gap of 1-255 bytes, gaps of up to 2^40 bytes, every position of a chunked exchange.',
 'gaps in compressed bodies; several gaps in one body.')
prop('C28', 'The connection record tells what happened on the connection',
 'For every history of calls: the byte counters are the sum of the lengths of all chunks and gaps delivered in that direction while it had not failed or been stopped, tunnels included; PIPELINED is set iff a request was completed while an earlier one had no complete response, however the data was cut; HTTP_0_9_EXTRA is set iff data followed an HTTP/0.9 request; end points and times are those given when opening and closing, and a second open changes nothing; log entries are given once, in order, name the end points, and those of a level are exactly the entries of the full log not below that level; the log level changes nothing else.',
 ['inputs', 'histories', 'configurations'], 'all sequences of three calls of ten kinds, all interleavings of three requests and responses with every cut of a response, all end points, all log levels',
 'The tests check the counters and flags at the end of fixed streams.',
 ['src/connection.rs', 'src/connection_parser.rs', 'src/request.rs', 'src/response.rs', 'src/log.rs'],
 [('Connection', 'src/connection.rs'), ('request_next / open / close', 'src/connection_parser.rs'), ('Logger::log', 'src/log.rs')],
 'sequences of 3 deliveries (4 thorough), 3 pipelined requests (4 thorough), gaps of 1-255 bytes and of up to 2^40 bytes, 2 symbolic bytes in the logged messages.',
 'wrap-around of the counters; the text of log messages.')
prop('C25', 'Compressed bodies are delivered decompressed, whatever the chunking',
 'For every body that is a valid gzip stream (any header flags, extra field, name, comment, checksum), zlib stream, raw deflate stream or lzma stream under its Content-Encoding (gzip, x-gzip, deflate in any case; gzip, zlib and deflate also under each other\'s label), in requests (when enabled) and responses, however it is framed and cut: the body hooks receive exactly the decompressed bytes, the entity length is their number and the message length the number of bytes on the wire. Several encodings are undone last first, at most as many as the layer limit. Anything else as Content-Encoding, or decompression disabled, leaves the body unchanged. Output exceeding both the bomb limit and the bomb ratio ends the stream in error, anything less does not. One transaction\'s compression does not affect the next, the parser may be moved between calls, and no body whatsoever crashes it.',
 ['inputs', 'histories', 'configurations'], 'all payloads of the bounded length in stored and fixed-Huffman blocks, all gzip header bytes, all cut positions, all limits',
 T_FIX + 'about ten compressed bodies, in one or two pieces.',
 ['src/decompressors.rs', 'src/request.rs', 'src/response.rs', 'src/config.rs'],
 [('GzipBufWriter / InnerDecompressor / Decompressor', 'src/decompressors.rs'), ('response_initialize_decompressors / response_body_data / response_decompressor_callback', 'src/response.rs'), ('request_initialize_decompressors / request_body_data', 'src/request.rs')],
 'payloads of 1-3 symbolic bytes in stored blocks and 1 (thorough 3) in fixed-Huffman codes, all cuts in two or three pieces or chunks of 1-4 bytes, concrete dynamic-Huffman and lzma streams with all cuts, gzip extra fields, names and comments of up to 600 bytes cut in three, up to three layers on both sides, bodies of up to 30 kB, bomb limits of 16 and ratios of 64 symbolic bits (deflate and lzma), 2 (thorough 3) fully symbolic bytes for crashes; flate2, miniz_oxide and lzma-rs are executed symbolically too.',
 'the time limit (the clock is fixed at one instant); choosing the decompression from a headers callback, which the documentation mentions and the code does not offer; zlib streams with a wrong checksum; bodies that are not what any label says; symbolic dynamic-Huffman blocks.',
 shards={'h_c25_any_d': 8, 'h_c25_any_g': 8})

prop('C26', 'The C API gives exactly what the Rust API gives, and tolerates NULL',
 'For every exchange delivered through the C functions: the returned stream states, the events, bytes and verdicts seen by C callbacks (in order of registration, mixed with Rust ones or not), the number and identity of the transactions and the value of every getter (transaction, header, URI, connection, log) are those of the same exchange delivered through the Rust API; NULL with a length is a gap; absent values are NULL, 0, -1 or ERROR as documented, and so is every answer for a NULL object; no NULL object, time value, port or address crashes the parser. Each configuration setter has the effect of its Rust counterpart and no other, and a parser keeps a copy of its configuration. Strings copied to C are terminated and have NULs escaped; comparisons with C strings order like byte strings.',
 ['inputs', 'configurations', 'histories'], 'all byte values at the symbolic positions, all cuts, all events and verdicts, all setter values, NULL for every object',
 'The tests of the C API call a handful of functions with one value each.',
 ['src/c_api/connection_parser.rs', 'src/c_api/transaction.rs', 'src/c_api/config.rs', 'src/c_api/header.rs', 'src/c_api/uri.rs', 'src/c_api/bstr.rs', 'src/c_api/connection.rs', 'src/c_api/log.rs', 'src/hook.rs'],
 [('extern "C" functions', 'src/c_api'), ('Hook::run_all', 'src/hook.rs')],
 'exchanges with 4 symbolic bytes, all cuts of a chunked exchange, transactions with any field values, 18 events x 3 verdicts, 26 setters with symbolic values, gaps of 0-255 bytes, byte strings of up to 4 symbolic bytes, symbolic ports and two symbolic address bytes.',
 'settings with values other than 0 and 1 for on/off switches; the log callback (known finding: it never runs).',
 observe=['return values of the extern "C" functions and C callbacks'])

prop('C17', 'Configuration settings and server personalities mean what they document',
 'The default configuration is the documented one (limits 18000 bytes, 512 transactions, 1 MiB / ratio 2048 bombs, 2 layers; response decompression and authentication parsing on, everything optional off). For every configuration reached by earlier settings, choosing a personality sets exactly its documented decoding options and nothing else - GENERIC: backslashes are separators, encoded separators decoded, runs of separators compressed; IDS: also lowercase, UTF-8 best-fit and %u decoding; APACHE_2: only compression, 400 for invalid encodings and leading white space; IIS 5.1: as GENERIC; IIS 6.0: with %u decoding, 400 for %u and control characters; IIS 7.x: with %u decoding, 400 for invalid encodings and control characters - MINIMAL changes nothing, and IIS 4.0/5.0 are refused. Each setter changes its own setting and no other. Every request is decoded accordingly: path, parameters, method with leading white space, and expected status.',
 ['inputs', 'configurations', 'histories'], 'all pairs of personalities, all pairs of setters after each personality with all values, all path and parameter bytes of the bounded length under each personality',
 'The tests set each option once on one request; which options a personality implies is hardly tested.',
 ['src/config.rs', 'src/decompressors.rs', 'src/transaction.rs', 'src/request.rs', 'src/urlencoded.rs'],
 [('Config::default / set_server_personality / setters', 'src/config.rs'), ('Options', 'src/decompressors.rs'), ('normalize_parsed_uri / request_add_param', 'src/transaction.rs')],
 '10 x 10 personalities, 28 setters with 64-bit symbolic values in sequences of two, requests with 2-3 symbolic bytes in path or parameter under each personality.',
 'longer sequences of settings; options without a setter other than through their fields.')

prop('C29', 'Malformed framing and stray data are contained',
 'For every chunked message, however it is cut: a chunk-length line of a response that is no number makes it and everything up to the close the rest of the body, delivered exactly once, and no further response is read from it; in a request (or when the number exceeds what can be represented) it ends the stream in error for good, what came before has been delivered and nothing after it is, and the request is not reported complete. Lines behind a complete message, in the same piece of data, that begin no other message are delivered as body of that message, which completes exactly once, and the message behind them is parsed as if they were not there.',
 ['inputs', 'histories'], 'all bytes in place of the chunk length, all bytes of a stray line, all cut positions',
 T_FIX + 'about five malformed chunk lengths, cut in one way.',
 ['src/request.rs', 'src/response.rs', 'src/util.rs', 'src/parsers.rs'],
 [('request_body_chunked_length / request_finalize', 'src/request.rs'), ('response_body_chunked_length / response_finalize', 'src/response.rs'), ('is_valid_chunked_length_data', 'src/util.rs')],
 'chunk-length lines of 3 symbolic bytes (not starting like a number), with and without a chunk before; numbers above 2^31-1 (requests) and 2^64 (both); stray lines with 3 symbolic bytes behind bodies of every framing; all cuts into two pieces.',
 'message_len of malformed responses; response chunk lengths between 2^31 and 2^64 (the line is skipped); stray data that comes in a piece of its own.')
prop('C30', 'Every anomaly leaves its own log entry, and clean traffic none',
 'For every exchange the log holds exactly one entry, with the code and level that names it, for each anomaly of the request line (leading white space, unusual delimiters, unknown method, odd or missing protocol), the header fields (name followed by white space, not a token or empty, colon missing, continuation of nothing, repetition; each kind once per transaction), the lengths (junk around, duplicates that differ), chunked coding (extension, no number, odd or too old Transfer-Encoding), the response line, interim and switching responses, bodies where none belongs, refused framing of responses, gaps, misuse of the calls, unmatched responses, lines over the limit, content encodings and compression bombs - however the data is cut - and nothing else; well-formed traffic leaves no entry.',
 ['inputs', 'histories', 'configurations'], 'all bytes at the positions that make the anomaly, all pairs of header anomalies, all cuts of clean traffic',
 'The tests look for a handful of log entries; none checks that there is no other.',
 ['src/log.rs', 'src/request.rs', 'src/response.rs', 'src/transaction.rs', 'src/parsers.rs', 'src/connection_parser.rs'],
 [('htp_warn! / htp_error! call sites', 'src/request.rs'), ('htp_warn! / htp_error! call sites', 'src/response.rs'), ('Logger::log', 'src/log.rs')],
 'for each anomaly a message with 1-3 symbolic bytes; all pairs of header lines of four kinds; clean exchanges with 3 symbolic letters in every cut; field limits and bomb limits around the message.',
 'the text of the entries and their order; anomalies of the second transaction of a connection.')
prop('C31', 'Callbacks and user data belong to what they were attached to',
 'A body callback attached to one transaction, at whatever point of its life, sees exactly the body data of this transaction that comes afterwards and nothing of any other, before the common callbacks, and its verdict counts like theirs. Several callbacks for one event run in order of registration, up to and including the first that returns STOP or ERROR, whose verdict is that of the call; DECLINED does not end the run. User data set on a transaction or a parser is what is read back there, with its type, by every later callback and after the exchange, is never seen from another transaction, and outlives neither its replacement nor its owner. A parser keeps its own copy of its configuration, and two parsers share nothing.',
 ['inputs', 'histories', 'configurations'], 'all points of attachment in three transactions, all combinations of verdicts of three callbacks for each event, all values',
 'The tests register one callback per event on one parser.',
 ['src/hook.rs', 'src/transaction.rs', 'src/connection_parser.rs', 'src/request.rs', 'src/response.rs', 'src/config.rs'],
 [('Hook::run_all', 'src/hook.rs'), ('register_request_body_data / user_data', 'src/transaction.rs'), ('request_run_hook_body_data', 'src/request.rs'), ('response_run_hook_body_data', 'src/response.rs')],
 'three pipelined transactions with 2-byte symbolic bodies, Content-Length and chunked; 17 events x 4^3 verdicts; 9 points for user data with 32-bit symbolic values; two parsers with one request interleaved at every position.',
 'failing verdicts of raw header/trailer data callbacks (C08).')
prop('C32', 'The content type of a message is extracted exactly',
 'For every Content-Type header (name in any case, NULs in it ignored) of a request, the content type is its value up to the first ";", "," or space, and of a response that may have a body up to the first ";" or white space, in lower case, whatever the framing of the body; without such a header, or with an empty type in a request, there is none, and one message\'s type never shows in another.',
 ['inputs'], 'all values of the bounded length without CR, LF and NUL',
 'The tests contain two content types.',
 ['src/parsers.rs', 'src/response.rs', 'src/transaction.rs'],
 [('parse_content_type', 'src/parsers.rs'), ('response_body_determine', 'src/response.rs'), ('process_request_headers', 'src/transaction.rs')],
 'values of 3 symbolic bytes (thorough 6), also inside "Text/...; a=B"; four spellings of the name; bodies of each framing.',
 'longer values.')
prop('C33', 'A connection that closes inside a message keeps what was received of it',
 'For every message and every point inside it at which the connection closes - in the first line, the header, the body, a chunk-length line or the trailer - the transaction shows the first line and every header and trailer line that had been received completely, exactly, and at most the unfinished line besides; the body data received by then has been delivered, and nothing else; a body that lasts until the close is then complete; and nothing of it shows in another transaction.',
 ['inputs', 'histories'], 'every point of closing, every earlier cut, all bytes of the URI, reason and header values',
 'The tests close a connection after complete messages and at three points inside one.',
 ['src/connection_parser.rs', 'src/request.rs', 'src/response.rs', 'src/headers.rs'],
 [('ConnectionParser::close', 'src/connection_parser.rs'), ('request_headers', 'src/request.rs'), ('response_headers', 'src/response.rs'), ('Parser::set_complete', 'src/headers.rs')],
 'requests with Content-Length and chunked bodies, responses with Content-Length, chunked and close-delimited bodies, 2-3 headers and a trailer with 3 symbolic visible bytes; closed at every position, in one piece or cut in two at every position.',
 'what becomes of the unfinished line; messages closed in the first line; compressed bodies cut off.')
