SEEDS=[
dict(id='b08-long-body-16-bits', property='C05',
 edits=[('src/request.rs','''min(data.len(), left as usize);''','''min(data.len(), (left as usize).max(1) & 0xffff_ffff);''')],
 needs='a Content-Length whose remainder is a multiple of 2^32',
 breaks='the body of such a request is never consumed',
 demo=r'''fn main() {
    let mut p = parser(cfg());
    req(&mut p, b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 4294967296\r\n\r\nabc");
    req(&mut p, b"d");
    assert_eq!(body("req_body", 0), b"abcd");
}
'''),
dict(id='b09-limit-first-piece', property='C09',
 edits=[('src/request.rs','''        self.check_request_buffer_limit(data.len())?;
        self.request_buf.add(data.as_slice());''','''        if !self.request_buf.is_empty() {
            self.check_request_buffer_limit(data.len())?;
        }
        self.request_buf.add(data.as_slice());''')],
 needs='a single unfinished line longer than the limit in one call',
 breaks='more than the field limit is buffered',
 demo=r'''fn main() {
    let mut c = cfg();
    c.set_field_limit(100);
    let mut p = parser(c);
    assert_eq!(req(&mut p, &vec![b'G'; 200]), HtpStreamState::ERROR);
}
'''),
dict(id='b10-response-te-nul', property='C10',
 edits=[('src/response.rs','''            .get_nocase_nozero("transfer-encoding")
            .cloned();''','''            .get_nocase("transfer-encoding")
            .cloned();''')],
 needs='a Transfer-Encoding response header with a NUL in its name',
 breaks='the chunked body is framed by Content-Length or the close',
 demo=r'''fn main() {
    let mut p = parser(cfg());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 200 OK\r\nTransfer-Enc\0oding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n");
    assert_eq!(body("res_body", 0), b"abc");
}
'''),
dict(id='b11-cl-case', property='C11',
 edits=[('src/request.rs','''            if header.name.cmp_nocase("Content-Length") == Ordering::Equal {''','''            if header.name.cmp_slice("Content-Length") == Ordering::Equal {''')],
 needs='a repeated Content-Length not spelled in the usual case',
 breaks='the values are joined instead of the first being kept',
 demo=r'''fn main() {
    let mut p = parser(cfg());
    req(&mut p, b"POST / HTTP/1.1\r\nHost: a\r\ncontent-length: 0\r\ncontent-length: 0\r\n\r\n");
    assert!(p.tx(0).unwrap().request_headers.get_nocase("content-length").unwrap().value.eq_slice("0"));
}
'''),
dict(id='b14-empty-password', property='C14',
 edits=[('src/parsers.rs','''            Ok((input, (username, Some(password))))
        } else {''','''            Ok((input, (username, Some(password).filter(|p| !p.is_empty()))))
        } else {''')],
 needs='a URI with a user name and an empty password',
 breaks='the colon is lost: the URI is not recomposed as it was',
 demo=r'''fn main() {
    let mut p = parser(cfg());
    req(&mut p, b"GET http://u:@h/ HTTP/1.1\r\nHost: h\r\n\r\n");
    assert!(p.tx(0).unwrap().parsed_uri.as_ref().unwrap().password.is_some());
    assert!(p.tx(0).unwrap().complete_normalized_uri.as_ref().unwrap().eq_slice("http://u:@h/"));
}
'''),
dict(id='b16-dotdot-top', property='C16',
 edits=[('src/uri.rs','''                if !(out.len() == 1 && out[0] == b"") {
                    out.pop();''','''                if !out.is_empty() && out[out.len() - 1] != b"" {
                    out.pop();''')],
 needs='a ".." after an empty segment: "/a//../b" without separator compression',
 breaks='the segment is not removed',
 demo=r'''fn main() {
    let mut c = cfg();
    c.set_path_separators_compress(false);
    let mut p = parser(c);
    req(&mut p, b"GET /a//../b HTTP/1.1\r\nHost: h\r\n\r\n");
    assert!(p.tx(0).unwrap().complete_normalized_uri.as_ref().unwrap().eq_slice("/a/b"));
}
'''),
dict(id='b17-iis75-control', property='C17',
 edits=[('src/config.rs','''                self.set_url_encoding_invalid_unwanted(HtpUnwanted::CODE_400);
                self.set_control_chars_unwanted(HtpUnwanted::CODE_400);
                self.set_requestline_leading_whitespace_unwanted(HtpUnwanted::IGNORE);
            }
            _ =>''','''                self.set_url_encoding_invalid_unwanted(HtpUnwanted::CODE_400);
                if personality == HtpServerPersonality::IIS_7_0 {
                    self.set_control_chars_unwanted(HtpUnwanted::CODE_400);
                }
                self.set_requestline_leading_whitespace_unwanted(HtpUnwanted::IGNORE);
            }
            _ =>''')],
 needs='IIS 7.5 and a control character in the path',
 breaks='no 400 is expected',
 demo=r'''fn main() {
    let mut c = cfg();
    c.set_server_personality(HtpServerPersonality::IIS_7_5).unwrap();
    let mut p = parser(c);
    req(&mut p, b"GET /\x01 HTTP/1.1\r\nHost: h\r\n\r\n");
    assert_eq!(p.tx(0).unwrap().response_status_expected_number as i32, 400);
}
'''),
dict(id='b18-content-length-63', property='C18',
 edits=[('src/parsers.rs','''        .parse::<u64>()
        .ok()
}

/// Parses chunked''','''        .parse::<i64>()
        .ok()
        .map(|len| len as u64)
}

/// Parses chunked''')],
 needs='a Content-Length from 2^63 to 2^64-1',
 breaks='the length is taken for invalid',
 demo=r'''fn main() {
    assert_eq!(htp::parsers::parse_content_length(b"18446744073709551615", None), Some(u64::MAX));
}
'''),
dict(id='b19-label-64', property='C19',
 edits=[('src/util.rs','''        if section.len() > 63 {''','''        if section.len() > 63 + section.ends_with(b"-") as usize {''')],
 needs='a label of 64 bytes that ends with a hyphen',
 breaks='HOSTH_INVALID is not raised',
 demo=r'''fn main() {
    let mut l = vec![b'a'; 63];
    l.push(b'-');
    assert!(!htp::util::validate_hostname(&l));
}
'''),
dict(id='b20-basic-last-colon', property='C20',
 edits=[('src/parsers.rs','''    let (password, (username, _)) =
        tuple::<_, _, (&[u8], ErrorKind), _>((take_until(":"), tag(":")))(decoded.as_slice())
            .map_err(|_| HtpStatus::DECLINED)?;''','''    let colon = decoded
        .iter()
        .rposition(|&c| c == b':')
        .ok_or(HtpStatus::DECLINED)?;
    let (username, password) = (&decoded[..colon], &decoded[colon + 1..]);''')],
 needs='a password with a colon',
 breaks='part of the password is given as user name',
 demo=r'''fn main() {
    let mut p = parser(cfg());
    // u:p:q
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\nAuthorization: Basic dTpwOnE=\r\n\r\n");
    assert!(p.tx(0).unwrap().request_auth_username.as_ref().unwrap().eq_slice("u"));
}
'''),
dict(id='b22-param-truncated', property='C22',
 edits=[('src/urlencoded.rs','''    pub fn parse_partial(&mut self, data: &[u8]) {
        self.field.add(data);''','''    pub fn parse_partial(&mut self, data: &[u8]) {
        if self.field.is_empty() {
            self.field.add(data);
        } else {
            self.field.add_noex(data);
        }''')],
 needs='a parameter that goes on in a second piece for longer than the spare capacity of the buffer',
 breaks='the parameter is truncated depending on the pieces it comes in',
 demo=r'''fn main() {
    let mut p = htp::urlencoded::Parser::default();
    p.parse_partial(b"a=b");
    p.parse_partial(&vec![b'c'; 200]);
    p.parse_complete(b"");
    assert_eq!(p.params.elements[0].1.len(), 201);
}
'''),
dict(id='b24-connect-too-early', property='C24',
 edits=[('src/request.rs','''        if req.response_progress <= HtpResponseProgress::LINE {''','''        if req.response_progress < HtpResponseProgress::LINE {''')],
 needs='client data between the start of the response to CONNECT and the end of its status line',
 breaks='the client data is parsed as HTTP before the answer is known',
 demo=r'''fn main() {
    let mut p = parser(cfg());
    req(&mut p, b"CONNECT h:1 HTTP/1.1\r\nHost: h\r\n\r\n");
    res(&mut p, b"HTTP/1.1 2");
    assert_eq!(req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n"), HtpStreamState::DATA_OTHER);
    assert_eq!(p.tx_size(), 1);
}
'''),
dict(id='b26-c-status-expected', property='C26',
 edits=[('src/c_api/transaction.rs','''        .map(|tx| tx.response_message_len.try_into().ok().unwrap_or(-1))''','''        .map(|tx| i32::try_from(tx.response_message_len).map_or(-1, i64::from))''')],
 needs='a response body of 2 GiB or more',
 breaks='the C getter reports an error',
 demo=r'''fn main() {
    let mut p = parser(cfg());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 5000000000\r\n\r\n");
    p.response_data(ParserData::from(3_000_000_000usize), ts());
    let tx = p.tx(0).unwrap();
    assert_eq!(tx.response_message_len, 3_000_000_000);
    assert_eq!(unsafe { htp::c_api::transaction::htp_tx_response_message_len(tx) }, 3_000_000_000);
}
'''),
dict(id='b27-gap-whole', property='C27',
 edits=[('src/response.rs','''            let parser_data = ParserData::from(bytes_to_consume as usize);
            // Send the gap to the data hooks
            let mut tx_data = Data::new(resp, &parser_data);
            self.response_run_hook_body_data(&mut tx_data)?;
        } else {''','''            let parser_data = ParserData::from(data.len());
            // Send the gap to the data hooks
            let mut tx_data = Data::new(resp, &parser_data);
            self.response_run_hook_body_data(&mut tx_data)?;
        } else {''')],
 needs='a gap that is longer than what the response body still needs',
 breaks='the body hooks are given a gap longer than the body',
 demo=r'''thread_local! { static L: RefCell<usize> = RefCell::new(0); }
fn main() {
    let mut c = Config::default();
    c.register_response_body_data(|_: &mut Transaction, d: &ParserData| { L.with(|l| *l.borrow_mut() += d.len()); Ok(()) });
    let mut p = parser(c);
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\n");
    p.response_data(ParserData::from(9usize), ts());
    assert_eq!(L.with(|l| *l.borrow()), 5);
}
'''),
dict(id='b28-pipelined-size', property='C28',
 edits=[('src/connection_parser.rs','''            self.conn.flags.set(ConnectionFlags::PIPELINED)''','''            if self.request_index() < 2 {
                self.conn.flags.set(ConnectionFlags::PIPELINED)
            }''')],
 needs='pipelining that starts only after two transactions',
 breaks='PIPELINED is not set',
 demo=r'''fn main() {
    let mut p = parser(cfg());
    for _ in 0..3 {
        req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
        res(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
    }
    assert_eq!(p.conn.flags, 0);
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\nGET / HTTP/1.1\r\nHost: a\r\n\r\n");
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    assert!(p.conn.flags & 1 != 0);
}
'''),
]
