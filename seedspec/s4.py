SEEDS=[
dict(id='b41-invalid-chunk-line-cap', property='C29',
 edits=[('src/response.rs','''                            self.response_data_unconsume(input, line.len());
                            self.response_state = State::BODY_IDENTITY_STREAM_CLOSE;''','''                            self.response_data_unconsume(input, std::cmp::min(line.len(), 32));
                            self.response_state = State::BODY_IDENTITY_STREAM_CLOSE;''')],
 needs='a chunk-length line that is no number and longer than 32 bytes, in one piece',
 breaks='the first bytes of the line are missing from the body',
 demo=r'''fn main() {
    let mut p = parser(cfg());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    let l = [&b"zz"[..], &[b'y'; 60], b"\r\nmore"].concat();
    res(&mut p, &[b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n", &l[..]].concat());
    assert_eq!(body("res_body", 0), l);
}
'''),
dict(id='b42-two-bad-lengths', property='C30',
 edits=[('src/response.rs','if existing_cl.is_none() || new_cl.is_none() || existing_cl != new_cl','if existing_cl != new_cl')],
 needs='a response with two Content-Length headers, both without a number',
 breaks='the ambiguity leaves no log entry',
 demo=r'''fn main() {
    let mut p = parser(cfg());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: x\r\nContent-Length: y\r\n\r\n");
    let n = p.conn.get_logs().iter().filter(|l| l.msg.code == htp::log::HtpLogCode::DUPLICATE_CONTENT_LENGTH_FIELD_IN_RESPONSE).count();
    assert_eq!(n, 1);
}
'''),
dict(id='b43-tx-callback-end', property='C31',
 edits=[('src/request.rs','''        req.hook_request_body_data.clone().run_all(self, d)?;''','''        if d.len() > 0 {
            req.hook_request_body_data.clone().run_all(self, d)?;
        }''')],
 needs='a body callback attached to one transaction, and the end of its body',
 breaks='the callback of the transaction is not told that the body has ended',
 demo=r'''fn at(t: &mut Transaction, d: &ParserData) -> htp::error::Result<()> { log("own", t, d.as_slice()) }
fn main() {
    let mut c = cfg();
    c.register_request_headers(|t: &mut Transaction| { t.register_request_body_data(at); Ok(()) });
    let mut p = parser(c);
    req(&mut p, b"PUT / HTTP/1.1\r\nHost: a\r\nContent-Length: 2\r\n\r\nab");
    req(&mut p, b"GET / HTTP/1.1\r\n");
    assert_eq!(count("own", 0), count("req_body", 0));
}
'''),
dict(id='b44-type-blank-only', property='C32',
 edits=[('src/response.rs',"|c| c == b';' || is_space(c)","|c| c == b';' || c == b' '")],
 needs='a response Content-Type followed by a tab',
 breaks='the tab and what follows are part of the content type',
 demo=r'''fn main() {
    let mut p = parser(cfg());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\nContent-Type: Text/Html\tx\r\n\r\na");
    assert!(p.tx(0).unwrap().response_content_type.as_ref().unwrap().eq_slice("text/html"));
}
'''),
dict(id='b45-close-drops-last-header', property='C33',
 edits=[('src/request.rs','''            if let Some(request_header) = self.request_header.take() {
                self.parse_request_headers(request_header.as_slice())?;
            }
            self.request_buf.clear();''','''            self.request_header = None;
            self.request_buf.clear();''')],
 needs='a connection closed right after a complete header line of a request',
 breaks='that header is missing from the transaction',
 demo=r'''fn main() {
    let mut p = parser(cfg());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\nX: b\r\n");
    p.close(ts());
    assert!(p.tx(0).unwrap().request_headers.get_nocase("x").is_some());
}
'''),
]
