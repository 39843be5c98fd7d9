SEEDS=[
dict(id='b31-ipv6-host-utf8', property='C01',
 edits=[('src/util.rs','''        if let Ok(str) = std::str::from_utf8(addr) {
            return std::net::Ipv6Addr::from_str(str).is_ok();
        }''','''        let str = std::str::from_utf8(addr).unwrap();
        return std::net::Ipv6Addr::from_str(str).is_ok();''')],
 needs='a bracketed host with a byte that is not UTF-8',
 breaks='parsing the request panics',
 demo=r'''fn main() {
    let mut p = parser(cfg());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: [\xff]\r\n\r\n");
    assert_eq!(count("req_complete", 0), 1);
}
'''),
dict(id='b32-lookahead-underflow', property='C02',
 edits=[('src/response.rs','''            if input.len() >= 4 {''','''            if input.len() >= 3 {''')],
 needs='a response that is no HTTP, with a first line followed by exactly three bytes in the same piece',
 breaks='the subtraction underflows: panic',
 demo=r'''fn main() {
    let mut p = parser(cfg());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"hello\nabc");
    assert_eq!(body("res_body", 0), b"hello\n");
}
'''),
dict(id='b33-next-line-cut', property='C03',
 edits=[('src/request.rs','''        let mut data = take(&mut self.request_buf);
        let buf_len = data.len();
        data.add(work);

        if data.is_empty() {
            //closing''','''        let mut data = take(&mut self.request_buf);
        let buf_len = if work == b"\\n" { 0 } else { data.len() };
        data.add(work);

        if data.is_empty() {
            //closing''')],
 needs='two pipelined requests cut right before the LF of the second request line',
 breaks='the second request line is lost',
 demo=r'''fn main() {
    let mut p = parser(cfg());
    req(&mut p, b"GET /1 HTTP/1.1\r\nHost: a\r\n\r\nGET /2 HTTP/1.1\r");
    req(&mut p, b"\nHost: a\r\n\r\n");
    assert!(p.tx(1).unwrap().request_uri.as_ref().unwrap().eq_slice("/2"));
}
'''),
dict(id='b34-chunk-end-cut-len', property='C04',
 edits=[('src/response.rs','''            // Advance to end. Dont need to buffer
            resp.response_message_len = resp.response_message_len.wrapping_add(input.len() as u64);
''','''            // Advance to end. Dont need to buffer
''')],
 needs='a chunked response cut between the CR and the LF that follow chunk data',
 breaks='the message length depends on the cut',
 demo=r'''fn main() {
    let mut p = parser(cfg());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r");
    res(&mut p, b"\n0\r\n\r\n");
    assert_eq!(p.tx(0).unwrap().response_message_len, 11);
}
'''),
dict(id='b35-vt-delimiter', property='C12',
 edits=[('src/request.rs','''uri.iter().any(|&c| is_space(c))''','''uri.iter().any(|&c| c.is_ascii_whitespace())''')],
 needs='a vertical tab as the only delimiter between URI and protocol',
 breaks='the line is not split',
 demo=r'''fn main() {
    let mut p = parser(cfg());
    req(&mut p, b"GET /\x0bHTTP/1.1\r\nHost: a\r\n\r\n");
    assert!(p.tx(0).unwrap().request_uri.as_ref().unwrap().eq_slice("/"));
}
'''),
dict(id='b36-reason-trimmed', property='C13',
 edits=[('src/response.rs','''response_tx.response_message = Some(Bstr::from(chomp(message)));''','''response_tx.response_message = Some(Bstr::from(message.trim_ascii_end()));''')],
 needs='a reason phrase that ends with blanks',
 breaks='the blanks are lost',
 demo=r'''fn main() {
    let mut p = parser(cfg());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 200 OK  \r\nContent-Length: 0\r\n\r\n");
    assert!(p.tx(0).unwrap().response_message.as_ref().unwrap().eq_slice("OK  "));
}
'''),
dict(id='b37-full-width-bound', property='C15',
 edits=[('src/urlencoded.rs','''c1 == 0xff && c2 <= 0xef''','''c1 == 0xff && c2 < 0xef''')],
 needs='%uffef in a query value with %u decoding enabled',
 breaks='the half/full-width flag is not raised',
 demo=r'''fn main() {
    let mut c = cfg();
    c.set_u_encoding_decode(true);
    let mut p = htp::urlencoded::Parser::new(c.decoder_cfg);
    p.parse_complete(b"a=%uffef");
    assert!(p.flags & HtpFlags::URLEN_HALF_FULL_RANGE != 0);
}
'''),
dict(id='b38-search-skips', property='C21',
 edits=[('src/bstr.rs','''            if equal {
                return Some(haystack.index());
            }''','''            if equal {
                return Some(haystack.index());
            }
            *haystack = test;''')],
 needs='a partial match that overlaps the occurrence',
 breaks='index_of_nocase misses it',
 demo=r'''fn main() {
    assert_eq!(Bstr::from("aaab").index_of_nocase("AAB"), Some(1));
}
'''),
dict(id='b39-max-tx-total', property='C23',
 edits=[('src/transactions.rs','''        let request = self.request;
        let nbtx = self.transactions.len();
        match''','''        let request = self.request;
        let nbtx = request;
        match'''),('src/transactions.rs','''        let response = self.response;
        let nbtx = self.transactions.len();
        match''','''        let response = self.response;
        let nbtx = response;
        match''')],
 needs='more transactions in all than the limit, with finished ones removed in time',
 breaks='the stream ends in error although few transactions are alive',
 demo=r'''fn main() {
    let mut c = cfg();
    c.set_tx_auto_destroy(true);
    c.max_tx = 2;
    let mut p = parser(c);
    for i in 0..5 {
        assert_ne!(req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n"), HtpStreamState::ERROR);
        res(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
    }
    assert_eq!(count("tx_complete", 4), 1);
}
'''),
dict(id='b40-second-encoding-case', property='C25',
 edits=[('src/response.rs','''encoding.index_of_nocase(b"deflate").is_some()''','''encoding.index_of(b"deflate").is_some()''')],
 needs='two encodings, one of them spelled Deflate',
 breaks='that encoding is not undone',
 demo=r'''use std::io::Write;
fn main() {
    let mut e = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::default());
    e.write_all(b"hello").unwrap();
    let mut g = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::default());
    g.write_all(&e.finish().unwrap()).unwrap();
    let d = g.finish().unwrap();
    let mut p = parser(cfg());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, format!("HTTP/1.1 200 OK\r\nContent-Encoding: Deflate, gzip\r\nContent-Length: {}\r\n\r\n", d.len()).as_bytes());
    res(&mut p, &d);
    assert_eq!(body("res_body", 0), b"hello");
}
'''),
]
