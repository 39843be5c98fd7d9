//! C01: no request byte stream crashes, hangs or over-consumes.
use crate::{com::*, vp::*};
use htp::config::HtpServerPersonality as P;
use htp::connection_parser::{ConnectionParser, ParserData};
use htp::decompressors::HtpContentEncoding;
fn end(mut p: ConnectionParser) {
    p.close(ts());
    for i in 0..p.tx_size().min(3) {
        if let Some(t) = p.tx(i) { obs_tx(t); }
    }
    reach("end");
}
fn run(p: P, parts: &[&[u8]]) {
    let mut c = cfg(p);
    no_bestfit(&mut c);
    c.parse_urlencoded = true;
    let mut p = parser(c);
    for d in parts { req_c(&mut p, d); }
    end(p)
}
harness! {
    /// any 4 bytes at the very start of a connection
    fn h_c01_start() {
        let s: [u8; 4] = sym();
        run(P::APACHE_2, &[&cat(&[&s, b" / HTTP/1.1\r\nHost: a\r\n\r\n"])]);
    }
    /// any 4 bytes between method and protocol
    fn h_c01_uri() {
        let s: [u8; 3] = sym();
        run(P::IDS, &[&cat(&[b"GET /", &s, b" HTTP/1.1\r\nHost: a\r\n\r\n"])]);
    }
    fn h_c01_uri2() {
        let s: [u8; 3] = sym();
        run(P::IIS_6_0, &[&cat(&[b"GET h", &s, b"/%u?%0 HTTP/1.1\r\nHost: a\r\n\r\n"])]);
    }
    fn h_c01_proto() {
        let s: [u8; 4] = sym();
        run(P::MINIMAL, &[&cat(&[b"GET / ", &s, b"\r\nHost: a\r\n\r\n"])]);
    }
    fn h_c01_hdr() {
        let s: [u8; 4] = sym();
        run(P::MINIMAL, &[&cat(&[b"GET / HTTP/1.1\r\nHost: a\r\n", &s, b"\r\n\r\n"])]);
    }
    fn h_c01_hdr_split() {
        let s: [u8; 3] = sym();
        let d = cat(&[b"GET / HTTP/1.1\r\nA: ", &s, b"\r\n\r\n"]);
        let k = 17 + choose(6);
        run(P::MINIMAL, &[&d[..k], &d[k..]]);
    }
    fn h_c01_host() {
        let s: [u8; 3] = sym();
        run(P::GENERIC, &[&cat(&[b"GET http://a/ HTTP/1.1\r\nHost: a", &s, b"\r\n\r\n"])]);
    }
    fn h_c01_auth() {
        let s: [u8; 3] = sym();
        let k = choose(3);
        let a: &[u8] = [&b"Basic "[..], b"Digest username=\"", b"B"][k];
        run(P::MINIMAL, &[&cat(&[b"GET / HTTP/1.1\r\nHost: a\r\nAuthorization: ", a, &s, b"\r\n\r\n"])]);
    }
    fn h_c01_cl() {
        let s: [u8; 3] = sym();
        run(P::MINIMAL, &[&cat(&[b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: ", &s, b"\r\n\r\n"]), b"abcdef", b"x"]);
    }
    fn h_c01_cl_big() {
        let s: [u8; 2] = sym();
        run(P::MINIMAL, &[&cat(&[b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 184467440737095516", &s, b"\r\n\r\n"]), b"abcdef", b"x"]);
    }
    fn h_c01_chunked() {
        let s: [u8; 4] = sym();
        run(P::MINIMAL, &[b"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n", &s, b"ab\r\n0\r\n\r\n"]);
    }
    fn h_c01_chunked_split() {
        let s: [u8; 3] = sym();
        run(P::MINIMAL, &[b"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n", &s[..1], &s[1..2], &s[2..], b"\nab\r\n0\r\n\r\n"]);
    }
    fn h_c01_chunk_big() {
        let s: [u8; 2] = sym();
        run(P::MINIMAL, &[b"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\nfffffffffffffff", &s, b"\r\n0\r\n\r\n", b"abc"]);
    }
    fn h_c01_after() {
        // bytes following a complete request
        let s: [u8; 4] = sym();
        run(P::MINIMAL, &[b"GET / HTTP/1.1\r\nHost: a\r\n\r\n", &s, b" / HTTP/1.0\r\n\r\n"]);
    }
    fn h_c01_after_body() {
        let s: [u8; 3] = sym();
        run(P::MINIMAL, &[b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 1\r\n\r\n", &s[..2], &s[2..], b"GET / HTTP/1.0\r\n\r\n"]);
    }
    fn h_c01_trailer() {
        let s: [u8; 3] = sym();
        run(P::MINIMAL, &[b"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n", &s, b"\r\n\r\n"]);
    }
    fn h_c01_connect() {
        let s: [u8; 3] = sym();
        let mut p = parser(cfg0());
        req_c(&mut p, b"CONNECT a:1 HTTP/1.1\r\nHost: a:1\r\n\r\n");
        res_c(&mut p, b"HTTP/1.1 200 OK\r\n\r\n");
        req_c(&mut p, &s);
        req_c(&mut p, b" / HTTP/1.1\r\n\r\n");
        end(p);
    }
    fn h_c01_gap() {
        // a gap of 1..4 bytes at any of 7 points of a request with a body
        let s: [u8; 2] = sym();
        let g = 1 + choose(4);
        let at = choose(7);
        let parts: [&[u8]; 6] = [b"POST", b" / HTTP/1.1\r\n", b"Content-Length: 3\r\n\r\n", &s[..1], b"b", &s[1..]];
        let mut p = parser(cfg0());
        for i in 0..7 {
            if i == at { let st = p.request_data(ParserData::from(g), ts()); obs(st as u64); }
            if i < 6 { req_c(&mut p, parts[i]); }
        }
        end(p);
    }
    fn h_c01_gzip() {
        // arbitrary bytes as a compressed request body
        let s: [u8; 2] = sym();
        let mut c = cfg0();
        c.request_decompression_enabled = true;
        let mut p = parser(c);
        req_c(&mut p, b"POST / HTTP/1.1\r\nHost: a\r\nContent-Encoding: gzip\r\nContent-Length: 20\r\n\r\n");
        req_c(&mut p, &cat(&[&[0x1f, 0x8b, 8], &s, &[0, 0, 0, 0, 0, 3]]));
        req_c(&mut p, &[1, 1, 0, 0xfe, 0xff, 0x41, 0, 0, 0]);
        end(p);
    }
}
