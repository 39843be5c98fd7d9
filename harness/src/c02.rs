//! C02: no response byte stream crashes, hangs or over-consumes.
use crate::{com::*, vp::*};
use htp::config::HtpServerPersonality as P;
use htp::connection_parser::{ConnectionParser, ParserData};
fn end(mut p: ConnectionParser) {
    p.close(ts());
    for i in 0..p.tx_size().min(3) {
        if let Some(t) = p.tx(i) { obs_tx(t); }
    }
    reach("end");
}
fn run(pe: P, r: &[u8], parts: &[&[u8]]) {
    let mut p = parser(cfg(pe));
    if !r.is_empty() { req_c(&mut p, r); }
    for d in parts { res_c(&mut p, d); }
    end(p)
}
const G: &[u8] = b"GET / HTTP/1.1\r\nHost: a\r\n\r\n";
harness! {
    fn h_c02_start() {
        let s: [u8; 4] = sym();
        run(P::APACHE_2, G, &[&cat(&[&s, b"/1.1 200 OK\r\nA: b\r\n\r\nxy"])]);
    }
    fn h_c02_noreq() {
        let s: [u8; 3] = sym();
        run(P::MINIMAL, b"", &[&cat(&[&s, b" 200 OK\r\nA: b\r\n\r\nxy"])]);
    }
    fn h_c02_status() {
        let s: [u8; 4] = sym();
        run(P::MINIMAL, G, &[&cat(&[b"HTTP/1.1 ", &s, b" OK\r\nA: b\r\n\r\nxy"]), b"z\r\n", b"HTTP/1.1 200 OK\r\n\r\n"]);
    }
    fn h_c02_hdr() {
        let s: [u8; 4] = sym();
        run(P::MINIMAL, G, &[&cat(&[b"HTTP/1.1 200 OK\r\n", &s, b"\r\n\r\nxy"])]);
    }
    fn h_c02_hdr_split() {
        let s: [u8; 3] = sym();
        let d = cat(&[b"HTTP/1.1 200 OK\r\nA: ", &s, b"\r\n\r\n"]);
        let k = 14 + choose(10);
        run(P::MINIMAL, G, &[&d[..k], &d[k..]]);
    }
    fn h_c02_cl() {
        let s: [u8; 3] = sym();
        run(P::MINIMAL, G, &[&cat(&[b"HTTP/1.1 200 OK\r\nContent-Length: ", &s, b"\r\n\r\n"]), b"abcdef", b"x"]);
    }
    fn h_c02_cl_big() {
        let s: [u8; 2] = sym();
        run(P::MINIMAL, G, &[&cat(&[b"HTTP/1.1 200 OK\r\nContent-Length: 184467440737095516", &s, b"\r\n\r\n"]), b"abcdef", b"x"]);
    }
    fn h_c02_ct() {
        let s: [u8; 3] = sym();
        run(P::MINIMAL, G, &[&cat(&[b"HTTP/1.1 200 OK\r\nContent-Type: ", &s, b"\r\n\r\n"]), b"abcdef", b"x"]);
    }
    fn h_c02_chunked() {
        let s: [u8; 4] = sym();
        run(P::MINIMAL, G, &[b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n", &s, b"ab\r\n0\r\n\r\n"]);
    }
    fn h_c02_chunked_split() {
        let s: [u8; 3] = sym();
        run(P::MINIMAL, G, &[b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n", &s[..1], &s[1..2], &s[2..], b"\nab\r\n0\r\n\r\n"]);
    }
    fn h_c02_chunk_big() {
        let s: [u8; 2] = sym();
        run(P::MINIMAL, G, &[b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nfffffffffffffff", &s, b"\r\n0\r\n\r\n", b"abc"]);
    }
    fn h_c02_after() {
        let s: [u8; 4] = sym();
        run(P::MINIMAL, G, &[b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nx", &s, b"/1.1 200 OK\r\n\r\n"]);
    }
    fn h_c02_after2() {
        let s: [u8; 3] = sym();
        run(P::MINIMAL, b"GET / HTTP/1.1\r\nHost: a\r\n\r\nGET / HTTP/1.1\r\nHost: a\r\n\r\n",
            &[&cat(&[b"HTTP/1.1 204 OK\r\n\r\n", &s]), b"HTTP/1.1 200 OK\r\n\r\n"]);
    }
    fn h_c02_trailer() {
        let s: [u8; 3] = sym();
        run(P::MINIMAL, G, &[b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n", &s, b"\r\n\r\n"]);
    }
    fn h_c02_continue() {
        let s: [u8; 3] = sym();
        run(P::MINIMAL, G, &[&cat(&[b"HTTP/1.1 100 C\r\n", &s, b"\r\n\r\n"]), b"HTTP/1.1 101 OK\r\n\r\n", b"ab"]);
    }
    fn h_c02_gap() {
        let s: [u8; 2] = sym();
        let g = 1 + choose(4);
        let at = choose(7);
        let cl = choose(2);
        let h: &[u8] = if cl == 0 { b"Content-Length: 3\r\n\r\n" } else { b"\r\n" };
        let parts: [&[u8]; 6] = [b"HTTP", b"/1.1 200 OK\r\n", h, &s[..1], b"b", &s[1..]];
        let mut p = parser(cfg0());
        req_c(&mut p, G);
        for i in 0..7 {
            if i == at { let st = p.response_data(ParserData::from(g), ts()); obs(st as u64); }
            if i < 6 { res_c(&mut p, parts[i]); }
        }
        end(p);
    }
    fn h_c02_gzip() {
        let s: [u8; 2] = sym();
        run(P::MINIMAL, G, &[b"HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: 20\r\n\r\n",
            &cat(&[&[0x1f, 0x8b, 8], &s, &[0, 0, 0, 0, 0, 3]]), &[1, 1, 0, 0xfe, 0xff, 0x41, 0, 0, 0]]);
    }
    fn h_c02_deflate() {
        let s: [u8; 2] = sym();
        run(P::MINIMAL, G, &[b"HTTP/1.1 200 OK\r\nContent-Encoding: deflate\r\n\r\n", &s, &[1, 1, 0, 0xfe, 0xff, 0x41, 0, 0, 0]]);
    }
    fn h_c02_ce() {
        let s: [u8; 3] = sym();
        run(P::MINIMAL, G, &[&cat(&[b"HTTP/1.1 200 OK\r\nContent-Encoding: gzip", &s, b"\r\n\r\n"]), b"abcdefghijklm"]);
    }
}
