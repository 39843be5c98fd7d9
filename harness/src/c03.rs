//! C03: the result of parsing a request stream does not depend on how it was cut into chunks.
use crate::{com::*, vp::*};
use htp::config::{Config, HtpServerPersonality as P};
use htp::connection_parser::{ConnectionParser, ParserData};
fn feed(c: Config, parts: &[&[u8]], close: bool) -> (ConnectionParser, Rec) {
    let _ = take_rec();
    let mut p = parser(c);
    for d in parts { if !d.is_empty() { req(&mut p, d); } }
    if close { p.close(ts()); }
    (p, take_rec())
}
/// Whole delivery vs. delivery cut at every position (two chunks), and byte by byte.
fn split(mk: fn() -> Config, d: &[u8], from: usize, close: bool) {
    let k = from + choose(d.len() + 1 - from);
    let (a, ra) = feed(mk(), &[d], close);
    let (b, rb) = if k == d.len() {
        let parts: Vec<&[u8]> = d.chunks(1).collect();
        feed(mk(), &parts, close)
    } else {
        feed(mk(), &[&d[..k], &d[k..]], close)
    };
    check(a.request_status == b.request_status, "same stream status");
    check(a.tx_size() == b.tx_size(), "same number of transactions");
    for i in 0..a.tx_size() {
        if let (Some(x), Some(y)) = (a.tx(i), b.tx(i)) { same_req(x, y); }
    }
    same_rec(&ra, &rb);
    obs(a.tx_size() as u64);
    if let Some(t) = b.tx(0) { obs_tx(t); }
    reach("end");
}
/// Whole delivery vs. three pieces with two symbolic cuts, or pieces of n bytes.
fn pieces(mk: fn() -> Config, d: &[u8], from: usize, three: bool) {
    let parts: Vec<&[u8]> = if three {
        let j = from + choose(d.len() - from);
        let k = j + choose(d.len() + 1 - j);
        vec![&d[..j], &d[j..k], &d[k..]]
    } else {
        d.chunks(from + choose(24)).collect()
    };
    let (a, ra) = feed(mk(), &[d], true);
    let (b, rb) = feed(mk(), &parts, true);
    same_all(&a, &ra, &b, &rb);
}
fn same_all(a: &ConnectionParser, ra: &Rec, b: &ConnectionParser, rb: &Rec) {
    check(a.request_status == b.request_status, "same stream status");
    check(a.tx_size() == b.tx_size(), "same number of transactions");
    for i in 0..a.tx_size() {
        if let (Some(x), Some(y)) = (a.tx(i), b.tx(i)) { same_req(x, y); }
    }
    same_rec(ra, rb);
    obs(a.tx_size() as u64);
    if let Some(t) = b.tx(0) { obs_tx(t); }
    reach("end");
}
fn c_min() -> Config { cfg0() }
fn c_ids() -> Config { let mut c = cfg(P::IDS); c.set_parse_urlencoded(true); c.set_request_decompression(true); c }
/// Four pipelined requests of all kinds, with long fields.
fn mix(s: &[u8]) -> Vec<u8> {
    let long = [b'v'; 70];
    cat(&[b"GET /a?q=", &long, b" HTTP/1.1\r\nHost: a\r\nX-Long: ", &long, b"\r\n ", &long[..20], b"\r\nY: 1\r\n\r\n",
        b"POST /b HTTP/1.1\r\nHost: b\r\nContent-Length: 40\r\n\r\n", &long[..38], s,
        b"PUT /c HTTP/1.1\nHost: c\nTransfer-Encoding: chunked\n\n1F;e=f\r\n", &long[..31], b"\r\n02\r\n", s, b"\r\n0\r\nT: u\r\nU: v\r\n\r\n",
        b"DELETE /d HTTP/1.0\r\nA: b\r\nA: c\r\n\r\n"])
}
fn c_ap() -> Config { cfg(P::APACHE_2) }

const URI: [u8; 256] = not_tab(b"\0\x01\x02\x03\x04\x05\x06\x07\x08\t\n\x0b\x0c\r\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f \x7f");
const VAL: [u8; 256] = not_tab(b"\0\r\n");
const HEX: [u8; 256] = tab(b"0123456789abcdefABCDEF");
harness! {
    fn h_c03_line() {
        let s: [u8; 1] = sym();
        for x in s { assume_tab(x, &URI); }
        split(c_min, &cat(&[b"GET /", &s, b"b HTTP/1.1\r\nHost: a\r\n\r\n"]), 1, false);
    }
    fn h_c03_line_lf() {
        let s: [u8; 1] = sym();
        for x in s { assume_tab(x, &URI); }
        split(c_ap, &cat(&[b"GET /", &s, b" HTTP/1.0\nHost: a\n\n"]), 1, false);
    }
    fn h_c03_hdr() {
        let s: [u8; 3] = sym();
        for x in s { assume_tab(x, &VAL); }
        split(c_min, &cat(&[b"GET / HTTP/1.1\r\nH: a", &s, b"\r\nB: c\r\n\r\n"]), 15, false);
    }
    fn h_c03_fold() {
        let s: [u8; 3] = sym();
        for x in s { assume_tab(x, &VAL); }
        split(c_min, &cat(&[b"GET / HTTP/1.1\r\nA: b\r\n ", &s, b"\r\nB: c\r\n\r\n"]), 15, false);
    }
    fn h_c03_rep() {
        let s: [u8; 2] = sym();
        for x in s { assume_tab(x, &VAL); }
        split(c_min, &cat(&[b"GET / HTTP/1.1\r\nAb: x\r\nAb:", &s, b"\r\nHost: c\r\n\r\n"]), 15, false);
    }
    fn h_c03_cl() {
        let s: [u8; 3] = sym();
        split(c_min, &cat(&[b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 3\r\n\r\n", &s]), 1, false);
    }
    fn h_c03_cl_pipe() {
        let s: [u8; 2] = sym();
        split(c_min, &cat(&[b"POST / HTTP/1.1\r\nContent-Length: 2\r\n\r\n", &s, b"GET /b HTTP/1.1\r\nHost: b\r\n\r\n"]), 34, false);
    }
    fn h_c03_chunked() {
        let s: [u8; 2] = sym();
        split(c_min, &cat(&[b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\n", &s, b"\r\n1;x\r\nz\r\n0\r\nT: u\r\n\r\n"]), 44, false);
    }
    fn h_c03_chunklen() {
        let s: [u8; 1] = sym();
        for x in s { assume_tab(x, &HEX); }
        split(c_min, &cat(&[b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0", &s, b"\r\nabcdefghijklmno\r\n0\r\n\r\n"]), 45, false);
    }
    fn h_c03_pipe() {
        split(c_min, b"GET /a HTTP/1.1\r\nHost: a\r\n\r\nGET /b HTTP/1.1\r\nHost: b\r\n\r\n", 1, false);
    }
    fn h_c03_connect() {
        split(c_min, b"CONNECT a:1 HTTP/1.1\r\nHost: a:1\r\n\r\n", 1, false);
    }
    fn h_c03_three() { let s: [u8; 1] = sym(); for x in s { assume_tab(x, &VAL); }
        pieces(c_min, &cat(&[b"PUT /a HTTP/1.1\r\nA: b", &s, b"\r\n c\r\nContent-Length: 3\r\n\r\nxyz"]), 1, true); }
    fn h_c03_three_ch() { let s: [u8; 1] = sym();
        pieces(c_min, &cat(&[b"PUT / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3;x\r\na", &s, b"c\r\n01\r\nd\r\n0\r\nT: u\r\n\r\nGET / HTTP/1.0\r\nA: b\r\n\r\n"]), 42, true); }
    fn h_c03_mix() { pieces(c_ids, &mix(&sym::<2>()), 1, false); }
    fn t_c03_mix3() { pieces(c_ids, &mix(b"zz"), 1, true); }
    fn h_c03_mix_cut() { split(c_min, &mix(b"zz"), 1, true); }
    fn h_c03_gzip() {
        let g = [0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3, 1, 3, 0, 0xfc, 0xff, b'a', b'b', b'c', 0xc2, 0x41, 0x24, 0x35, 3, 0, 0, 0];
        split(c_ids, &cat(&[b"PUT / HTTP/1.1\r\nHost: a\r\nContent-Encoding: gzip\r\nContent-Length: 26\r\n\r\n", &g, b"GET /x HTTP/1.1\r\nHost: h\r\n\r\n"]), 1, true);
    }
    fn h_c03_put_auth() {
        split(c_min, b"PUT http://u:p@h:81/a?b#c HTTP/1.1\r\nHost: h:81\r\nAuthorization: Basic YTpi\r\nContent-Type: text/x\r\nContent-Length: 1\r\n\r\nz", 1, false);
    }
}
