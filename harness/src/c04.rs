//! C04: the result of parsing a response stream does not depend on how it was cut into chunks.
use crate::{com::*, vp::*};
use htp::config::{Config, HtpServerPersonality as P};
use htp::connection_parser::{ConnectionParser, ParserData};
fn feed(c: Config, r: &[u8], parts: &[&[u8]], close: bool) -> (ConnectionParser, Rec) {
    let _ = take_rec();
    let mut p = parser(c);
    req(&mut p, r);
    for d in parts { if !d.is_empty() { res(&mut p, d); } }
    if close { p.close(ts()); }
    (p, take_rec())
}
fn split(mk: fn() -> Config, r: &[u8], d: &[u8], from: usize, close: bool) {
    let k = from + choose(d.len() + 1 - from);
    let (a, ra) = feed(mk(), r, &[d], close);
    let (b, rb) = if k == d.len() {
        let parts: Vec<&[u8]> = d.chunks(1).collect();
        feed(mk(), r, &parts, close)
    } else {
        feed(mk(), r, &[&d[..k], &d[k..]], close)
    };
    check(a.response_status == b.response_status, "same stream status");
    check(a.tx_size() == b.tx_size(), "same number of transactions");
    for i in 0..a.tx_size() {
        if let (Some(x), Some(y)) = (a.tx(i), b.tx(i)) { same_res(x, y); }
    }
    same_rec(&ra, &rb);
    obs(a.tx_size() as u64);
    if let Some(t) = b.tx(0) { obs_tx(t); }
    reach("end");
}
fn pieces(mk: fn() -> Config, r: &[u8], d: &[u8], from: usize, three: bool) {
    let parts: Vec<&[u8]> = if three {
        let j = from + choose(d.len() - from);
        let k = j + choose(d.len() + 1 - j);
        vec![&d[..j], &d[j..k], &d[k..]]
    } else {
        d.chunks(from + choose(24)).collect()
    };
    let (a, ra) = feed(mk(), r, &[d], true);
    let (b, rb) = feed(mk(), r, &parts, true);
    check(a.response_status == b.response_status, "same stream status");
    check(a.tx_size() == b.tx_size(), "same number of transactions");
    for i in 0..a.tx_size() {
        if let (Some(x), Some(y)) = (a.tx(i), b.tx(i)) { same_res(x, y); }
    }
    same_rec(&ra, &rb);
    obs(a.tx_size() as u64);
    if let Some(t) = b.tx(0) { obs_tx(t); }
    reach("end");
}
fn c_min() -> Config { cfg0() }
/// Four responses of all kinds, with long fields.
fn mix(s: &[u8]) -> Vec<u8> {
    let long = [b'v'; 70];
    cat(&[b"HTTP/1.1 200 ", &long, b"\r\nX-Long: ", &long, b"\r\n ", &long[..20], b"\r\nContent-Length: 0\r\n\r\n",
        b"HTTP/1.1 100 Continue\r\nI: j\r\n\r\nHTTP/1.0 404 Not\r\nContent-Length: 40\r\n\r\n", &long[..38], s,
        b"HTTP/1.1 200 OK\nTransfer-Encoding: chunked\n\n1F;e=f\r\n", &long[..31], b"\r\n02\r\n", s, b"\r\n0\r\nT: u\r\nU: v\r\n\r\n",
        b"HTTP/1.1 304 N\r\nA: b\r\nA: c\r\n\r\n"])
}
const GGGG: &[u8] = b"GET / HTTP/1.1\r\nHost: a\r\n\r\nPUT / HTTP/1.1\r\nHost: a\r\nContent-Length: 0\r\n\r\nGET / HTTP/1.1\r\nHost: a\r\n\r\nGET / HTTP/1.1\r\nHost: a\r\n\r\n";
const G: &[u8] = b"GET / HTTP/1.1\r\nHost: a\r\n\r\n";
const GG: &[u8] = b"GET / HTTP/1.1\r\nHost: a\r\n\r\nGET / HTTP/1.1\r\nHost: a\r\n\r\n";

const VAL: [u8; 256] = not_tab(b"\0\r\n");
const HEX: [u8; 256] = tab(b"0123456789abcdefABCDEF");
harness! {
    fn h_c04_three() { let s: [u8; 1] = sym(); for x in s { assume_tab(x, &VAL); }
        pieces(c_min, G, &cat(&[b"HTTP/1.1 200 O\r\nA: b", &s, b"\r\n c\r\nContent-Length: 3\r\n\r\nxyz"]), 1, true); }
    fn h_c04_three_ch() { let s: [u8; 1] = sym();
        pieces(c_min, GG, &cat(&[b"HTTP/1.1 200 O\r\nTransfer-Encoding: chunked\r\n\r\n3;x\r\na", &s, b"c\r\n01\r\nd\r\n0\r\nT: u\r\n\r\nHTTP/1.1 204 O\r\nA: b\r\n\r\n"]), 42, true); }
    fn h_c04_three_close() { let s: [u8; 1] = sym();
        pieces(c_min, G, &cat(&[b"HTTP/1.1 200 O\r\nA: b\r\n\r\nab", &s, b"\r\n\r\nz\r"]), 14, true); }
    fn h_c04_mix() { pieces(c_min, GGGG, &mix(&sym::<2>()), 1, false); }
    fn t_c04_mix3() { pieces(c_min, GGGG, &mix(b"zz"), 1, true); }
    fn h_c04_mix_cut() { split(c_min, GGGG, &mix(b"zz"), 1, true); }
    fn h_c04_gzip() {
        let g = [0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3, 1, 3, 0, 0xfc, 0xff, b'a', b'b', b'c', 0xc2, 0x41, 0x24, 0x35, 3, 0, 0, 0];
        split(c_min, GG, &cat(&[b"HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: 26\r\n\r\n", &g, b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nq"]), 1, true);
    }
    fn h_c04_line() {
        let s: [u8; 3] = sym();
        for x in s { assume_tab(x, &VAL); }
        split(c_min, G, &cat(&[b"HTTP/1.1 2", &s, b"OK\r\nContent-Length: 0\r\n\r\n"]), 1, false);
    }
    fn h_c04_hdr() {
        let s: [u8; 3] = sym();
        for x in s { assume_tab(x, &VAL); }
        split(c_min, G, &cat(&[b"HTTP/1.1 200 OK\r\nA: b", &s, b"\r\nContent-Length: 0\r\n\r\n"]), 15, false);
    }
    fn h_c04_fold() {
        let s: [u8; 2] = sym();
        for x in s { assume_tab(x, &VAL); }
        split(c_min, G, &cat(&[b"HTTP/1.1 200 OK\r\nA: b\r\n ", &s, b"\r\nContent-Length: 0\r\n\r\n"]), 15, false);
    }
    fn h_c04_lf() {
        let s: [u8; 2] = sym();
        for x in s { assume_tab(x, &VAL); }
        split(c_min, G, &cat(&[b"HTTP/1.1 200 OK\nA:", &s, b"\nContent-Length: 1\n\nz"]), 1, false);
    }
    fn h_c04_cl() {
        let s: [u8; 3] = sym();
        split(c_min, G, &cat(&[b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\n", &s]), 1, false);
    }
    fn h_c04_cl_pipe() {
        let s: [u8; 2] = sym();
        split(c_min, GG, &cat(&[b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n", &s, b"HTTP/1.1 404 NF\r\nContent-Length: 1\r\n\r\nz"]), 34, false);
    }
    fn h_c04_chunked() {
        let s: [u8; 2] = sym();
        split(c_min, G, &cat(&[b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\n", &s, b"\r\n1;x\r\nz\r\n0\r\nT: u\r\n\r\n"]), 44, false);
    }
    fn h_c04_chunklen() {
        let s: [u8; 1] = sym();
        for x in s { assume_tab(x, &HEX); }
        split(c_min, G, &cat(&[b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n0", &s, b"\r\nabcdefghijklmno\r\n0\r\n\r\n"]), 45, false);
    }
    fn h_c04_close() {
        let s: [u8; 2] = sym();
        split(c_min, G, &cat(&[b"HTTP/1.1 200 OK\r\nA: b\r\n\r\n", &s, b"xy\r\nzz"]), 15, true);
    }
    fn h_c04_204() {
        split(c_min, GG, b"HTTP/1.1 204 OK\r\nA: b\r\n\r\nHTTP/1.1 304 OK\r\n\r\n", 1, false);
    }
    fn h_c04_100() {
        split(c_min, G, b"HTTP/1.1 100 C\r\nA: b\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nz", 1, false);
    }
    fn h_c04_head() {
        split(c_min, b"HEAD / HTTP/1.1\r\nHost: a\r\n\r\nGET / HTTP/1.1\r\nHost: a\r\n\r\n", b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nz", 1, false);
    }
}
