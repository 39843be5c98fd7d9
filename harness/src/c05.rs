//! C05: the request body handed to the user is exactly the body sent, and its end is where framing says.
use crate::{com::*, vp::*};
use htp::config::{Config, HtpServerPersonality as P};
use htp::connection_parser::{ConnectionParser, HtpStreamState as S, ParserData};
use htp::request::HtpMethod;
use htp::transaction::{HtpRequestProgress as RP, HtpTransferCoding as TC};
const NEXT: &[u8] = b"GET /b HTTP/1.1\r\nHost: b\r\n\r\n";
/// Deliver `d` cut at a symbolic position >= from (k == len: one call).
fn cut(p: &mut ConnectionParser, d: &[u8], from: usize) {
    let k = from + choose(d.len() + 1 - from);
    if k > 0 { req_c(p, &d[..k]); }
    if k < d.len() { req_c(p, &d[k..]); }
}
fn done(p: &ConnectionParser, r: &Rec, body: &[u8], mlen: usize, next: bool) {
    let t = p.tx(0).unwrap();
    check_bytes(&r.req_body[0], body, "request body delivered");
    check(t.request_entity_len as usize == body.len(), "request entity length");
    check(t.request_message_len as usize == mlen, "request message length");
    check(t.request_progress == RP::COMPLETE, "request complete after its body");
    check(r.count(E_REQ_COMPLETE, 0) == 1, "request complete hook once");
    if next {
        check(r.count(E_REQ_COMPLETE, 1) == 1, "next request complete");
        check(r.req_body[1].is_empty(), "next request has no body");
        match p.tx(1) {
            Some(n) => {
                check_obytes(ob(&n.request_uri), Some(b"/b"), "next request starts where the body ends");
                check(n.request_method_number == HtpMethod::GET, "next request method");
                check(n.request_headers.elements.len() == 1, "next request headers");
            }
            None => check(false, "next request parsed"),
        }
    }
    if let Some(n) = p.tx(1) { obs_tx(n); }
    obs_tx(t);
    reach("end");
}
fn cl(n: usize, digits: &[u8], next: bool) {
    let b = symv(n);
    let _ = take_rec();
    let mut p = parser(cfg0());
    let head = cat(&[b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length:", digits, b"\r\n\r\n"]);
    let d = cat(&[&head, &b, if next { NEXT } else { b"" }]);
    cut(&mut p, &d, head.len() - 3);
    let r = take_rec();
    let t = p.tx(0).unwrap();
    check(t.request_content_length == Some(n as u64), "content length");
    check(t.request_transfer_coding == TC::IDENTITY, "transfer coding");
    done(&p, &r, &b, n, next);
}
fn chunked(l: &[(&[u8], usize)], last: &[u8], trailer: &[u8], next: bool, te: &[u8]) {
    let mut raw: Vec<u8> = Vec::new();
    let mut body: Vec<u8> = Vec::new();
    for (line, n) in l {
        let b = symv(*n);
        raw.extend_from_slice(line);
        raw.extend_from_slice(&b);
        raw.extend_from_slice(b"\r\n");
        body.extend_from_slice(&b);
    }
    raw.extend_from_slice(last);
    let _ = take_rec();
    let mut p = parser(cfg0());
    let head = cat(&[b"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: ", te, b"\r\n\r\n"]);
    let d = cat(&[&head, &raw, trailer, b"\r\n", if next { NEXT } else { b"" }]);
    cut(&mut p, &d, head.len() - 3);
    let r = take_rec();
    check(p.tx(0).unwrap().request_transfer_coding == TC::CHUNKED, "transfer coding");
    check(p.tx(0).unwrap().request_headers.elements.len() == if trailer.is_empty() { 2 } else { 3 }, "trailer is a header");
    check(r.count(E_REQ_TRAILER, 0) == 1, "trailer hook once");
    check_bytes(&r.req_tdata[0], &cat(&[trailer, b"\r\n"]), "raw trailer data");
    done(&p, &r, &body, raw.len(), next);
}
/// Only part of the announced body arrives.
fn partial(have: usize, want: &[u8]) {
    let b = symv(have);
    let _ = take_rec();
    let mut p = parser(cfg0());
    let head = cat(&[b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: ", want, b"\r\n\r\n"]);
    let d = cat(&[&head, &b]);
    cut(&mut p, &d, head.len());
    let r = take_rec();
    let t = p.tx(0).unwrap();
    check_bytes(&r.req_body[0], &b, "body prefix delivered at once");
    check(t.request_progress == RP::BODY, "still in body");
    check(r.count(E_REQ_COMPLETE, 0) == 0 && r.count(E_REQ_BODY_END, 0) == 0, "not complete");
    check(t.request_entity_len as usize == have, "request entity length");
    obs_tx(t);
    reach("end");
}
const SIZES: [usize; 22] = [13, 15, 16, 17, 31, 32, 33, 99, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4097, 32768, 65535, 65536, 70001];
fn fill(n: usize) -> Vec<u8> { (0..n).map(|i| b'!' + (i % 90) as u8).collect() }
fn dec(n: usize) -> Vec<u8> { n.to_string().into_bytes() }
fn hex(n: usize, up: bool, z: usize) -> Vec<u8> {
    let mut v = vec![b'0'; z];
    v.extend_from_slice(if up { format!("{:X}", n) } else { format!("{:x}", n) }.as_bytes());
    v
}
/// Where to cut a long delivery: around the ends of the body and in its middle.
fn somewhere(head: usize, n: usize, all: usize) -> usize {
    let c = [head, head + 1, head + 2, head + 3, head + n / 2, head + n - 1, head + n, head + n + 1, head + n + 2, all];
    c[choose(10)].min(all)
}
fn large_cl() {
    let n = SIZES[choose(22)];
    let mut b = fill(n);
    b[n - 1] = sym_u8();
    let _ = take_rec();
    let mut p = parser(cfg0());
    let head = cat(&[b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: ", &dec(n), b"\r\n\r\n"]);
    let d = cat(&[&head, &b, NEXT]);
    let k = somewhere(head.len(), n, d.len());
    req_c(&mut p, &d[..k]);
    if k < d.len() { req_c(&mut p, &d[k..]); }
    let r = take_rec();
    check(p.tx(0).unwrap().request_content_length == Some(n as u64), "content length");
    done(&p, &r, &b, n, true);
}
fn large_ch() {
    let n = SIZES[choose(22)];
    let mut b = fill(n);
    b[n - 1] = sym_u8();
    let _ = take_rec();
    let mut p = parser(cfg0());
    let head = cat(&[b"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n"]);
    let raw = cat(&[&hex(n, choose(2) == 1, choose(2)), b"\r\n", &b, b"\r\n", &hex(n, false, 0), b"\r\n", &b, b"\r\n0\r\n"]);
    let d = cat(&[&head, &raw, b"\r\n", NEXT]);
    let k = somewhere(head.len() + 4, n, d.len());
    req_c(&mut p, &d[..k]);
    if k < d.len() { req_c(&mut p, &d[k..]); }
    let r = take_rec();
    done(&p, &r, &cat(&[&b, &b]), raw.len(), true);
}
/// Many small chunks, in pieces of any size.
fn many_ch(k: usize, piece: usize) {
    let b = symv(2);
    let mut raw = Vec::new();
    let mut body = Vec::new();
    for i in 0..k {
        let c = [b'0' + i as u8, b[i % 2]];
        let c = &c[..1 + i % 2];
        raw.extend_from_slice(&cat(&[&hex(c.len(), false, i % 3), if i % 4 == 1 { b";e" } else { b"" }, if i % 3 == 2 { b"\n" } else { b"\r\n" }, c, b"\r\n"]));
        body.extend_from_slice(c);
    }
    raw.extend_from_slice(b"0\r\n");
    let _ = take_rec();
    let mut p = parser(cfg0());
    req_c(&mut p, b"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n");
    for d in cat(&[&raw, b"\r\n", NEXT]).chunks(piece) { req_c(&mut p, d); }
    let r = take_rec();
    done(&p, &r, &body, raw.len(), true);
}
/// A body in three pieces.
fn cl3() {
    let b = symv(6);
    let _ = take_rec();
    let mut p = parser(cfg0());
    let d = cat(&[b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 6\r\n\r\n", &b, NEXT]);
    let h = d.len() - 6 - NEXT.len();
    let j = h - 2 + choose(9);
    let k = j + choose(h + 10 - j);
    if j > 0 { req_c(&mut p, &d[..j]); }
    if k > j { req_c(&mut p, &d[j..k]); }
    req_c(&mut p, &d[k..]);
    let r = take_rec();
    done(&p, &r, &b, 6, true);
}
/// Three bodies in a row: each request gets its own.
fn three() {
    let b = symv(5);
    let _ = take_rec();
    let mut p = parser(cfg0());
    let d = cat(&[b"POST /0 HTTP/1.1\r\nContent-Length: 2\r\n\r\n", &b[..2], b"PUT /1 HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\n", &b[2..4], b"\r\n0\r\n\r\nPOST /2 HTTP/1.1\r\nContent-Length: 1\r\n\r\n", &b[4..]]);
    cut(&mut p, &d, 1);
    let r = take_rec();
    check(p.tx_size() == 3, "three requests");
    for (i, (x, m)) in [(&b[..2], 2), (&b[2..4], 10), (&b[4..], 1)].iter().enumerate() {
        check_bytes(&r.req_body[i], x, "each request its own body");
        let t = p.tx(i).unwrap();
        check(t.request_message_len == *m && t.request_entity_len == x.len() as u64, "each request its own lengths");
        check_obytes(ob(&t.request_uri), Some(&[b'/', b'0' + i as u8]), "each request its own line");
        check(t.request_progress == RP::COMPLETE && r.count(E_REQ_COMPLETE, i) == 1, "each request complete once");
    }
}
harness! {
    fn h_c05_large_cl() { large_cl(); }
    fn h_c05_large_ch() { large_ch(); }
    fn h_c05_many() { many_ch(9, 1 + choose(12)); }
    fn h_c05_cl_3p() { cl3(); }
    fn h_c05_three() { three(); }
    fn h_c05_cl0() { cl(0, b" 0", true); }
    fn h_c05_cl1() { cl(1, b" 1", true); }
    fn h_c05_cl3() { cl(3, b" 3", true); }
    fn h_c05_cl5() { cl(5, b" 5", true); }
    fn h_c05_cl12() { cl(12, b" 12", true); }
    fn h_c05_clfmt() { cl(2, b"   0002  ", true); }
    fn h_c05_clend() { cl(4, b" 4", false); }
    fn h_c05_ch1() { chunked(&[(b"1\r\n", 1)], b"0\r\n", b"", true, b"chunked"); }
    fn h_c05_ch2() { chunked(&[(b"3\r\n", 3), (b"2\r\n", 2)], b"0\r\n", b"", true, b"chunked"); }
    fn h_c05_ch3() { chunked(&[(b"1\r\n", 1), (b"2;n=v\r\n", 2), (b"001 \r\n", 1)], b"0\r\n", b"", true, b"chunked"); }
    fn h_c05_chhex() { chunked(&[(b"a\r\n", 10), (b"0B\r\n", 11)], b"000\r\n", b"", true, b"chunked"); }
    fn h_c05_chlf() { chunked(&[(b"2\n", 2), (b"11\n", 17)], b"0\n", b"", true, b"chunked"); }
    fn h_c05_chtr() { chunked(&[(b"2\r\n", 2)], b"0\r\n", b"T: u\r\n", true, b"chunked"); }
    fn h_c05_chte() { chunked(&[(b"2\r\n", 2)], b"0\r\n", b"", true, b"gzip, Chunked"); }
    fn h_c05_chend() { chunked(&[(b"2\r\n", 2), (b"1\r\n", 1)], b"0\r\n", b"", false, b"chunked"); }
    fn h_c05_ch0() { chunked(&[], b"0\r\n", b"", true, b"chunked"); }
    fn h_c05_part() { partial(3, b"4"); }
    fn h_c05_part_big() { partial(2, b"18446744073709551615"); }
    fn h_c05_part_i64() { partial(2, b"9223372036854775808"); }
}
