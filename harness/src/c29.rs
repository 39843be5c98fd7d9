//! C29: malformed framing and stray data are contained: nothing is lost, repeated or taken for something else.
use crate::{com::*, vp::*};
use htp::connection_parser::{ConnectionParser, HtpStreamState as S};
use htp::transaction::{HtpRequestProgress as QP, HtpResponseProgress as RP, HtpTransferCoding as TC};
const GET: &[u8] = b"GET / HTTP/1.1\r\nHost: a\r\n\r\n";
const CH: &[u8] = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n";
const QH: &[u8] = b"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n";
const HEX: [u8; 256] = tab(b"0123456789abcdefABCDEF");
const CTL: [u8; 256] = tab(b"\r\n \t\x0b\x0c");
fn cut(p: &mut ConnectionParser, d: &[u8], from: usize, request: bool) -> S {
    let k = from + choose(d.len() + 1 - from);
    let mut s = S::OPEN;
    for x in [&d[..k], &d[k..]] { if !x.is_empty() { s = if request { req(p, x) } else { res(p, x) }; } }
    s
}
/// A chunk-length line that is none: it and all that follows is body.
fn res_bad(pre: &[u8], pre_body: &[u8], line: &[u8], tail: &[u8]) {
    let _ = take_rec();
    let mut p = parser(cfg0());
    req_c(&mut p, &cat(&[GET, GET]));
    let d = cat(&[CH, pre, line, tail]);
    let s = cut(&mut p, &d, CH.len(), false);
    check(s == S::DATA, "accepted");
    check(p.tx(0).unwrap().response_progress == RP::BODY, "not complete before the close");
    check(p.tx(0).unwrap().response_transfer_coding == TC::IDENTITY, "no longer chunked");
    p.close(ts());
    let r = take_rec();
    let t = p.tx(0).unwrap();
    let want = cat(&[pre_body, line, tail]);
    check_bytes(&r.res_body[0], &want, "body delivered exactly");
    check(t.response_entity_len as usize == want.len(), "entity length");
    check(t.response_progress == RP::COMPLETE && r.count(E_RES_COMPLETE, 0) == 1, "complete at the close");
    check(r.res_body[1].is_empty() && p.tx(1).unwrap().response_status.is_none(), "no second response");
    obs_tx(t);
}
fn bad_line(n: usize, lead: bool) -> Vec<u8> {
    let b = symv(n);
    for c in &b { assume(*c != b'\n'); }
    // the first byte that is no control character is no digit
    let i = if lead { assume_tab(b[0], &CTL); 1 } else { 0 };
    assume(CTL[b[i] as usize] == 0 && HEX[b[i] as usize] == 0);
    b
}
fn res_bad_line(lead: bool) {
    let b = bad_line(3, lead);
    let t = symv(1);
    let (pre, body): (&[u8], &[u8]) = [(&b""[..], &b""[..]), (b"2\r\nab\r\n", b"ab")][choose(2)];
    res_bad(pre, body, &cat(&[&b, b"\r\n"]), &cat(&[&t, b"\r\n2\r\nzz\r\nHTTP/1.1 200 OK\r\n\r\n"]));
}
/// The same with lines of any length, cut anywhere near their ends.
fn res_bad_long() {
    let mut b = bad_line(2, false);
    let n = [10usize, 31, 32, 33, 63, 65, 300, 4097][choose(8)];
    while b.len() < n { b.push(b'y'); }
    let _ = take_rec();
    let mut p = parser(cfg0());
    req_c(&mut p, GET);
    res_c(&mut p, CH);
    let k = [0, 1, 2, n - 1, n, n + 1][choose(6)];
    let d = cat(&[&b, b"\r\n", &symv(1), b"\r\nmore"]);
    for x in [&d[..k], &d[k..]] { if !x.is_empty() { check(res(&mut p, x) == S::DATA, "accepted"); } }
    p.close(ts());
    check_bytes(&take_peek().res_body[0], &d, "body delivered exactly");
}
/// A chunk-length line of a request that is none ends the stream.
fn req_bad(line: &[u8], tail: &[u8]) {
    let _ = take_rec();
    let mut p = parser(cfg0());
    let (pre, body): (&[u8], &[u8]) = [(&b""[..], &b""[..]), (b"2\r\nab\r\n", b"ab")][choose(2)];
    let d = cat(&[QH, pre, line, b"\n", tail]);
    let s = cut(&mut p, &d, QH.len(), true);
    check(s == S::ERROR, "refused");
    check(req(&mut p, GET) == S::ERROR, "for good");
    let r = take_rec();
    check_bytes(&r.req_body[0], body, "what came before is delivered, and nothing else");
    let t = p.tx(0).unwrap();
    check(t.request_progress == QP::BODY && r.count(E_REQ_COMPLETE, 0) == 0 && r.count(E_REQ_TRAILER, 0) == 0, "not complete");
    check(p.tx_size() == 1, "no other request");
    obs_tx(t);
}
/// Lines behind a complete message, in the same piece, that begin no other are its body.
fn stray_req(m: &[u8], body: &[u8], done: bool) {
    let b = symv(3);
    for c in &b { assume(*c != b'\n'); }
    // no method: it starts with no capital letter, and blanks before a method are skipped
    assume(!(b[0] >= b'A' && b[0] <= b'Z') && !(b[0] >= 9 && b[0] <= 13) && b[0] != b' ');
    let _ = take_rec();
    let mut p = parser(cfg0());
    let s = req(&mut p, &cat(&[m, &b, b" x\r\n\r\nGET /n HTTP/1.1\r\nHost: b\r\n\r\n"]));
    check(s == S::DATA, "accepted");
    let r = take_rec();
    check_bytes(&r.req_body[0], &cat(&[body, &b, b" x\r\n\r\n"]), "stray lines are body");
    check(p.tx_size() >= 2, "the next request");
    let t = p.tx(0).unwrap();
    check(t.request_progress == QP::COMPLETE && r.count(E_REQ_COMPLETE, 0) == 1, "complete once");
    let n = p.tx(1).unwrap();
    check_obytes(ob(&n.request_uri), Some(b"/n"), "the next request is parsed");
    check(n.request_progress == QP::COMPLETE && n.request_headers.elements.len() == 1 && r.req_body[1].is_empty(), "and nothing of it is lost");
    let _ = done;
    obs_tx(t);
}
fn stray_res(m: &[u8], body: &[u8]) {
    let b = symv(3);
    for c in &b { assume(*c != b'\n'); }
    // not "http", after blanks and NULs
    assume(b[0] != b'h' && b[0] != b'H' && !(b[0] >= 9 && b[0] <= 13) && b[0] != b' ' && b[0] != 0);
    let _ = take_rec();
    let mut p = parser(cfg0());
    req_c(&mut p, &cat(&[GET, GET]));
    let s = res(&mut p, &cat(&[m, &b, b" x\r\nHTTP/1.1 288 N\r\nContent-Length: 1\r\n\r\ny"]));
    check(s == S::DATA, "accepted");
    let r = take_rec();
    check_bytes(&r.res_body[0], &cat(&[body, &b, b" x\r\n"]), "stray lines are body");
    let t = p.tx(0).unwrap();
    check(t.response_progress == RP::COMPLETE && r.count(E_RES_COMPLETE, 0) == 1, "complete once");
    let n = p.tx(1).unwrap();
    check_obytes(ob(&n.response_status), Some(b"288"), "the next response is parsed");
    check_bytes(&r.res_body[1], b"y", "and nothing of it is lost");
    check(n.response_progress == RP::COMPLETE, "complete");
    obs_tx(t);
}
harness! {
    fn h_c29_res_bad_long() { res_bad_long() }
    fn h_c29_res_line() { res_bad_line(false) }
    fn h_c29_res_lead() { res_bad_line(true) }
    fn h_c29_res_over() { let b = symv(1); assume_tab(b[0], &HEX); assume(b[0] != b'0'); res_bad(b"", b"", &cat(&[&b, b"fffFFFF00000000f\r\n"]), b"x\r\n") }
    fn h_c29_req_line() { let b = bad_line(3, false); req_bad(&cat(&[&b, b"\r"]), b"x\r\n") }
    fn h_c29_req_lead() { let b = bad_line(3, true); req_bad(&b, b"x\r\n") }
    fn h_c29_req_over() { let b = symv(2); for c in &b { assume_tab(*c, &HEX); } assume(b[0] >= b'8'); req_bad(&cat(&[&b, b"000000\r"]), b"x\r\n") }
    fn h_c29_req_over16() { let b = symv(1); assume_tab(b[0], &HEX); assume(b[0] != b'0'); req_bad(&cat(&[&b, b"fffFFFF00000000f\r"]), b"x\r\n") }
    fn h_c29_stray_get() { stray_req(GET, b"", true) }
    fn h_c29_stray_cl() { stray_req(b"PUT / HTTP/1.1\r\nHost: a\r\nContent-Length: 2\r\n\r\nab", b"ab", true) }
    fn h_c29_stray_ch() { stray_req(&cat(&[QH, b"2\r\nab\r\n0\r\n\r\n"]), b"ab", true) }
    fn h_c29_stray_rcl() { stray_res(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nab", b"ab") }
    fn h_c29_stray_rcl0() { stray_res(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", b"") }
    fn h_c29_stray_rch() { stray_res(&cat(&[CH, b"2\r\nab\r\n0\r\n\r\n"]), b"ab") }
    fn h_c29_stray_rno() { stray_res(b"HTTP/1.1 204 OK\r\nA: b\r\n\r\n", b"") }
}
