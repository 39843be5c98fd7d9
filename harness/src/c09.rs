//! C09: the field limit bounds what is buffered, and nothing below it is refused.
use crate::{com::*, vp::*};
use htp::connection_parser::{ConnectionParser, HtpStreamState as S};
use htp::transaction::{HtpRequestProgress as QP, HtpResponseProgress as RP};
fn with(l: usize) -> ConnectionParser { let mut c = cfg0(); c.set_field_limit(l); parser(c) }
/// n symbolic bytes that do not delimit anything
fn text(n: usize) -> Vec<u8> { let v = symv(n); for c in &v { assume(*c > 32 && *c < 127 && *c != b':'); } v }
/// limit one below, at, one above, two above `n`
fn limit(n: usize) -> usize { n - 1 + choose(4) }
fn feed_req(p: &mut ConnectionParser, d: &[u8]) -> S { if d.is_empty() { S::DATA } else { req_c(p, d) } }
fn feed_res(p: &mut ConnectionParser, d: &[u8]) -> S { if d.is_empty() { S::DATA } else { res_c(p, d) } }
fn req_line(n: usize) {
    let line = cat(&[b"GET /", &text(n), b" HTTP/1.0\r\n"]);
    let l = limit(line.len());
    let mut p = with(l);
    let k = choose(line.len() + 1);
    let a = feed_req(&mut p, &line[..k]);
    if k <= l { check(a == S::DATA, "a line within the limit is not refused"); } else { check(a == S::ERROR, "more than the limit is never buffered"); return; }
    let b = feed_req(&mut p, &cat(&[&line[k..], b"\r\n"]));
    check((b == S::ERROR) == (line.len() > l), "a line is refused iff it exceeds the limit");
    if line.len() <= l { check(p.tx(0).unwrap().request_progress == QP::COMPLETE, "request complete"); }
    reach("end");
}
fn req_header(n: usize) {
    let h = cat(&[b"Xyzxyzxyzxyz: ", &text(n), b"\r\n"]);
    let l = limit(h.len());
    assume(l >= 16);
    let mut p = with(l);
    let k = choose(h.len() + 1);
    let a = feed_req(&mut p, &cat(&[b"GET / HTTP/1.0\r\nA: b\r\n", &h[..k]]));
    check((a == S::ERROR) == (k > l), "refused iff the unfinished header exceeds the limit");
    if k > l { return; }
    // and one more cut
    let j = k + choose(h.len() + 1 - k);
    let b = feed_req(&mut p, &h[k..j]);
    check((b == S::ERROR) == (j > l), "refused iff the unfinished header exceeds the limit (2)");
    if j > l { return; }
    let c = feed_req(&mut p, &cat(&[&h[j..], b"\r\n"]));
    check(c == S::DATA, "a finished header is not refused");
    let t = p.tx(0).unwrap();
    check(t.request_progress == QP::COMPLETE, "request complete");
    check(t.request_headers.elements.len() == 2, "both headers");
    reach("end");
}
fn res_line(n: usize) {
    let line = cat(&[b"HTTP/1.0 200 ", &text(n), b"\r\n"]);
    let l = limit(line.len());
    let mut p = with(l);
    req(&mut p, b"GET / HTTP/1.0\r\n\r\n");
    let k = choose(line.len() + 1);
    let a = feed_res(&mut p, &line[..k]);
    if k <= l { check(a == S::DATA, "a line within the limit is not refused"); } else { check(a == S::ERROR, "more than the limit is never buffered"); return; }
    let b = feed_res(&mut p, &cat(&[&line[k..], b"\r\n"]));
    check((b == S::ERROR) == (line.len() > l), "a line is refused iff it exceeds the limit");
    reach("end");
}
fn res_header(n: usize) {
    let h = cat(&[b"Xyzxyzxyzxyzxyz: ", &text(n), b"\r\n"]);
    let l = limit(h.len());
    assume(l >= 17);
    let mut p = with(l);
    req(&mut p, b"GET / HTTP/1.0\r\n\r\n");
    let k = choose(h.len() + 1);
    let a = feed_res(&mut p, &cat(&[b"HTTP/1.0 200 OK\r\nA: b\r\n", &h[..k]]));
    // the response side keeps a finished header until it knows what follows
    check(!(k <= l && a == S::ERROR), "an unfinished header within the limit is not refused");
    if k > l && k < h.len() { check(a == S::ERROR, "refused iff the unfinished header exceeds the limit"); }
    if a == S::ERROR { return; }
    let b = feed_res(&mut p, &cat(&[&h[k..], b"Content-Length: 0\r\n\r\n"]));
    check(b == S::DATA, "a finished header is not refused");
    let t = p.tx(0).unwrap();
    check(t.response_progress == RP::COMPLETE, "response complete");
    check(t.response_headers.elements.len() == 3, "all headers");
    reach("end");
}
/// A line that never ends: in pieces of any size, the stream ends as soon as more than the limit would be kept.
fn endless(pre: &[u8], skip: usize, response: bool) {
    let l = 20 + choose(2);
    let mut p = with(l);
    if response { req(&mut p, b"GET / HTTP/1.0\r\n\r\n"); }
    let step = 1 + choose(6);
    let mut d = pre.to_vec();
    d.extend_from_slice(&text(3));
    while d.len() < l + skip + 8 { d.push(b'x'); }
    let mut at = 0;
    let mut sent = 0;
    let mut st = S::DATA;
    while at < d.len() {
        let e = if at + step > d.len() { d.len() } else { at + step };
        st = if response { res_c(&mut p, &d[at..e]) } else { req_c(&mut p, &d[at..e]) };
        at = e;
        sent = e - if e > skip { skip } else { e };
        check((st == S::ERROR) == (sent > l), "the stream ends exactly when the limit is exceeded");
        if st == S::ERROR { break; }
    }
    check(st == S::ERROR, "an endless line ends the stream");
    // and it stays ended
    let z = if response { res(&mut p, b"\n") } else { req(&mut p, b"\n") };
    check(z == S::ERROR, "stays ended");
}
fn body(response: bool) {
    // bodies are not limited
    let l = 17;
    let mut p = with(l);
    let _ = take_rec();
    let b = symv(40);
    if response {
        req(&mut p, b"GET / HTTP/1.0\r\n\r\n");
        res_c(&mut p, b"HTTP/1.0 200 OK\r\nContent-Length: 40\r\n\r\n");
        check(res_c(&mut p, &b[..30]) == S::DATA && res_c(&mut p, &b[30..]) == S::DATA, "a body larger than the limit is not refused");
        check_bytes(&take_peek().res_body[0], &b, "body");
    } else {
        req_c(&mut p, b"PUT / HTTP/1.0\r\nContent-Length: 40\r\n\r\n");
        check(req_c(&mut p, &b[..30]) == S::DATA && req_c(&mut p, &b[30..]) == S::DATA, "a body larger than the limit is not refused");
        check_bytes(&take_peek().req_body[0], &b, "body");
    }
}
fn chunk(response: bool) {
    // a chunk-length line with an extension, cut anywhere
    let line = cat(&[b"3;", &text(16), b"\r\n"]);
    let l = limit(line.len());
    assume(l >= 17);
    let mut p = with(l);
    let _ = take_rec();
    if response {
        req(&mut p, b"GET / HTTP/1.0\r\n\r\n");
        res_c(&mut p, b"HTTP/1.1 200 OK\r\n");
        res_c(&mut p, b"A: b\r\nTransfer-Encoding: chunked\r\n\r\n");
    } else {
        req_c(&mut p, b"PUT / HTTP/1.1\r\n");
        req_c(&mut p, b"Transfer-Encoding: chunked\r\n\r\n");
    }
    let k = choose(line.len() + 1);
    let a = if response { feed_res(&mut p, &line[..k]) } else { feed_req(&mut p, &line[..k]) };
    // the line's last byte ends it: only what is unfinished counts
    check(!(k <= l && a == S::ERROR), "a chunk length line within the limit is not refused");
    if k > l && k < line.len() { check(a == S::ERROR, "an unfinished chunk length line is never buffered beyond the limit"); }
    if a == S::ERROR { return; }
    let rest = cat(&[&line[k..], b"abc\r\n0\r\n\r\n"]);
    let b = if response { res_c(&mut p, &rest) } else { req_c(&mut p, &rest) };
    if line.len() <= l {
        check(b == S::DATA, "not refused");
        check_bytes(if response { &take_peek().res_body[0] } else { &take_peek().req_body[0] }, b"abc", "body");
    } else if k > 0 && k < line.len() {
        check(b == S::ERROR, "a line in two pieces is never kept beyond the limit");
    }
    reach("end");
}
/// The default limit.
fn default(kind: usize) {
    let mut p = parser(cfg0());
    let l = 18000usize;
    let n = l - 1 + choose(3);
    let x = text(1)[0];
    let (pre, head): (&[u8], &[u8]) = match kind { 0 => (b"", b"GET /"), 1 => (b"GET / HTTP/1.0\r\n", b"Abc: "), 2 => (b"", b"HTTP/1.0 200 "), _ => (b"HTTP/1.0 200 OK\r\n", b"Abc: ") };
    let mut line = head.to_vec();
    while line.len() < n { line.push(b'x'); }
    line[head.len() + 3] = x;
    let response = kind >= 2;
    if response { req(&mut p, b"GET / HTTP/1.0\r\n\r\n"); }
    let step = [n, 9000, 1400, n - 1][choose(4)];
    let mut st = S::DATA;
    let mut first = true;
    for d in line.chunks(step) {
        let d = if first { cat(&[pre, d]) } else { d.to_vec() };
        first = false;
        st = if response { res_c(&mut p, &d) } else { req_c(&mut p, &d) };
        if st != S::DATA { break; }
    }
    check(st == if n <= l { S::DATA } else { S::ERROR }, "the default limit is 18000");
}
harness! {
    fn h_c09_default_qline() { default(0) }
    fn h_c09_default_qhdr() { default(1) }
    fn h_c09_default_sline() { default(2) }
    fn h_c09_default_shdr() { default(3) }
    fn h_c09_req_line() { req_line(2) }
    fn h_c09_req_header() { req_header(3) }
    fn h_c09_res_line() { res_line(3) }
    fn h_c09_res_header() { res_header(3) }
    fn h_c09_endless_req() { endless(b"GET /", 0, false) }
    fn h_c09_endless_req_ws() { endless(b"", 0, false) }
    fn h_c09_endless_req_hdr() { endless(b"GET / HTTP/1.0\r\nA: ", 16, false) }
    fn h_c09_endless_req_name() { endless(b"GET / HTTP/1.0\r\nA", 16, false) }
    fn h_c09_endless_res() { endless(b"HTTP/1.0 2", 0, true) }
    fn h_c09_endless_res_hdr() { endless(b"HTTP/1.0 200 OK\r\nA: ", 17, true) }
    fn h_c09_endless_res_name() { endless(b"HTTP/1.0 200 OK\r\nA", 17, true) }
    fn h_c09_endless_after_req() { endless(b"GET / HTTP/1.0\r\n\r\nPUT", 18, false) }
    fn h_c09_body_req() { body(false) }
    fn h_c09_body_res() { body(true) }
    fn h_c09_chunk_req() { chunk(false) }
    fn h_c09_chunk_res() { chunk(true) }
    fn h_c09_req_line_x() { req_line(4) }
    fn h_c09_req_header_x() { req_header(20) }
    fn h_c09_res_line_x() { res_line(20) }
    fn h_c09_res_header_x() { res_header(20) }
}
