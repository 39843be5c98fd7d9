//! C13: the response line is split exactly, and what is not one is body.
use crate::{com::*, vp::*};
use htp::connection_parser::HtpStreamState as S;
use htp::transaction::{HtpProtocol as PR, HtpResponseNumber as RN, HtpResponseProgress as RP};
use htp::util::HtpFlags as F;
fn sp(c: u8) -> bool { c == b' ' || (c >= 9 && c <= 13) }
fn low(c: u8) -> u8 { if c >= b'A' && c <= b'Z' { c + 32 } else { c } }
fn is_http(l: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < l.len() && (sp(l[i]) || l[i] == 0) { i += 1; }
    if l.len() < i + 4 { return None; }
    if low(l[i]) == b'h' && low(l[i + 1]) == b't' && low(l[i + 2]) == b't' && low(l[i + 3]) == b'p' { Some(i) } else { None }
}
fn blank(l: &[u8]) -> bool { for c in l { if !sp(*c) { return false; } } true }
fn status_of(s: &[u8]) -> Option<u16> {
    let mut n = 0u32;
    for c in s { if *c < b'0' || *c > b'9' { return None; } n = n * 10 + (*c - b'0') as u32; }
    if n >= 100 && n <= 999 { Some(n as u16) } else { None }
}
fn run(line: &[u8], eol: &[u8]) { run_after(line, eol, None) }
/// The line after interim responses, if any.
fn run_after(line: &[u8], eol: &[u8], interim: Option<&[u8]>) {
    for x in line { assume(*x != b'\n' && *x != b'\r'); }
    assume(!line.is_empty());
    let _ = take_rec();
    let mut p = parser(cfg0());
    req(&mut p, b"GET / HTTP/1.1\r\n\r\n");
    let start = is_http(line);
    if let Some(d) = interim {
        assume(start.is_some());
        res_c(&mut p, d);
        // the hooks of the interim response
        let _ = take_rec();
        check(p.tx(0).unwrap().response_progress == RP::LINE && p.tx(0).unwrap().seen_100continue, "interim response skipped");
    }
    let whole = cat(&[line, eol]);
    if let Some(a) = start {
        res_c(&mut p, &cat(&[&whole, b"A: b\r\nContent-Length: 0\r\n\r\n"]));
        let t = p.tx(0).unwrap();
        obs_tx(t);
        check_obytes(ob(&t.response_line), Some(&whole), "response line kept");
        let mut b = a;
        while b < line.len() && !sp(line[b]) { b += 1; }
        let mut c = b;
        while c < line.len() && sp(line[c]) { c += 1; }
        let mut d = c;
        while d < line.len() && !sp(line[d]) { d += 1; }
        let mut e = d;
        while e < line.len() && sp(line[e]) { if line[e] == 11 { assume(false); } e += 1; }
        check_obytes(ob(&t.response_protocol), Some(&line[a..b]), "response protocol");
        check_obytes(ob(&t.response_status), if c < d { Some(&line[c..d]) } else { None }, "response status");
        check_obytes(ob(&t.response_message), if c < d { Some(&line[e..]) } else { None }, "response message");
        let want = status_of(&line[c..d]);
        check(t.response_status_number == match want { Some(n) => RN::VALID(n), None => RN::INVALID }, "response status number");
        let pr: Vec<u8> = line[a..b].iter().map(|c| if *c >= b'a' && *c <= b'z' { *c - 32 } else { *c }).collect();
        if eqb(&pr, b"HTTP/1.1") != 0 { check(t.response_protocol_number == PR::V1_1, "HTTP/1.1"); }
        else if eqb(&pr, b"HTTP/1.0") != 0 { check(t.response_protocol_number == PR::V1_0, "HTTP/1.0"); }
        else if eqb(&pr, b"HTTP/0.9") != 0 { check(t.response_protocol_number == PR::V0_9, "HTTP/0.9"); }
        else { check(t.response_protocol_number == PR::INVALID || pr.len() != 8, "any other protocol of that length is invalid"); }
        check((t.flags & F::STATUS_LINE_INVALID != 0) == (want.is_none() || t.response_protocol_number == PR::INVALID), "STATUS_LINE_INVALID");
        let r = take_peek();
        check(r.count(E_RES_LINE, 0) == 1, "response line hook");
        check(r.res_body[0].is_empty(), "no body");
        if want != Some(100) && want != Some(101) {
            check(t.response_headers.elements.len() == 2, "headers follow the line");
            check(t.response_progress == RP::COMPLETE, "response complete");
        }
        reach("line");
    } else {
        res_c(&mut p, &whole);
        p.close(ts());
        let t = p.tx(0).unwrap();
        obs_tx(t);
        check(t.response_line.is_none() && t.response_protocol.is_none() && t.response_status.is_none() && t.response_message.is_none(), "nothing is parsed from a body line");
        check_bytes(&take_peek().res_body[0], &whole, "a line that is no response line is body");
        check(t.response_message_len as usize == whole.len(), "response message length");
        check(t.response_progress == RP::COMPLETE, "response complete after close");
        check(take_peek().count(E_RES_COMPLETE, 0) == 1, "response complete hook");
        reach("body");
    }
}
fn eol() -> &'static [u8] { if choose(2) == 0 { b"\r\n" } else { b"\n" } }
fn tpl(pre: &[u8], n: usize, post: &[u8]) { let l = cat(&[pre, &symv(n), post]); run(&l, b"\r\n") }
fn ignored() {
    // empty lines before the response line are skipped and counted
    let n = choose(4);
    let mut d = Vec::new();
    for _ in 0..n { d.extend_from_slice(eol()); }
    let s = sym::<3>();
    for c in s { assume(c >= b'2' && c <= b'9'); }
    let d = cat(&[&d, b"HTTP/1.1 ", &s, b" X\r\nContent-Length: 0\r\n\r\n"]);
    let mut p = parser(cfg0());
    req(&mut p, b"GET / HTTP/1.1\r\n\r\n");
    res_c(&mut p, &d);
    let t = p.tx(0).unwrap();
    check(t.response_ignored_lines as usize == n, "ignored lines counted");
    check_obytes(ob(&t.response_status), Some(&s), "status after ignored lines");
    check(t.response_progress == RP::COMPLETE, "complete after ignored lines");
}
fn again() {
    // an interim response leaves nothing behind in the final one
    let s = sym::<2>();
    for c in s { assume(c == b' ' || (c >= b'A' && c <= b'Z')); }
    let mut p = parser(cfg0());
    req(&mut p, b"GET / HTTP/1.1\r\n\r\n");
    res_c(&mut p, b"HTTP/1.1 100 Continue\r\nX: y\r\n\r\n");
    let l = cat(&[b"HTTP/1.0 404", &s]);
    res_c(&mut p, &cat(&[&l, b"\r\nContent-Length: 0\r\n\r\n"]));
    let t = p.tx(0).unwrap();
    obs_tx(t);
    check(t.seen_100continue, "100 seen");
    check(t.response_headers.elements.len() == 1, "interim headers are gone");
    check(t.response_protocol_number == PR::V1_0, "protocol of the final response");
    match s[0] {
        b' ' => {
            check(t.response_status_number == RN::VALID(404), "status of the final response");
            check_obytes(ob(&t.response_message), Some(if s[1] == b' ' { b"" } else { &s[1..] }), "message of the final response");
        }
        _ => {
            check(t.response_status_number == RN::INVALID, "invalid status of the final response");
        }
    }
}
const INTERIM: [&[u8]; 3] = [b"HTTP/1.1 100 Continue\r\nX: y\r\nZ: 1\r\n\r\n", b"HTTP/1.1 100 Go On\r\n\r\nHTTP/1.0 100\r\nContent-Length: 0\r\n\r\n", b"hTTp/1.1 100 X\nA: b\n\n"];
fn after(pre: &[u8], n: usize, post: &[u8]) { let l = cat(&[pre, &symv(n), post]); run_after(&l, b"\r\n", Some(INTERIM[choose(3)])) }
harness! {
    fn h_c13_after_none() { after(b"HTTP/1.1", 1, b"") }
    fn h_c13_after_http() { after(b"HTTP", 2, b"") }
    fn h_c13_after_st() { after(b"HTTP/1.0 ", 2, b"") }
    fn h_c13_after_msg() { after(b"HTTP/1.1 200", 2, b"") }
    fn h_c13_after_proto() { after(b"HTTP/", 3, b" 404 N") }
    fn h_c13_long_msg() { tpl(&cat(&[b"HTTP/1.1 404 ", &vec![b'm'; 5000]]), 2, b" found") }
    fn h_c13_long_proto() { tpl(&cat(&[b"HTTP/", &vec![b'1'; 400]]), 2, b"200 OK") }
    fn h_c13_long_status() { tpl(&cat(&[b"HTTP/1.1 ", &vec![b'0'; 300]]), 2, b"7 OK") }
    fn h_c13_free() { let l = symv(5); run(&l, eol()) }
    fn h_c13_http() { tpl(b"HtTp", 3, b"") }
    fn h_c13_sep1() { tpl(b"HTTP/1.1", 2, b"200 OK") }
    fn h_c13_sep2() { tpl(b"HTTP/1.0 200", 3, b"OK") }
    fn h_c13_status() { tpl(b"HTTP/1.1 ", 4, b" OK") }
    fn h_c13_status3() { tpl(b"HTTP/1.1 ", 3, b"") }
    fn h_c13_msg() { tpl(b"HTTP/1.1 404 ", 3, b" found") }
    fn h_c13_proto() { let l = cat(&[b"HTTP", &sym::<1>(), &sym::<1>(), b".", &sym::<1>(), b" 200 OK"]); run(&l, eol()) }
    fn h_c13_lead() { tpl(b"", 2, b"HTTP/1.1 200 OK") }
    fn h_c13_word() { tpl(b"H", 3, b"/1.1 200 OK") }
    fn h_c13_ignored() { ignored() }
    fn h_c13_again() { again() }
    fn h_c13_free_x() { let l = symv(7); run(&l, eol()) }
    fn h_c13_sep_x() { tpl(b"HTTP/1.1", 3, b"20") }
    fn h_c13_status_x() { tpl(b"HTTP/1.1 ", 5, b"") }
    fn h_c13_lead_x() { tpl(b"", 4, b"HTTP/1.1 200 OK") }
}
