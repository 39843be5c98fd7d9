//! C24: CONNECT, protocol upgrades and interim responses switch the connection exactly when they should.
use crate::{com::*, vp::*};
use htp::connection_parser::{ConnectionParser, HtpStreamState as S};
use htp::transaction::{HtpRequestProgress as QP, HtpResponseNumber as RN, HtpResponseProgress as RP, HtpTransferCoding as TC};
const C: &[u8] = b"CONNECT h:80 HTTP/1.1\r\nHost: h\r\n\r\n";
const NEXT: &[u8] = b"GET /n HTTP/1.1\r\nHost: h\r\n\r\n";
const R200: &[u8] = b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n";
fn digits() -> [u8; 2] { let d: [u8; 2] = sym(); for c in d { assume(c >= b'0' && c <= b'9'); } d }
/// Both directions ignore everything from now on.
fn tunnelled(p: &mut ConnectionParser, n: usize) {
    let before = take_rec();
    let txs = p.tx_size();
    let (a, b) = (symv(n), symv(n));
    check(req(p, &a) == S::TUNNEL, "request side is tunnelled");
    check(res(p, &b) == S::TUNNEL, "response side is tunnelled");
    check(req(p, NEXT) == S::TUNNEL && res(p, R200) == S::TUNNEL, "and stays so");
    check(p.tx_size() == txs, "no transaction in a tunnel");
    check(take_rec().ev.is_empty(), "no hook in a tunnel");
    let _ = before;
}
/// The next request and response are parsed as usual, as transaction `i`.
fn http(p: &mut ConnectionParser, i: usize, send: bool) {
    if send { check(req_c(p, NEXT) == S::DATA, "request accepted"); }
    check(p.tx_size() == i + 1, "a new transaction");
    res_c(p, b"HTTP/1.1 277 X\r\nContent-Length: 0\r\n\r\n");
    match p.tx(i) {
        Some(t) => {
            check_obytes(ob(&t.request_uri), Some(b"/n"), "next request");
            check(t.response_status_number == RN::VALID(277), "next response");
            check(t.request_progress == QP::COMPLETE && t.response_progress == RP::COMPLETE, "next transaction complete");
        }
        None => check(false, "a new transaction"),
    }
}
/// CONNECT with `extra` behind it in the same chunk waits for the response.
fn connect_wait() {
    let _ = take_rec();
    let mut p = parser(cfg0());
    let x = symv(2);
    let with = choose(2) == 1;
    let d = if with { cat(&[C, &x]) } else { C.to_vec() };
    let st = req_c(&mut p, &d);
    check(st == if with { S::DATA_OTHER } else { S::DATA }, "CONNECT waits");
    if with { check(p.request_data_consumed() == C.len(), "nothing behind CONNECT is consumed"); }
    let n = take_peek().ev.len();
    let st = req_c(&mut p, &x);
    check(st == S::DATA_OTHER && p.request_data_consumed() == 0, "still waiting");
    check(take_peek().ev.len() == n, "no hook while waiting");
    check(p.tx_size() == 1, "no transaction while waiting");
}
/// Client data offered at any point of the response: it is not touched before the status line is complete, and the outcome is the same.
fn connect_early(tunnel: bool) {
    let _ = take_rec();
    let mut p = parser(cfg0());
    req_c(&mut p, C);
    let f = sym_u8();
    if tunnel { assume(f == b'2'); } else { assume(f >= b'2' && f <= b'9'); }
    let line = cat(&[b"HTTP/1.1 ", &[f], b"04 X\r\n"]);
    let r = cat(&[&line, b"Content-Length: 0\r\n\r\n"]);
    let k = choose(r.len() + 1);
    if k > 0 { res(&mut p, &r[..k]); }
    let x: &[u8] = if tunnel { b"\x16\x03 z\n" } else { NEXT };
    let n = take_peek().ev.len();
    let st = req(&mut p, x);
    if k < line.len() {
        check(st == S::DATA_OTHER && p.request_data_consumed() == 0, "nothing is consumed before the status is known");
        check(take_peek().ev.len() == n, "no hook while waiting");
        check(p.tx_size() == 1, "no transaction while waiting");
    }
    if k < r.len() { res(&mut p, &r[k..]); }
    if st == S::DATA_OTHER { let c = p.request_data_consumed(); req(&mut p, &x[c..]); }
    if tunnel { tunnelled(&mut p, 1); reach("tunnel"); } else { http(&mut p, 1, false); reach("http"); }
    if !tunnel { check(p.tx(0).unwrap().request_progress == QP::COMPLETE, "CONNECT request complete"); }
}
/// Any status: 2xx opens the tunnel for anything but HTTP, anything else leaves HTTP.
fn connect_status() {
    let _ = take_rec();
    let mut p = parser(cfg0());
    req_c(&mut p, C);
    let f = sym_u8();
    assume(f >= b'2' && f <= b'9');
    let d = digits();
    let st = cat(&[b"HTTP/1.1 ", &[f], &d, b" X\r\nContent-Length: 0\r\n\r\n"]);
    // a response that needs no body: the transaction ends here
    res_c(&mut p, &st);
    if f == b'2' {
        let x = sym::<3>();
        for c in x { assume(c != b' ' && c != b'\n' && !(c >= 9 && c <= 13) && c != 0); }
        // three bytes that are not a method
        assume(eqb(&x, b"GET") == 0 && eqb(&x, b"PUT") == 0);
        let r = req(&mut p, &cat(&[&x, b" y\n"]));
        check(r == S::TUNNEL, "anything but HTTP is tunnelled");
        tunnelled(&mut p, 3);
        reach("tunnel");
    } else {
        http(&mut p, 1, true);
        check(p.tx(0).unwrap().request_progress == QP::COMPLETE, "CONNECT request complete");
        reach("http");
    }
}
/// A status that is no number is neither a success nor a refusal.
fn bad() -> [u8; 3] {
    let s: [u8; 3] = sym();
    for c in s { assume(c > 32 && c < 127); }
    assume(s.iter().any(|c| !c.is_ascii_digit()));
    s
}
fn connect_bad() {
    let _ = take_rec();
    let mut p = parser(cfg0());
    req_c(&mut p, C);
    let s = bad();
    res_c(&mut p, &cat(&[b"HTTP/1.1 ", &s, b" X\r\nContent-Length: 0\r\n\r\n"]));
    http(&mut p, 1, true);
    check(p.tx(0).unwrap().request_progress == QP::COMPLETE, "CONNECT request complete");
}
fn expect_bad() {
    let _ = take_rec();
    let mut p = parser(cfg0());
    req_c(&mut p, b"PUT / HTTP/1.1\r\nHost: h\r\nExpect: 100-continue\r\nContent-Length: 5\r\n\r\n");
    let s = bad();
    res_c(&mut p, &cat(&[b"HTTP/1.1 ", &s, b" X\r\nContent-Length: 0\r\n\r\n"]));
    let b = symv(5);
    req_c(&mut p, &cat(&[&b, NEXT]));
    check_bytes(&take_peek().req_body[0], &b, "the body is sent all the same");
    http(&mut p, 1, false);
}
/// After a successful CONNECT, HTTP inside goes on being parsed, however it is cut.
fn connect_http() {
    let _ = take_rec();
    let mut p = parser(cfg0());
    req_c(&mut p, C);
    let d = digits();
    res_c(&mut p, &cat(&[b"HTTP/1.1 2", &d, b" X\r\n\r\n"]));
    check(p.tx(0).unwrap().response_progress == RP::COMPLETE, "CONNECT response complete");
    let k = choose(NEXT.len());
    if k > 0 { check(req(&mut p, &NEXT[..k]) == S::DATA, "first piece"); }
    check(req(&mut p, &NEXT[k..]) == S::DATA, "second piece");
    http(&mut p, 1, false);
    check(p.tx(0).unwrap().request_progress == QP::COMPLETE, "CONNECT request complete");
}
/// Any method, not only short ones.
fn connect_methods() {
    const M: [&[u8]; 9] = [b"DELETE", b"OPTIONS", b"POST", b"HEAD", b"PATCH", b"TRACE", b"PROPPATCH", b"VERSION-CONTROL", b"BASELINE-CONTROL"];
    let _ = take_rec();
    let mut p = parser(cfg0());
    req_c(&mut p, C);
    res_c(&mut p, b"HTTP/1.1 200 X\r\n\r\n");
    let m = M[choose(9)];
    let l = sym_u8();
    assume(l >= b'a' && l <= b'z');
    let d = cat(&[m, b" /n HTTP/1.1\r\nHost: ", &[l], b"\r\n\r\n"]);
    let k = choose(m.len() + 12);
    let j = choose(k + 1);
    for c in [&d[..j], &d[j..k], &d[k..]] { if !c.is_empty() { check(req(&mut p, c) == S::DATA, "request accepted"); } }
    check_obytes(p.tx(1).and_then(|t| ob(&t.request_method)), Some(m), "method");
    http(&mut p, 1, false);
}
/// Tunnel data in pieces: nothing before the first line decides.
fn connect_cut() {
    let _ = take_rec();
    let mut p = parser(cfg0());
    req_c(&mut p, C);
    res_c(&mut p, b"HTTP/1.1 200 X\r\n\r\n");
    let x = sym::<4>();
    for c in x { assume(c != b'\n' && c != 0); }
    // no method starts so (white space before a method is skipped)
    assume(!(x[0] >= b'A' && x[0] <= b'Z') && !(x[0] >= 9 && x[0] <= 13) && x[0] != b' ');
    let k = 1 + choose(3);
    check(req(&mut p, &x[..k]) == S::DATA, "undecided without a line end");
    check(req(&mut p, &x[k..]) == S::DATA, "undecided without a line end (2)");
    let end = sym_u8();
    assume(end == b'\n' || end == 0);
    check(req(&mut p, &[end]) == S::TUNNEL, "decided at the line end");
    tunnelled(&mut p, 2);
}
/// 101: a tunnel unless the response has a body.
fn switching() {
    let _ = take_rec();
    let mut p = parser(cfg0());
    req_c(&mut p, NEXT);
    let d = digits();
    assume(d[0] != b'0' || d[1] != b'0');
    let h = choose(3);
    let hd: &[u8] = [&b""[..], b"Content-Length: 0\r\n", b"Transfer-Encoding: chunked\r\n"][h];
    let u = sym::<3>();
    for c in u { assume(c > 32 && c < 127); }
    let r = res(&mut p, &cat(&[b"HTTP/1.1 1", &d, b" X\r\nUpgrade: a", &u, b"b\r\n", hd, b"\r\n"]));
    let is = d[0] == b'0' && d[1] == b'1';
    let low = [u[0] | 32, u[1], u[2] | 32];
    let h2 = (u[0] == b'h' || u[0] == b'H') && u[1] == b'2' && (u[2] == b'c' || u[2] == b'C');
    let _ = low;
    check(p.tx(0).unwrap().is_http_2_upgrade == (is && h2), "upgrade to h2c is noticed, and only then");
    if is && h == 0 {
        check(r == S::TUNNEL, "101 opens a tunnel");
        tunnelled(&mut p, 3);
        p.close(ts());
        check(p.tx(0).unwrap().response_progress == RP::COMPLETE, "complete after close");
        reach("tunnel");
    } else {
        check(r == S::DATA, "no tunnel");
        let t = p.tx(0).unwrap();
        check(t.response_transfer_coding == [TC::NO_BODY, TC::IDENTITY, TC::CHUNKED][h], "framed as usual");
        if h == 2 { res_c(&mut p, b"0\r\n\r\n"); }
        http(&mut p, 1, true);
        reach("http");
    }
}
/// 100 Continue is skipped, any number of times; what follows is the response.
fn interim() {
    let _ = take_rec();
    let mut p = parser(cfg0());
    req_c(&mut p, NEXT);
    let n = choose(3);
    let mut d = Vec::new();
    let t = sym::<2>();
    for c in t { assume(c >= b'a' && c <= b'z'); }
    for i in 0..n { d.extend_from_slice(&cat(&[b"HTTP/1.1 100 C\r\nX: ", &t[i..i + 1], b"\r\n\r\n"])); }
    d.extend_from_slice(&cat(&[b"HTTP/1.1 404 N\r\nY: ", &t[..1], b"\r\nContent-Length: 0\r\n\r\n"]));
    let k = choose(d.len() + 1);
    if k > 0 { res_c(&mut p, &d[..k]); }
    if k < d.len() { res_c(&mut p, &d[k..]); }
    let x = p.tx(0).unwrap();
    check(x.response_status_number == RN::VALID(404), "final response");
    check(x.response_headers.elements.len() == 2, "headers of the final response");
    check(x.seen_100continue == (n > 0), "interim response noticed");
    check(x.response_progress == RP::COMPLETE, "final response complete");
    check(take_peek().count(E_RES_COMPLETE, 0) == 1, "complete once");
    check(p.tx_size() == 1, "interim responses are no transactions");
    http(&mut p, 1, true);
}
/// Expect: 100-continue and a refusal: the body is not coming, the next bytes are a request.
fn expect() {
    let _ = take_rec();
    let mut p = parser(cfg0());
    let ex = choose(2) == 1;
    req_c(&mut p, &cat(&[b"PUT / HTTP/1.1\r\nHost: h\r\n", if ex { b"Expect: 100-continue\r\n" } else { b"" }, b"Content-Length: 5\r\n\r\n"]));
    let f = sym_u8();
    assume(f >= b'2' && f <= b'5');
    let d = digits();
    res_c(&mut p, &cat(&[b"HTTP/1.1 ", &[f], &d, b" X\r\nContent-Length: 0\r\n\r\n"]));
    if ex && f == b'4' {
        http(&mut p, 1, true);
        check(p.tx(0).unwrap().request_progress == QP::COMPLETE, "refused request complete");
        check(take_peek().req_body[0].is_empty(), "no body");
    } else {
        let b = symv(5);
        req_c(&mut p, &cat(&[&b, NEXT]));
        check_bytes(&take_peek().req_body[0], &b, "the body is sent all the same");
        http(&mut p, 1, false);
    }
}
/// A refusal of an earlier request ends no later one.
fn expect_other() {
    let _ = take_rec();
    let mut p = parser(cfg0());
    let ex: [&[u8]; 2] = [b"", b"Expect: 100-continue\r\n"];
    let (e0, e1) = (choose(2), choose(2));
    let q = |e: usize| cat(&[b"PUT / HTTP/1.1\r\nHost: h\r\n", ex[e], b"Content-Length: 5\r\n\r\n"]);
    let b = symv(10);
    req_c(&mut p, &cat(&[&q(e0), &b[..5], &q(e1)]));
    let f = sym_u8();
    assume(f >= b'2' && f <= b'5');
    let d = digits();
    res_c(&mut p, &cat(&[b"HTTP/1.1 ", &[f], &d, b" X\r\nContent-Length: 0\r\n\r\n"]));
    check(p.tx(1).unwrap().request_progress == QP::BODY, "the next request goes on");
    let no = e1 == 1 && choose(2) == 1;
    if no {
        res_c(&mut p, b"HTTP/1.1 417 X\r\nContent-Length: 0\r\n\r\n");
        http(&mut p, 2, true);
        check(take_peek().req_body[1].is_empty(), "no body");
    } else {
        req_c(&mut p, &cat(&[&b[5..], NEXT]));
        check_bytes(&take_peek().req_body[1], &b[5..], "the body of the next request");
        res_c(&mut p, R200);
        http(&mut p, 2, false);
    }
    check_bytes(&take_peek().req_body[0], &b[..5], "the body of the first request");
}
/// part of the body was already sent: a refusal changes nothing
fn expect_late() {
    let _ = take_rec();
    let mut p = parser(cfg0());
    let k = 1 + choose(4);
    let b = symv(5);
    req_c(&mut p, &cat(&[b"PUT / HTTP/1.1\r\nHost: h\r\nExpect: 100-continue\r\nContent-Length: 5\r\n\r\n", &b[..k]]));
    res_c(&mut p, b"HTTP/1.1 417 X\r\nContent-Length: 0\r\n\r\n");
    req_c(&mut p, &cat(&[&b[k..], NEXT]));
    check_bytes(&take_peek().req_body[0], &b, "the body goes on");
    http(&mut p, 1, false);
}
harness! {
    fn h_c24_connect_methods() { connect_methods() }
    fn h_c24_wait() { connect_wait() }
    fn h_c24_early() { connect_early(false) }
    fn h_c24_early_tunnel() { connect_early(true) }
    fn h_c24_status() { connect_status() }
    fn h_c24_bad() { connect_bad() }
    fn h_c24_expect_bad() { expect_bad() }
    fn h_c24_http() { connect_http() }
    fn h_c24_cut() { connect_cut() }
    fn h_c24_switching() { switching() }
    fn h_c24_interim() { interim() }
    fn h_c24_expect() { expect() }
    fn h_c24_expect_other() { expect_other() }
    fn h_c24_expect_late() { expect_late() }
}
