//! C27: gaps (missing bytes) count as body where a body is expected and are refused elsewhere.
use crate::{com::*, vp::*};
use htp::connection_parser::{ConnectionParser, HtpStreamState as S, ParserData};
use htp::transaction::{HtpRequestProgress as QP, HtpResponseProgress as RP, HtpResponseNumber as RN};
use htp::util::HtpFlags as F;
const NEXT: &[u8] = b"GET /n HTTP/1.1\r\nHost: h\r\n\r\n";
const R1: &[u8] = b"HTTP/1.1 277 X\r\nContent-Length: 0\r\n\r\n";
const PUT: &[u8] = b"PUT /p HTTP/1.1\r\nHost: h\r\nContent-Length: 6\r\n\r\n";
const R6: &[u8] = b"HTTP/1.1 200 OK\r\nContent-Length: 6\r\n\r\n";
const RC: &[u8] = b"HTTP/1.1 200 OK\r\nX: y\r\n\r\n";
fn qgap(p: &mut ConnectionParser, n: usize) -> S { let s = p.request_data(ParserData::from(n), ts()); obs(s as u64); s }
fn rgap(p: &mut ConnectionParser, n: usize) -> S { let s = p.response_data(ParserData::from(n), ts()); obs(s as u64); s }
/// The transaction after the one with the gap is untouched.
fn next_ok(p: &mut ConnectionParser, i: usize) {
    let t = p.tx(i).unwrap();
    check_obytes(ob(&t.request_uri), Some(b"/n"), "next request");
    check(t.request_progress == QP::COMPLETE, "next request complete");
    check(!t.flags.is_set(F::REQUEST_MISSING_BYTES) && !t.flags.is_set(F::RESPONSE_MISSING_BYTES), "nothing missing in the next");
}
use htp::util::FlagOperations;
/// Request body of 6 with a gap of `g` after `k` bytes: as with data of the same length.
fn request_body(two: bool) {
    let b = symv(6);
    let k = choose(6);
    let g = 1 + choose(6 - k);
    let (d, e) = if two { (choose(k + 1), choose(7 - k - g)) } else { (0, 0) };
    let mut recs = Vec::new();
    let mut ps = Vec::new();
    for gap in [true, false] {
        let _ = take_rec();
        let mut p = parser(cfg0());
        req_c(&mut p, &cat(&[PUT, &b[..d]]));
        if d < k { req_c(&mut p, &b[d..k]); }
        if gap {
            check(qgap(&mut p, g) == S::DATA, "gap accepted");
            check(p.request_data_consumed() == g, "gap consumed");
            check(p.tx(0).unwrap().request_message_len == (k + g) as u64, "gap counted");
        } else { req_c(&mut p, &b[k..k + g]); }
        let rest = cat(&[&b[k + g..], NEXT]);
        if e > 0 { req_c(&mut p, &rest[..e]); }
        req_c(&mut p, &rest[e..]);
        res_c(&mut p, R1);
        res_c(&mut p, R1);
        check(p.tx_size() == 2, "two transactions");
        next_ok(&mut p, 1);
        ps.push(p);
        recs.push(take_rec());
    }
    let (x, y) = (&recs[0], &recs[1]);
    check(x.req_gap[0] == g, "gap delivered");
    check_bytes(&x.req_body[0], &cat(&[&b[..k], &b[k + g..]]), "the rest delivered");
    check_bytes(&y.req_body[0], &b, "body delivered");
    check(x.ev == y.ev, "same events");
    let (s, t) = (ps[0].tx(0).unwrap(), ps[1].tx(0).unwrap());
    check(s.flags.is_set(F::REQUEST_MISSING_BYTES), "missing bytes flagged");
    check(!t.flags.is_set(F::REQUEST_MISSING_BYTES), "nothing missing without a gap");
    check(s.flags & !F_MULTI == (t.flags | F::REQUEST_MISSING_BYTES) & !F_MULTI, "no other flag");
    check(s.request_message_len == 6 && t.request_message_len == 6, "message length");
    check(s.request_progress == t.request_progress && s.response_progress == t.response_progress, "same progress");
    check(s.response_status_number == t.response_status_number, "same response");
}
fn response_body(close: bool) {
    let b = symv(6);
    let k = choose(6);
    let g = 1 + choose(6 - k);
    let d = choose(k + 1);
    let mut recs = Vec::new();
    let mut ps = Vec::new();
    for gap in [true, false] {
        let _ = take_rec();
        let mut p = parser(cfg0());
        req_c(&mut p, NEXT);
        if !close { req_c(&mut p, NEXT); }
        res_c(&mut p, &cat(&[if close { RC } else { R6 }, &b[..d]]));
        if d < k { res_c(&mut p, &b[d..k]); }
        if gap {
            check(rgap(&mut p, g) == S::DATA, "gap accepted");
            check(p.response_data_consumed() == g, "gap consumed");
            check(p.tx(0).unwrap().response_message_len == (k + g) as u64, "gap counted");
        } else { res_c(&mut p, &b[k..k + g]); }
        if close {
            if k + g < 6 { res_c(&mut p, &b[k + g..]); }
            p.close(ts());
        } else {
            res_c(&mut p, &cat(&[&b[k + g..], R1]));
            check(p.tx_size() == 2, "two transactions");
            check(p.tx(1).unwrap().response_status_number == RN::VALID(277), "next response");
            check(p.tx(1).unwrap().response_progress == RP::COMPLETE, "next response complete");
            next_ok(&mut p, 1);
        }
        check(p.tx(0).unwrap().response_progress == RP::COMPLETE, "response complete");
        ps.push(p);
        recs.push(take_rec());
    }
    let (x, y) = (&recs[0], &recs[1]);
    check(x.res_gap[0] == g, "gap delivered");
    check_bytes(&x.res_body[0], &cat(&[&b[..k], &b[k + g..]]), "the rest delivered");
    check_bytes(&y.res_body[0], &b, "body delivered");
    check(x.ev == y.ev, "same events");
    let (s, t) = (ps[0].tx(0).unwrap(), ps[1].tx(0).unwrap());
    check(s.flags.is_set(F::RESPONSE_MISSING_BYTES), "missing bytes flagged");
    check(s.flags & !F_MULTI == (t.flags | F::RESPONSE_MISSING_BYTES) & !F_MULTI, "no other flag");
    check(s.response_message_len == 6 && t.response_message_len == 6, "message length");
}
/// A gap longer than the body completes it and nothing more.
fn over(side: usize) {
    let _ = take_rec();
    let mut p = parser(cfg0());
    let k = choose(6);
    let b = symv(6);
    let g = 7 - k + choose(3);
    if side == 0 {
        req_c(&mut p, &cat(&[PUT, &b[..k]]));
        check(qgap(&mut p, g) == S::CLOSED, "the surplus is refused");
    } else {
        req_c(&mut p, NEXT);
        res_c(&mut p, &cat(&[R6, &b[..k]]));
        check(rgap(&mut p, g) == S::CLOSED, "the surplus is refused");
    }
    let r = take_rec();
    let t = p.tx(0).unwrap();
    if side == 0 {
        check(t.request_message_len == 6 && r.req_gap[0] == 6 - k, "the gap fills the body");
        check(t.request_progress == QP::COMPLETE && r.count(E_REQ_COMPLETE, 0) == 1, "complete once");
        check_bytes(&r.req_body[0], &b[..k], "data before the gap");
    } else {
        check(t.response_message_len == 6 && r.res_gap[0] == 6 - k, "the gap fills the body");
        check(t.response_progress == RP::COMPLETE && r.count(E_RES_COMPLETE, 0) == 1, "complete once");
        check_bytes(&r.res_body[0], &b[..k], "data before the gap");
    }
    check(r.ev.iter().all(|e| e.1 == 0), "no other transaction is reported");
}
/// A gap anywhere but in an identity body is refused: no hook but (at the end of a message) its completion.
fn refused(side: usize) {
    let _ = take_rec();
    let mut p = parser(cfg0());
    let q: &[u8] = b"POST /p HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\nT: u\r\n\r\n";
    let r: &[u8] = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\nT: u\r\n\r\n";
    let g = 1 + choose(3);
    let d = if side == 0 { q } else { r };
    let k = choose(d.len());
    if side == 0 { if k > 0 { req_c(&mut p, &d[..k]); } } else { req_c(&mut p, NEXT); if k > 0 { res_c(&mut p, &d[..k]); } }
    let before = take_rec();
    let n = p.tx_size();
    let st = if side == 0 { qgap(&mut p, g) } else { rgap(&mut p, g) };
    check(st == S::CLOSED || st == S::ERROR, "gap refused");
    let a = take_rec();
    for e in &a.ev { check(e.1 == 0 && (e.0 == E_REQ_HDATA || e.0 == E_RES_HDATA || e.0 == E_REQ_TDATA || e.0 == E_RES_TDATA), "no hook"); }
    check(a.req_gap[0] == 0 && a.res_gap[0] == 0 && a.req_body[0].is_empty() && a.res_body[0].is_empty(), "no body delivered");
    check(n <= 1 || p.tx_size() == n, "no transaction");
    let _ = before;
    obs_tx(p.tx(0).unwrap());
    if k == 0 && side == 0 {
        check(st == S::ERROR, "leading gap ends the stream");
        check(p.tx(0).unwrap().request_progress == QP::GAP, "leading gap is noted");
        check(req(&mut p, NEXT) == S::ERROR, "for ever");
    }
}
/// A gap of any length, in a body of any length.
fn lengths() {
    let _ = take_rec();
    let mut p = parser(cfg0());
    let cl = sym::<2>();
    for c in cl { assume(c >= b'0' && c <= b'9'); }
    let n = (cl[0] - b'0') as u64 * 10 + (cl[1] - b'0') as u64;
    assume(n > 0);
    let side = choose(2);
    if side == 0 { req_c(&mut p, &cat(&[b"PUT /p HTTP/1.1\r\nHost: h\r\nContent-Length: ", &cl, b"\r\n\r\n"])); }
    else { req_c(&mut p, NEXT); res_c(&mut p, &cat(&[b"HTTP/1.1 200 OK\r\nContent-Length: ", &cl, b"\r\n\r\n"])); }
    let g = sym_u8() as usize;
    assume(g > 0);
    let st = if side == 0 { qgap(&mut p, g) } else { rgap(&mut p, g) };
    check(st == if g as u64 > n { S::CLOSED } else { S::DATA }, "refused iff longer than the body");
    let r = take_rec();
    let t = p.tx(0).unwrap();
    let m = if (g as u64) < n { g as u64 } else { n };
    let (len, gap, done) = if side == 0 { (t.request_message_len, r.req_gap[0], t.request_progress == QP::COMPLETE) }
        else { (t.response_message_len, r.res_gap[0], t.response_progress == RP::COMPLETE) };
    check(len == m && gap as u64 == m, "counted and delivered");
    check(done == (g as u64 >= n), "complete iff nothing is left");
}
/// A gap in data after HTTP/0.9 is ignored like any data there.
fn nine() {
    let _ = take_rec();
    let mut p = parser(cfg0());
    req_c(&mut p, b"GET /\r\n");
    let x = symv(2);
    let st = req_c(&mut p, &x);
    check(st == S::DATA, "extra data ignored");
    let n = take_peek().ev.len();
    let g = 1 + choose(3);
    check(qgap(&mut p, g) == S::DATA, "gap ignored");
    check(take_peek().ev.len() == n, "no hook");
    check(p.tx_size() == 1, "no transaction");
}
/// Lengths beyond 32 bits: two gaps of any size up to 2^40 in a body of five thousand million bytes.
fn huge() {
    let _ = take_rec();
    let mut p = parser(cfg0());
    let n = 5_000_000_000u64;
    let side = choose(2);
    if side == 0 { req_c(&mut p, b"PUT /p HTTP/1.1\r\nHost: h\r\nContent-Length: 5000000000\r\n\r\n"); }
    else { req_c(&mut p, NEXT); res_c(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 5000000000\r\n\r\n"); }
    check(if side == 0 { p.tx(0).unwrap().request_content_length } else { p.tx(0).unwrap().response_content_length } == Some(n), "content length");
    let big = || { let b = sym::<5>(); let mut v = 0u64; for x in b { v = v << 8 | x as u64; } v };
    let (g, h) = (big(), big());
    assume(g > 0 && g < n && h > 0);
    let a = if side == 0 { qgap(&mut p, g as usize) } else { rgap(&mut p, g as usize) };
    check(a == S::DATA, "first gap accepted");
    { let t = p.tx(0).unwrap();
      check(if side == 0 { t.request_message_len } else { t.response_message_len } == g, "first gap counted");
      check(if side == 0 { t.request_progress == QP::BODY } else { t.response_progress == RP::BODY }, "not complete yet"); }
    let b = if side == 0 { qgap(&mut p, h as usize) } else { rgap(&mut p, h as usize) };
    check(b == if g + h > n { S::CLOSED } else { S::DATA }, "refused iff longer than the body");
    let r = take_rec();
    let t = p.tx(0).unwrap();
    let m = if g + h < n { g + h } else { n };
    let (len, gap, done) = if side == 0 { (t.request_message_len, r.req_gap[0], t.request_progress == QP::COMPLETE) }
        else { (t.response_message_len, r.res_gap[0], t.response_progress == RP::COMPLETE) };
    check(len == m && gap as u64 == m, "counted and delivered");
    check(done == (g + h >= n), "complete iff nothing is left");
    let c = &p.conn;
    check(if side == 0 { c.request_data_counter - 56 } else { c.response_data_counter - 47 } == g + h, "connection counts the gaps");
}
/// The same for a response that lasts until the connection closes.
fn huge_close() {
    let _ = take_rec();
    let mut p = parser(cfg0());
    req_c(&mut p, NEXT);
    res_c(&mut p, RC);
    let big = || { let b = sym::<5>(); let mut v = 0u64; for x in b { v = v << 8 | x as u64; } v };
    let (g, h) = (big(), big());
    assume(g > 0 && h > 0);
    check(rgap(&mut p, g as usize) == S::DATA && rgap(&mut p, h as usize) == S::DATA, "gaps accepted");
    res_c(&mut p, b"xy");
    p.close(ts());
    let t = p.tx(0).unwrap();
    check(t.response_message_len == g + h + 2, "counted");
    check(take_rec().res_gap[0] as u64 == g + h, "delivered");
    check(t.response_progress == RP::COMPLETE, "complete");
}
harness! {
    fn h_c27_huge() { huge() }
    fn h_c27_huge_close() { huge_close() }
    fn h_c27_req() { request_body(false) }
    fn h_c27_req2() { request_body(true) }
    fn h_c27_res() { response_body(false) }
    fn h_c27_close() { response_body(true) }
    fn h_c27_over_req() { over(0) }
    fn h_c27_over_res() { over(1) }
    fn h_c27_ref_req() { refused(0) }
    fn h_c27_ref_res() { refused(1) }
    fn h_c27_len() { lengths() }
    fn h_c27_nine() { nine() }
}
