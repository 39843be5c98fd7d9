//! C08: STOP and ERROR are final, and a callback's verdict is obeyed.
use crate::{com::*, vp::*};
use htp::config::{Config, HtpServerPersonality as P};
use htp::connection_parser::{ConnectionParser, HtpStreamState as S, ParserData};
const Q: &[u8] = b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nxy\r\n0\r\nT: u\r\n\r\n";
const Q2: &[u8] = b"GET /b HTTP/1.1\r\nHost: b\r\n\r\n";
const QL: &[u8] = b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 3\r\n\r\nxyz";
const SX: &[u8] = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r\n0\r\nT: u\r\n\r\n";
const S2: &[u8] = b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\na";
const SCL: &[u8] = b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc";
fn fired(r: &Rec, e: u8) -> usize { r.ev.iter().filter(|x| x.0 == e).count() }
fn st_of(k: usize) -> (i8, S) { if k == 0 { (1, S::STOP) } else { (2, S::ERROR) } }
/// Closing the connection does not revive a side that ended with ERROR.
fn closed(p: &mut ConnectionParser, want: S, request: bool) {
    if want != S::ERROR { return; }
    let side = |r: &Rec| r.ev.iter().filter(|x| (x.0 < E_RES_START) == request && x.0 != E_TX_COMPLETE).count();
    let n = side(&take_peek());
    p.close(ts());
    let d: [u8; 1] = sym();
    let s = if request { req(p, &d) } else { res(p, &d) };
    check(s == S::ERROR, "ERROR is final, also when the connection closes");
    check(side(&take_peek()) == n, "no callback after ERROR when the connection closes");
}
/// A request-side callback returns STOP or ERROR; the stream is cut at k.
fn req_side(e: u8, q: &[u8], from: usize) {
    let (st, want) = st_of(choose(2));
    let k = from + choose(q.len() - from);
    let _ = take_rec();
    let mut c = cfg0();
    c.set_request_decompression(true);
    let mut p = parser(c);
    inject(e, st);
    let mut end = None;
    for d in [&q[..k], &q[k..], Q2] {
        if d.is_empty() { continue; }
        let s = req(&mut p, d);
        obs(s as u64);
        match end {
            None => if fired(&take_peek(), e) > 0 { check(s == want, "call in which the callback failed reports it"); end = Some(take_peek().ev.len()); },
            Some(n) => {
                check(s == want, "status is final");
                check(take_peek().ev.len() == n, "no callback after STOP/ERROR");
                check(p.request_data_consumed() == 0, "nothing consumed after STOP/ERROR");
            }
        }
    }
    check(end.is_some(), "callback ran");
    check(fired(&take_peek(), e) == 1, "failing callback not repeated");
    inject(0, 0);
    closed(&mut p, want, true);
    reach("end");
}
fn res_side(e: u8, sx: &[u8], from: usize) {
    let (st, want) = st_of(choose(2));
    let k = from + choose(sx.len() - from);
    let _ = take_rec();
    let mut p = parser(cfg0());
    req(&mut p, &cat(&[Q, Q2]));
    inject(e, st);
    let mut end = None;
    for d in [&sx[..k], &sx[k..], S2] {
        if d.is_empty() { continue; }
        let s = res(&mut p, d);
        obs(s as u64);
        match end {
            None => if fired(&take_peek(), e) > 0 { check(s == want, "call in which the callback failed reports it"); end = Some(take_peek().ev.len()); },
            Some(n) => {
                check(s == want, "status is final");
                check(take_peek().ev.len() == n, "no callback after STOP/ERROR");
                check(p.response_data_consumed() == 0, "nothing consumed after STOP/ERROR");
            }
        }
    }
    check(end.is_some(), "callback ran");
    check(fired(&take_peek(), e) == 1, "failing callback not repeated");
    inject(0, 0);
    closed(&mut p, want, false);
    reach("end");
}
/// Messages with a compressed body: the verdict of the callback that is given the decompressed bytes counts as well.
fn comp(side: usize) {
    let head: &[u8] = if side == 0 { b"PUT / HTTP/1.1\r\nHost: a\r\nContent-Encoding: " } else { b"HTTP/1.1 200 OK\r\nContent-Encoding: " };
    let b: &[u8] = b"\x01\x03\0\xfc\xffxyz";
    let g = cat(&[b"\x1f\x8b\x08\0\0\0\0\0\0\x03", b, b"\0\0\0\0\0\0\0\0"]);
    let two = cat(&[&[1u8, b.len() as u8, 0, !(b.len() as u8), 255], b]);
    let kind = choose(4);
    let (ce, b): (&[u8], &[u8]) = [(&b"deflate"[..], b), (b"gzip", &g), (b"deflate, deflate", &two), (b"lzma", crate::c25::LZ)][kind];
    let ch = choose(2);
    let n = b.len();
    let m = if ch == 0 { cat(&[head, ce, b"\r\nContent-Length: ", n.to_string().as_bytes(), b"\r\n\r\n", b]) }
        else { cat(&[head, ce, b"\r\nTransfer-Encoding: chunked\r\n\r\n", format!("{:x}\r\n", n).as_bytes(), b, b"\r\n0\r\n\r\n"]) };
    let from = m.len() - n - 8;
    if side == 0 { req_side(E_REQ_BODY, &m, from) } else { res_side(E_RES_BODY, &m, from) }
}
/// DECLINED is the same as OK.
fn declined() {
    let e = 1 + choose(20) as u8;
    let run = |st: i8| {
        let _ = take_rec();
        let mut p = parser(cfg0());
        inject(e, st);
        let a = req(&mut p, &cat(&[Q, Q2]));
        let b = res(&mut p, &cat(&[SX, S2]));
        p.close(ts());
        inject(0, 0);
        (p, take_rec(), a, b)
    };
    let (p1, r1, a1, b1) = run(0);
    let (p2, r2, a2, b2) = run(3);
    check(a1 == a2 && b1 == b2, "DECLINED does not change the status");
    check(r1.ev == r2.ev, "DECLINED does not change the callbacks");
    same_rec(&r1, &r2);
    for i in 0..2 {
        same_req(p1.tx(i).unwrap(), p2.tx(i).unwrap());
        same_res(p1.tx(i).unwrap(), p2.tx(i).unwrap());
    }
    reach("end");
}
/// Once request data gave ERROR, every later call does, whatever it is given.
fn sticky_err(bad: &[u8]) {
    let more: [u8; 2] = sym();
    let _ = take_rec();
    let mut p = parser(cfg0());
    let s = req(&mut p, bad);
    obs(s as u64);
    if s == S::ERROR {
        let n = take_rec().ev.len();
        let _ = n;
        reach("error");
        check(req(&mut p, &more) == S::ERROR, "ERROR is final");
        check(req(&mut p, Q2) == S::ERROR, "ERROR is final");
        check(take_peek().ev.is_empty(), "no callback after ERROR");
        p.request_close(ts());
        check(req(&mut p, Q2) == S::ERROR, "ERROR is final across close");
        check(take_peek().ev.is_empty(), "no callback after ERROR");
    }
}
fn sticky_err_res(bad: &[u8]) {
    let more: [u8; 2] = sym();
    let _ = take_rec();
    let mut p = parser(cfg0());
    req(&mut p, &cat(&[Q2, Q2]));
    let s = res(&mut p, bad);
    obs(s as u64);
    let _ = take_rec();
    if s == S::ERROR {
        reach("error");
        check(res(&mut p, &more) == S::ERROR, "ERROR is final");
        check(res(&mut p, S2) == S::ERROR, "ERROR is final");
        check(take_peek().ev.is_empty(), "no callback after ERROR");
        p.close(ts());
        check(res(&mut p, S2) == S::ERROR, "ERROR is final across close");
        check(take_peek().ev.iter().all(|e| e.0 < E_RES_START || (e.0 > E_TX_COMPLETE && e.0 != E_RES_BODY)), "no response callback after ERROR");
    }
}
/// The n-th occurrence of a callback fails, in the first or a later transaction.
fn nth(side: usize) {
    let evs: &[u8] = if side == 0 { &[E_REQ_START, E_REQ_LINE, E_REQ_HEADERS, E_REQ_BODY, E_REQ_TRAILER, E_REQ_COMPLETE] }
        else { &[E_RES_START, E_RES_LINE, E_RES_HEADERS, E_RES_BODY, E_RES_TRAILER, E_RES_COMPLETE, E_TX_COMPLETE] };
    let e = evs[choose(evs.len())];
    let n = 1 + choose(2);
    let (st, want) = st_of(choose(2));
    let _ = take_rec();
    let mut p = parser(cfg0());
    let whole = choose(2) == 0;
    let ms: &[&[u8]] = if side == 0 { &[Q, QL, Q, Q2] } else { &[SX, SCL, SX, S2] };
    if side == 1 { req(&mut p, &cat(&[Q, Q2, Q2, Q2])); let _ = take_rec(); }
    inject_nth(e, st, n);
    let all = cat(ms);
    let ds: Vec<&[u8]> = if whole { vec![&all, ms[3]] } else { let mut v = ms.to_vec(); v.push(ms[3]); v };
    let mut end = None;
    for d in ds {
        let s = if side == 0 { req(&mut p, d) } else { res(&mut p, d) };
        obs(s as u64);
        match end {
            None => if fired(take_peek(), e) > n { check(s == want, "call in which the callback failed reports it"); end = Some(take_peek().ev.len()); }
                else { check(s == S::DATA, "no verdict, no end"); },
            Some(l) => {
                check(s == want, "status is final");
                check(take_peek().ev.len() == l, "no callback after STOP/ERROR");
            }
        }
    }
    let trailers = e == E_REQ_TRAILER || e == E_RES_TRAILER;
    check(end.is_some() || (trailers && n == 2), "callback ran");
    if end.is_some() { check(fired(take_peek(), e) == n + 1, "failing callback not repeated"); check(take_peek().ev.last().unwrap().0 == e, "nothing after it"); }
    inject(0, 0);
}
static mut SEC: usize = 0;
fn b_tx(_: &mut htp::transaction::Transaction) -> Result<()> { unsafe { SEC += 1; } Ok(()) }
fn b_data(_: &mut htp::transaction::Transaction, d: &ParserData) -> Result<()> { unsafe { if !d.is_empty() { SEC += 1; } } Ok(()) }
/// Two callbacks for one event run in the order of registration, and the second only if the first does not fail.
fn chain() {
    let e = 1 + choose(14) as u8;
    let v = choose(4) as i8; // OK, STOP, ERROR, DECLINED
    let mut c = cfg0();
    match e {
        E_REQ_START => c.register_request_start(b_tx), E_REQ_LINE => c.register_request_line(b_tx), E_REQ_HEADERS => c.register_request_headers(b_tx),
        E_REQ_TRAILER => c.register_request_trailer(b_tx), E_REQ_COMPLETE => c.register_request_complete(b_tx), E_RES_START => c.register_response_start(b_tx),
        E_RES_LINE => c.register_response_line(b_tx), E_RES_HEADERS => c.register_response_headers(b_tx), E_RES_TRAILER => c.register_response_trailer(b_tx),
        E_RES_COMPLETE => c.register_response_complete(b_tx), E_TX_COMPLETE => c.register_transaction_complete(b_tx),
        E_REQ_BODY => c.register_request_body_data(b_data), E_RES_BODY => c.register_response_body_data(b_data),
        _ => { assume(false); }
    }
    unsafe { SEC = 0; }
    let _ = take_rec();
    let mut p = parser(c);
    inject(e, v);
    let a = req(&mut p, Q);
    let b = res(&mut p, SX);
    inject(0, 0);
    let r = take_rec();
    check(fired(&r, e) == 1, "callback ran once");
    let s = if e <= E_REQ_COMPLETE || e == E_REQ_BODY { a } else { b };
    check(unsafe { SEC } == (v == 0 || v == 3) as usize, "the next callback runs unless this one failed");
    check(s == match v { 1 => S::STOP, 2 => S::ERROR, _ => S::DATA }, "status");
}
static mut TXV: i8 = 0;
fn t_data(_: &mut htp::transaction::Transaction, d: &ParserData) -> Result<()> {
    unsafe { if !d.is_empty() { SEC += 1; match TXV { 1 => return Err(htp::HtpStatus::STOP), 2 => return Err(htp::HtpStatus::ERROR), 3 => return Err(htp::HtpStatus::DECLINED), _ => {} } } }
    Ok(())
}
fn t_start(tx: &mut htp::transaction::Transaction) -> Result<()> { if tx.index == 0 { tx.register_request_body_data(t_data); } Ok(()) }
/// A body callback registered for one transaction runs for that transaction only, before the connection's.
fn per_tx() {
    let v = choose(4);
    unsafe { SEC = 0; TXV = v as i8; }
    let mut c = cfg0();
    c.register_request_start(t_start);
    let _ = take_rec();
    let mut p = parser(c);
    let k = 40 + choose(QL.len() - 40);
    let mut s = S::OPEN;
    for d in [&QL[..k], &QL[k..], QL] { s = req(&mut p, d); }
    let r = take_rec();
    let n = unsafe { SEC };
    let bodies = if k > QL.len() - 3 { 2 } else { 1 };
    if v == 1 || v == 2 {
        check(s == if v == 1 { S::STOP } else { S::ERROR }, "status is final");
        check(n == 1 && fired(&r, E_REQ_BODY) == 0, "the connection's callback does not run after a failure");
    } else {
        check(s == S::DATA, "status");
        check(n == bodies, "runs for its transaction only");
        check_bytes(&r.req_body[0], b"xyz", "first body");
        check_bytes(&r.req_body[1], b"xyz", "second body");
    }
}
harness! {
    fn h_c08_nth_req() { nth(0) }
    fn h_c08_nth_res() { nth(1) }
    fn h_c08_chain() { chain() }
    fn h_c08_pertx() { per_tx() }
    fn h_c08_qstart() { req_side(E_REQ_START, Q, 1); }
    fn h_c08_qline() { req_side(E_REQ_LINE, Q, 1); }
    fn h_c08_qheaders() { req_side(E_REQ_HEADERS, Q, 1); }
    fn h_c08_qbody() { req_side(E_REQ_BODY, Q, 40); }
    fn h_c08_qbodycl() { req_side(E_REQ_BODY, QL, 40); }
    fn h_c08_qtrailer() { req_side(E_REQ_TRAILER, Q, 40); }
    fn h_c08_qcomplete() { req_side(E_REQ_COMPLETE, Q, 40); }
    fn h_c08_sstart() { res_side(E_RES_START, SX, 1); }
    fn h_c08_sline() { res_side(E_RES_LINE, SX, 1); }
    fn h_c08_sheaders() { res_side(E_RES_HEADERS, SX, 1); }
    fn h_c08_sbody() { res_side(E_RES_BODY, SX, 40); }
    fn h_c08_sbodycl() { res_side(E_RES_BODY, SCL, 30); }
    fn h_c08_qbodyz() { comp(0) }
    fn h_c08_sbodyz() { comp(1) }
    fn h_c08_strailer() { res_side(E_RES_TRAILER, SX, 40); }
    fn h_c08_scomplete() { res_side(E_RES_COMPLETE, SX, 40); }
    fn h_c08_tx() { res_side(E_TX_COMPLETE, SX, 40); }
    fn h_c08_declined() { declined(); }
    fn h_c08_err_te() {
        let b: [u8; 3] = sym();
        sticky_err(&cat(&[b"POST / HTTP/1.1\r\nTransfer-Encoding: ", &b, b"\r\n\r\n"]));
    }
    fn h_c08_err_cl() {
        let b: [u8; 2] = sym();
        sticky_err(&cat(&[b"POST / HTTP/1.1\r\nContent-Length: ", &b, b"\r\n\r\n"]));
    }
    fn h_c08_err_ch() {
        let b: [u8; 2] = sym();
        sticky_err(&cat(&[b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", &b, b"\r\n"]));
    }
    fn h_c08_err_scl() {
        let b: [u8; 2] = sym();
        sticky_err_res(&cat(&[b"HTTP/1.1 200 OK\r\nContent-Length: ", &b, b"\r\n\r\n"]));
    }
}
