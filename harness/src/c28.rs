//! C28: the connection record: byte counters, pipelining, data after HTTP/0.9, end points, log.
use crate::{com::*, vp::*};
use htp::connection::ConnectionFlags as CF;
use htp::connection_parser::{ConnectionParser, HtpStreamState as S, ParserData};
use htp::log::HtpLogLevel as L;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use time::{Duration, OffsetDateTime};
const NEXT: &[u8] = b"GET /n HTTP/1.1\r\nHost: h\r\n\r\n";
const R0: &[u8] = b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n";
/// n deliveries of any kind: the counters are the sums of what was accepted.
fn counters(n: usize, msgs: &[&[u8]], ends: &[&[u8]]) {
    let mut p = parser(cfg0());
    let (mut q, mut r) = (0u64, 0u64);
    let (mut qs, mut rs) = (S::OPEN, S::OPEN);
    for _ in 0..n {
        let side = choose(2);
        let k = choose(msgs.len() + 2);
        let set = if side == 0 { msgs } else { ends };
        let g = sym_u8() as usize;
        let d = if k < set.len() { ParserData::from(set[k]) } else if k == set.len() { ParserData::from(&b""[..]) } else { assume(g > 0); ParserData::from(g) };
        let len = d.len() as u64;
        let old = if side == 0 { qs } else { rs };
        let st = if side == 0 { p.request_data(d, ts()) } else { p.response_data(d, ts()) };
        let counted = if old == S::ERROR || old == S::STOP { 0 } else { len };
        if side == 0 { q += counted; } else { r += counted; }
        // only these two end a side for good; the other side may be ended by what happens on this one
        if side == 0 { qs = st; } else { rs = st; }
        check(p.conn.request_data_counter == q, "request bytes counted");
        check(p.conn.response_data_counter == r, "response bytes counted");
    }
    p.close(ts());
    check(p.conn.request_data_counter == q && p.conn.response_data_counter == r, "closing counts nothing");
}
/// Counters beyond 32 bits.
fn huge() {
    let mut p = parser(cfg0());
    req_c(&mut p, b"PUT /p HTTP/1.1\r\nContent-Length: 99999999999999\r\n\r\n");
    res_c(&mut p, b"HTTP/1.1 200 OK\r\n\r\n");
    let (q0, r0) = (p.conn.request_data_counter, p.conn.response_data_counter);
    check(q0 == 51 && r0 == 19, "heads counted");
    let (mut q, mut r) = (q0, r0);
    for i in 0..3 {
        let mut g = 0u64;
        for x in sym::<5>() { g = g << 8 | x as u64; }
        assume(g > 0);
        if i != 1 { check(p.request_data(ParserData::from(g as usize), ts()) == S::DATA, "accepted"); q += g; }
        else { check(p.response_data(ParserData::from(g as usize), ts()) == S::DATA, "accepted"); r += g; }
        check(p.conn.request_data_counter == q && p.conn.response_data_counter == r, "bytes counted");
    }
}
/// Lengths, whatever the bytes.
fn lengths() {
    let mut p = parser(cfg0());
    let a = symv(4);
    let (i, j) = (choose(5), choose(5));
    req(&mut p, &a[..i]);
    req(&mut p, &a[..j]);
    check(p.conn.request_data_counter == (i + j) as u64, "request bytes counted");
    check(p.conn.response_data_counter == 0, "no response bytes");
}
/// PIPELINED iff a request completes while an earlier one has no complete response.
fn pipelined(n: usize) {
    let _ = take_rec();
    let mut p = parser(cfg0());
    let (mut q, mut r, mut half) = (0, 0, false);
    let mut want = false;
    let cut = choose(R0.len());
    while r < n {
        // 0: a request; 1: (the rest of) a response
        let op = if q == n { 1 } else if q == r { 0 } else { choose(2) };
        if op == 0 {
            // a request completes
            want |= r < q;
            req_c(&mut p, NEXT);
            q += 1;
        } else if !half && cut > 0 && r == 0 {
            res_c(&mut p, &R0[..cut]);
            half = true;
        } else {
            res_c(&mut p, if half { &R0[cut..] } else { R0 });
            half = false;
            r += 1;
        }
        check((p.conn.flags & CF::PIPELINED != 0) == want, "pipelined iff overlapping");
    }
    check(p.conn.flags & CF::HTTP_0_9_EXTRA == 0, "no 0.9 data");
    check(p.tx_size() == n, "all transactions");
}
/// Two requests in one delivery, or cut anywhere: pipelined all the same.
fn pipelined_cut() {
    let mut p = parser(cfg0());
    let d = cat(&[NEXT, NEXT]);
    let k = choose(d.len());
    let i = choose(3);
    if k > 0 { req_c(&mut p, &d[..k]); }
    // a response to the first (2), part of it (1), or none (0), in between
    if i > 0 { if k >= NEXT.len() { res_c(&mut p, if i == 2 { R0 } else { &R0[..R0.len() - 1] }); } else { assume(false); } }
    req_c(&mut p, &d[k..]);
    check((p.conn.flags & CF::PIPELINED != 0) == (i != 2), "pipelined iff overlapping");
}
/// HTTP_0_9_EXTRA iff anything follows a 0.9 request.
fn extra() {
    let mut p = parser(cfg0());
    req_c(&mut p, b"GET /\r\n");
    check(p.tx(0).unwrap().is_protocol_0_9, "0.9");
    check(p.conn.flags & CF::HTTP_0_9_EXTRA == 0, "nothing extra yet");
    let x = symv(3);
    let i = choose(4);
    match i { 0 => {} 3 => { p.request_data(ParserData::from(5usize), ts()); } _ => { req_c(&mut p, &x[..i]); } }
    res_c(&mut p, b"body");
    check((p.conn.flags & CF::HTTP_0_9_EXTRA != 0) == (i > 0), "extra data noted iff there is some");
    p.close(ts());
    check((p.conn.flags & CF::HTTP_0_9_EXTRA != 0) == (i > 0), "closing is no data");
    check(p.conn.flags & CF::PIPELINED == 0, "not pipelined");
    check(p.tx_size() == 1, "one transaction");
}
/// HTTP/1.x is never reported as 0.9 data.
fn no_extra() {
    let mut p = parser(cfg0());
    let v = sym_u8();
    assume(v == b'0' || v == b'1');
    req_c(&mut p, &cat(&[b"GET / HTTP/1.", &[v], b"\r\nHost: h\r\n\r\n"]));
    let x = symv(2);
    req_c(&mut p, &x);
    check(p.conn.flags & CF::HTTP_0_9_EXTRA == 0, "no 0.9 data");
}
fn ip(k: usize) -> Option<IpAddr> {
    match k { 0 => None, 1 => Some(IpAddr::V4(Ipv4Addr::from(sym::<4>()))), _ => Some(IpAddr::V6(Ipv6Addr::from(sym::<16>()))) }
}
fn port(k: usize) -> Option<u16> { if k == 0 { None } else { Some(u16::from_le_bytes(sym::<2>())) } }
/// What open() and close() were given is kept; a second open changes nothing.
fn ends() {
    let mut p = ConnectionParser::new(cfg0());
    let (a, b, c, d) = (ip(choose(3)), port(choose(2)), ip(choose(3)), port(choose(2)));
    let t0 = OffsetDateTime::UNIX_EPOCH + Duration::seconds(1000 + choose(3) as i64);
    let t1 = t0 + Duration::seconds(choose(3) as i64);
    p.open(a, b, c, d, Some(t0));
    check(p.conn.client_addr == a && p.conn.client_port == b && p.conn.server_addr == c && p.conn.server_port == d, "end points kept");
    check(p.conn.open_timestamp == t0, "time of opening kept");
    p.open(None, Some(1), None, Some(2), Some(t0 + Duration::seconds(77)));
    check(p.conn.client_addr == a && p.conn.client_port == b && p.conn.server_addr == c && p.conn.server_port == d, "end points not replaced");
    check(p.conn.open_timestamp == t0, "time of opening not replaced");
    let l = p.conn.get_logs();
    for x in &l { check(x.client_addr == a && x.client_port == b && x.server_addr == c && x.server_port == d, "log entries name the end points"); }
    check(!l.is_empty(), "the second open is logged");
    req_c(&mut p, NEXT);
    p.close(Some(t1));
    check(p.conn.close_timestamp == t1 && p.conn.open_timestamp == t0, "time of closing kept");
    check(p.conn.client_addr == a && p.conn.client_port == b && p.conn.server_addr == c && p.conn.server_port == d, "end points kept to the end");
}
const LV: [L; 7] = [L::NONE, L::ERROR, L::WARNING, L::NOTICE, L::INFO, L::DEBUG, L::DEBUG2];
/// The log at a level is the full log without what is below the level; the level changes nothing else.
fn log(q: &[u8], r: &[u8]) {
    let lv = choose(7);
    let mut full = cfg0();
    full.log_level = L::DEBUG2;
    let mut part = cfg0();
    part.log_level = LV[lv];
    let (x, mut a) = (take_rec(), parser(full));
    let _ = x;
    req(&mut a, q);
    res(&mut a, r);
    a.close(ts());
    let ra = take_rec();
    let mut b = parser(part);
    req(&mut b, q);
    res(&mut b, r);
    b.close(ts());
    let rb = take_rec();
    same_rec(&ra, &rb);
    let la = a.conn.get_logs();
    check(a.conn.get_logs().is_empty(), "each entry is given once");
    let mut i = 0;
    for e in la.iter().filter(|e| e.msg.level <= LV[lv]) {
        let f = b.conn.get_next_log();
        match f {
            Some(f) => check(f.msg.code == e.msg.code && f.msg.level == e.msg.level && f.msg.line == e.msg.line, "same entries in the same order"),
            None => check(false, "no entry is lost"),
        }
        i += 1;
    }
    check(b.conn.get_next_log().is_none(), "nothing below the level");
    obs(i);
    obs(la.len() as u64);
    let (s, t) = (a.tx(0).unwrap(), b.tx(0).unwrap());
    same_req(s, t);
    same_res(s, t);
}
fn log_req() {
    let x = sym::<2>();
    log(&cat(&[b"GET / HTTP/1.1\r\nHost: a", &x, b"\r\nContent-Length: 0\r\n\r\n"]), R0)
}
fn log_res() {
    let x = sym::<2>();
    log(b"CONNECT h HTTP/1.1\r\n\r\n", &cat(&[b"HTTP/1.1 20", &x[..1], b" O\r\nC", &x[1..], b"q\r\nTransfer-Encoding: zz\r\n\r\n"]))
}
const QS: &[&[u8]] = &[NEXT, b"CONNECT h:1 HTTP/1.1\r\nHost: h\r\n\r\n", b"x"];
const RS: &[&[u8]] = &[R0, b"HTTP/1.1 101 S\r\n\r\n", b"x"];
harness! {
    fn h_c28_count() { counters(3, QS, RS) }
    fn h_c28_count_x() { counters(4, QS, RS) }
    fn h_c28_err() { counters(2, &[b"GET / HTTP/1.1\r\nTransfer-Encoding: q\r\n\r\n"], &[b"HTTP/1.1 200 O\r\nContent-Type: multipart/byteranges\r\n\r\n"]) }
    fn h_c28_huge() { huge() }
    fn h_c28_len() { lengths() }
    fn h_c28_pipe() { pipelined(3) }
    fn h_c28_pipe_x() { pipelined(4) }
    fn h_c28_pipe_cut() { pipelined_cut() }
    fn h_c28_extra() { extra() }
    fn h_c28_no_extra() { no_extra() }
    fn h_c28_ends() { ends() }
    fn h_c28_log_req() { log_req() }
    fn h_c28_log_res() { log_res() }
}
