//! C31: callbacks and user data belong to what they were attached to.
use crate::{com::*, vp::*};
use htp::config::Config;
use htp::connection_parser::{ConnectionParser, HtpStreamState as S, ParserData};
use htp::transaction::{HtpDataSource, Transaction};
use htp::HtpStatus;
const GET: &[u8] = b"GET / HTTP/1.1\r\nHost: a\r\n\r\n";
/// (which callback, transaction, bytes)
static mut SEEN: Vec<(u8, usize, Vec<u8>)> = Vec::new();
/// Transaction to attach to, event in which to do so, verdict of the attached callback
static mut AT: (usize, u8, i8) = (0, 0, 0);
static mut VAL: u32 = 0;
/// User data seen: (event, transaction, value or none)
static mut UD: Vec<(u8, usize, Option<u32>)> = Vec::new();
fn seen() -> Vec<(u8, usize, Vec<u8>)> { unsafe { std::mem::take(&mut SEEN) } }
fn push(k: u8, tx: &Transaction, d: &ParserData) { unsafe { SEEN.push((k, tx.index, d.as_slice().to_vec())); } }
fn verdict(v: i8) -> Result<()> {
    match v { 1 => Err(HtpStatus::STOP), 2 => Err(HtpStatus::ERROR), 3 => Err(HtpStatus::DECLINED), _ => Ok(()) }
}
fn own_q(tx: &mut Transaction, d: &ParserData) -> Result<()> { push(1, tx, d); verdict(unsafe { AT.2 }) }
fn own_q2(tx: &mut Transaction, d: &ParserData) -> Result<()> { push(2, tx, d); Ok(()) }
fn own_s(tx: &mut Transaction, d: &ParserData) -> Result<()> { push(3, tx, d); verdict(unsafe { AT.2 }) }
fn all_q(tx: &mut Transaction, d: &ParserData) -> Result<()> { push(4, tx, d); Ok(()) }
fn all_s(tx: &mut Transaction, d: &ParserData) -> Result<()> { push(5, tx, d); Ok(()) }
fn attach(tx: &mut Transaction) {
    tx.register_request_body_data(own_q);
    tx.register_request_body_data(own_q2);
    tx.hook_response_body_data.register(own_s);
}
fn at(tx: &mut Transaction, e: u8) -> Result<()> {
    if unsafe { AT.0 == tx.index && AT.1 == e } { attach(tx) }
    Ok(())
}
fn at_start(tx: &mut Transaction) -> Result<()> { at(tx, 0) }
fn at_line(tx: &mut Transaction) -> Result<()> { at(tx, 1) }
fn at_headers(tx: &mut Transaction) -> Result<()> { at(tx, 2) }
fn plain() -> ConnectionParser {
    let mut c = Config::default();
    no_bestfit(&mut c);
    c.register_request_start(at_start);
    c.register_request_line(at_line);
    c.register_request_headers(at_headers);
    c.register_request_body_data(all_q);
    c.register_response_body_data(all_s);
    parser(c)
}
/// What one kind of callback saw of one transaction.
fn joined(v: &[(u8, usize, Vec<u8>)], k: u8, tx: usize) -> Vec<u8> {
    let mut o = Vec::new();
    for x in v { if x.0 == k && x.1 == tx { o.extend_from_slice(&x.2); } }
    o
}
/// A transaction's own body callbacks see its body and no other, before the common ones.
fn own(chunked: bool) {
    let (i, e) = (choose(3), choose(3));
    unsafe { AT = (i, e as u8, if choose(2) == 0 { 0 } else { 3 }); }
    let _ = seen();
    let b = symv(6);
    let mut p = plain();
    let (mut q, mut r) = (Vec::new(), Vec::new());
    for k in 0..3 {
        let body = &b[2 * k..2 * k + 2];
        if chunked {
            q.extend_from_slice(&cat(&[b"PUT / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n1\r\n", &body[..1], b"\r\n1\r\n", &body[1..], b"\r\n0\r\n\r\n"]));
            r.extend_from_slice(&cat(&[b"HTTP/1.1 200 O\r\nTransfer-Encoding: chunked\r\n\r\n1\r\n", &body[1..], b"\r\n1\r\n", &body[..1], b"\r\n0\r\n\r\n"]));
        } else {
            q.extend_from_slice(&cat(&[b"PUT / HTTP/1.1\r\nHost: a\r\nContent-Length: 2\r\n\r\n", body]));
            r.extend_from_slice(&cat(&[b"HTTP/1.1 200 O\r\nContent-Length: 2\r\n\r\n", &body[1..], &body[..1]]));
        }
    }
    check(req(&mut p, &q) == S::DATA, "requests");
    check(res(&mut p, &r) == S::DATA, "responses");
    let v = seen();
    for k in 0..3 {
        let body = &b[2 * k..2 * k + 2];
        let rev = [body[1], body[0]];
        check_bytes(&joined(&v, 4, k), body, "common request callback");
        check_bytes(&joined(&v, 5, k), &rev, "common response callback");
        for c in [1, 2] { check_bytes(&joined(&v, c, k), if k == i { body } else { b"" }, "own request callbacks"); }
        check_bytes(&joined(&v, 3, k), if k == i { &rev } else { b"" }, "own response callback");
    }
    // own ones first, in order of registration, with the same data
    for (n, x) in v.iter().enumerate() {
        if x.1 == i && x.0 == 4 { check(n >= 2 && v[n - 1].0 == 2 && v[n - 2].0 == 1 && v[n - 1].2.len() == x.2.len(), "order"); }
        if x.1 == i && x.0 == 5 { check(n >= 1 && v[n - 1].0 == 3 && v[n - 1].2.len() == x.2.len(), "order"); }
    }
    obs(v.len() as u64);
}
/// The verdict of a transaction's own callback counts like that of a common one.
fn own_fails(side: usize) {
    let st = 1 + choose(2);
    unsafe { AT = (1, choose(3) as u8, st as i8); }
    let _ = seen();
    let b = symv(2);
    let mut p = plain();
    let q = cat(&[b"PUT / HTTP/1.1\r\nHost: a\r\nContent-Length: 1\r\n\r\n", &b[..1]]);
    let r = cat(&[b"HTTP/1.1 200 O\r\nContent-Length: 1\r\n\r\n", &b[1..]]);
    let want = if st == 1 { S::STOP } else { S::ERROR };
    check(req(&mut p, &q) == S::DATA, "the first request");
    if side == 0 {
        check(req(&mut p, &q) == want, "verdict");
        check(req(&mut p, &q) == want, "for good");
        let v = seen();
        check(v.iter().filter(|x| x.0 == 1).count() == 1 && !v.iter().any(|x| x.0 == 2), "no callback after the failing one");
        check(!v.iter().any(|x| x.0 == 4 && x.1 == 1), "nor a common one");
        check_bytes(&joined(&v, 4, 0), &b[..1], "first body");
    } else {
        // a request without a body lets the response callback be the first to fail
        let g = req(&mut p, GET);
        check(g == S::DATA, "no body");
        {
            check(res(&mut p, &r) == S::DATA, "the first response");
            check(res(&mut p, &r) == want, "verdict");
            check(res(&mut p, &r) == want, "for good");
            let v = seen();
            check(v.iter().filter(|x| x.0 == 3).count() == 1 && !v.iter().any(|x| x.0 == 5 && x.1 == 1), "no callback after the failing one");
            check_bytes(&joined(&v, 5, 0), &b[1..], "first body");
        }
    }
}
// ---- several callbacks for one event
static mut ORDER: Vec<u8> = Vec::new();
static mut V3: [i8; 3] = [0; 3];
fn nth(k: usize) -> Result<()> { unsafe { ORDER.push(k as u8); verdict(V3[k]) } }
macro_rules! three { ($($t:ident $d:ident $k:literal),*) => { $(
    fn $t(_: &mut Transaction) -> Result<()> { nth($k) }
    fn $d(_: &mut Transaction, d: &ParserData) -> Result<()> { if d.is_empty() { Ok(()) } else { nth($k) } } )* } }
three! { t0 d0 0, t1 d1 1, t2 d2 2 }
/// They run in order of registration, up to and including the first that fails.
fn several() {
    let e = choose(17);
    let mut v = [0i8; 3];
    for x in v.iter_mut() { *x = choose(4) as i8; }
    // raw data callbacks: verdicts that do not fail only
    let raw = e >= 13;
    if raw { for x in v.iter() { if *x == 1 || *x == 2 { return; } } }
    unsafe { V3 = v; ORDER = Vec::new(); }
    let mut c = Config::default();
    no_bestfit(&mut c);
    for k in 0..3 {
        let t = [t0, t1, t2][k] as fn(&mut Transaction) -> Result<()>;
        let d = [d0, d1, d2][k] as fn(&mut Transaction, &ParserData) -> Result<()>;
        match e {
            0 => c.register_request_start(t),
            1 => c.register_request_line(t),
            2 => c.register_transaction_complete(t),
            3 => c.register_request_headers(t),
            4 => c.register_request_trailer(t),
            5 => c.register_request_complete(t),
            6 => c.register_response_start(t),
            7 => c.register_response_line(t),
            8 => c.register_response_headers(t),
            9 => c.register_response_trailer(t),
            10 => c.register_response_complete(t),
            11 => c.register_request_body_data(d),
            12 => c.register_response_body_data(d),
            13 => c.register_request_header_data(d),
            14 => c.register_response_header_data(d),
            15 => c.register_request_trailer_data(d),
            _ => c.register_response_trailer_data(d),
        }
    }
    let mut p = parser(c);
    let q = req(&mut p, b"PUT / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n1\r\nx\r\n0\r\nT: u\r\n\r\n");
    let request = matches!(e, 0 | 1 | 3..=5 | 11 | 13 | 15);
    let mut n = 3;
    let mut st = S::DATA;
    for (k, x) in v.iter().enumerate() {
        if *x == 1 || *x == 2 { n = k + 1; st = if *x == 1 { S::STOP } else { S::ERROR }; break; }
    }
    let r = if request && st != S::DATA { st } else { res(&mut p, b"HTTP/1.1 200 O\r\nTransfer-Encoding: chunked\r\n\r\n1\r\ny\r\n0\r\nT: u\r\n\r\n") };
    check((if request { q } else { r }) == st, "the first failing verdict is the one of the call");
    let o = unsafe { std::mem::take(&mut ORDER) };
    let want: Vec<u8> = (0..n as u8).collect();
    check_bytes(&o, &want, "in order, up to the first failing one");
}
// ---- user data
fn note(tx: &mut Transaction, e: u8) -> Result<()> {
    unsafe {
        let v = tx.user_data::<u32>().copied();
        UD.push((e, tx.index, v));
        if AT.0 == tx.index && AT.1 == e { tx.set_user_data(Box::new(VAL)); }
        // and whoever wants may change it in place
        if e == 4 { if let Some(x) = tx.user_data_mut::<u32>() { *x = x.wrapping_add(1); } }
    }
    Ok(())
}
macro_rules! notes { ($($n:ident $k:literal),*) => { $(fn $n(tx: &mut Transaction) -> Result<()> { note(tx, $k) })* } }
notes! { n0 0, n1 1, n2 2, n3 3, n4 4, n5 5, n6 6, n7 7, n8 8 }
fn user_data() {
    let (i, e) = (choose(3), choose(9));
    let v = u32::from_le_bytes(sym::<4>());
    let pd = u16::from_le_bytes(sym::<2>());
    unsafe { AT = (i, e as u8, 0); VAL = v; UD = Vec::new(); }
    let mut c = Config::default();
    no_bestfit(&mut c);
    c.register_request_start(n0);
    c.register_request_line(n1);
    c.register_request_headers(n2);
    c.register_request_complete(n3);
    c.register_response_start(n4);
    c.register_response_line(n5);
    c.register_response_headers(n6);
    c.register_response_complete(n7);
    c.register_transaction_complete(n8);
    let mut p = parser(c);
    check(p.user_data::<u16>().is_none(), "none at first");
    p.set_user_data(Box::new(pd));
    req(&mut p, &cat(&[GET, GET]));
    res(&mut p, b"HTTP/1.1 200 O\r\nContent-Length: 0\r\n\r\n");
    req(&mut p, GET);
    res(&mut p, b"HTTP/1.1 200 O\r\nContent-Length: 0\r\n\r\nHTTP/1.1 200 O\r\nContent-Length: 0\r\n\r\n");
    let u = unsafe { std::mem::take(&mut UD) };
    check(u.len() == 27, "all events");
    for x in &u {
        let want = if x.1 == i && x.0 > e as u8 { Some(if e < 4 && x.0 > 4 { v.wrapping_add(1) } else { v }) } else { None };
        // set in the response start callback itself: changed right away
        let want = if e == 4 { want.map(|w| w.wrapping_add(1)) } else { want };
        check(x.2 == want, "the data of this transaction, from when it was set");
    }
    for k in 0..3 {
        let t = p.tx(k).unwrap();
        check(t.index == k, "index");
        let w = if e <= 4 { v.wrapping_add(1) } else { v };
        check(t.user_data::<u32>().copied() == if k == i { Some(w) } else { None }, "and afterwards");
        check(t.user_data::<u64>().is_none(), "of its type only");
    }
    check(p.user_data::<u16>().copied() == Some(pd) && p.user_data::<u32>().is_none(), "that of the parser is another");
    if let Some(x) = p.user_data_mut::<u16>() { *x ^= 1; }
    check(p.user_data::<u16>().copied() == Some(pd ^ 1), "changed in place");
    let _ = p.remove_tx(i);
    check(p.tx(i).is_none() && p.user_data::<u16>().copied() == Some(pd ^ 1), "removing a transaction leaves it alone");
    p.set_user_data(Box::new(7u64));
    check(p.user_data::<u16>().is_none() && p.user_data::<u64>().copied() == Some(7), "replaced");
}
/// A parser keeps its own copy of the configuration, and two parsers share nothing.
fn separate() {
    let b = symv(2);
    let _ = seen();
    let mut c = Config::default();
    no_bestfit(&mut c);
    c.register_request_body_data(all_q);
    let mut p = parser(c.clone());
    c.register_request_body_data(own_q2);
    c.set_field_limit(20);
    let mut q = parser(c);
    let m = |x: &[u8]| cat(&[b"PUT / HTTP/1.1\r\nHost: a\r\nContent-Length: 1\r\n\r\n", x]);
    let (x, y) = (m(&b[..1]), m(&b[1..]));
    let k = choose(x.len() + 1);
    // interleaved
    if k > 0 { req(&mut p, &x[..k]); }
    check(req(&mut q, &y) == S::DATA, "the other one");
    if k < x.len() { check(req(&mut p, &x[k..]) == S::DATA, "this one"); }
    let v = seen();
    check_bytes(&joined(&v, 2, 0), &b[1..], "only the second has the second callback");
    let want4 = if k == x.len() { vec![b[0], b[1]] } else { vec![b[1], b[0]] };
    check_bytes(&joined(&v, 4, 0), &want4, "both have the first");
    check(p.tx_size() == 1 && q.tx_size() == 1, "one transaction each");
    check(p.conn.request_data_counter == x.len() as u64 && q.conn.request_data_counter == y.len() as u64, "counters apart");
    check(p.cfg.field_limit == 18000 && q.cfg.field_limit == 20, "configurations apart");
}
harness! {
    fn h_c31_own_cl() { own(false) }
    fn h_c31_own_ch() { own(true) }
    fn h_c31_own_fails_req() { own_fails(0) }
    fn h_c31_own_fails_res() { own_fails(1) }
    fn h_c31_several() { several() }
    fn h_c31_user_data() { user_data() }
    fn h_c31_separate() { separate() }
}
