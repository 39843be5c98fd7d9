//! C23: transactions are numbered, paired, limited and released as configured.
use crate::{com::*, vp::*};
use htp::connection_parser::{ConnectionParser, HtpStreamState as S};
use htp::transaction::{HtpRequestProgress as QP, HtpResponseNumber as RN, HtpResponseProgress as RP};
fn q(i: usize, tag: u8) -> Vec<u8> { cat(&[b"GET /", &[b'a' + i as u8, tag], b" HTTP/1.1\r\nHost: h\r\n\r\n"]) }
fn s(i: usize, tag: u8) -> Vec<u8> { cat(&[b"HTTP/1.1 2", &[b'1' + i as u8], b"0 ", &[tag], b"\r\nContent-Length: 1\r\n\r\n", &[tag]]) }
fn tags<const N: usize>() -> [u8; N] { let t: [u8; N] = sym(); for c in t { assume(c >= b'0' && c <= b'9'); } t }
fn pair(p: &ConnectionParser, r: &Rec, i: usize, tq: u8, tr: u8) {
    match p.tx(i) {
        None => check(false, "transaction exists"),
        Some(t) => {
            check(t.index == i, "transactions are numbered in order");
            check_obytes(ob(&t.request_uri), Some(&[b'/', b'a' + i as u8, tq]), "request of the transaction");
            check(t.response_status_number == RN::VALID(210 + 10 * i as u16), "response of the transaction");
            check_obytes(ob(&t.response_message), Some(&[tr]), "response of the transaction (message)");
            check_bytes(&r.res_body[i], &[tr], "response body of the transaction");
            check(t.request_progress == QP::COMPLETE && t.response_progress == RP::COMPLETE, "transaction complete");
            obs_tx(t);
        }
    }
}
/// Any order of deliveries in which a response follows its request; pieces joined or not.
fn pairing(n: usize, destroy: bool) {
    let (tq, tr) = (tags::<3>(), tags::<3>());
    let _ = take_rec();
    let mut c = cfg0();
    c.set_tx_auto_destroy(destroy);
    let mut p = parser(c);
    let (mut nq, mut nr) = (0, 0);
    let mut pipelined = false;
    while nr < n {
        let can_q = nq < n;
        let can_r = nr < nq;
        let pick = if can_q && can_r { choose(2) } else if can_q { 0 } else { 1 };
        if pick == 0 {
            // one or more requests in one chunk
            let k = 1 + choose(n - nq);
            let mut d = Vec::new();
            for i in nq..nq + k { d.extend_from_slice(&q(i, tq[i])); if i > nr { pipelined = true; } }
            check(req_c(&mut p, &d) == S::DATA, "requests accepted");
            nq += k;
        } else {
            let k = 1 + choose(nq - nr);
            let mut d = Vec::new();
            for i in nr..nr + k { d.extend_from_slice(&s(i, tr[i])); }
            check(res_c(&mut p, &d) == S::DATA, "responses accepted");
            nr += k;
        }
        check(p.tx_size() == nq, "number of transactions so far");
        check(p.request_index() == nq && p.response_index() == nr, "current transaction indices");
        for i in 0..n {
            let live = i < nq && (!destroy || i >= nr);
            match p.tx(i) { Some(t) => check(live || !t.is_started(), "completed transactions are released"), None => check(!live, "transactions are kept until they are complete") }
        }
    }
    let r = take_rec();
    if !destroy { for i in 0..n { pair(&p, &r, i, tq[i], tr[i]); } }
    for i in 0..n {
        check(r.count(E_TX_COMPLETE, i) == 1 && r.count(E_REQ_COMPLETE, i) == 1 && r.count(E_RES_COMPLETE, i) == 1, "completed once");
        check_bytes(&r.res_body[i], &[tr[i]], "response body of the transaction");
    }
    check((p.conn.flags & htp::connection::ConnectionFlags::PIPELINED != 0) == pipelined, "pipelining is noticed, and only then");
    reach("end");
}
/// At most max_tx transactions are held.
fn limit(destroy: bool) {
    let max = 1 + choose(3);
    let (tq, tr) = (tags::<1>()[0], tags::<1>()[0]);
    let mut c = cfg0();
    c.max_tx = max as u32;
    c.set_tx_auto_destroy(destroy);
    let mut p = parser(c);
    let answer = choose(2) == 1;
    let mut held = 0usize;
    for i in 0..4 {
        // the transaction exists as soon as its first byte is seen
        let st = req(&mut p, &q(i, tq));
        obs(st as u64);
        if held < max { check(st == S::DATA, "a request within the limit is accepted"); } else { check(st == S::ERROR, "a request beyond the limit ends the stream"); }
        if st == S::ERROR {
            check(p.tx(i).is_none(), "no transaction beyond the limit");
            check(req(&mut p, &q(i, tq)) == S::ERROR, "the stream stays ended");
            for j in 0..i { if !destroy { check(p.tx(j).is_some(), "existing transactions are kept"); } }
            return;
        }
        held += 1;
        if answer {
            check(res(&mut p, &s(i, tr)) == S::DATA, "a response within the limit is accepted");
            if destroy { held -= 1; }
        }
    }
    check(max > 3 || (destroy && answer), "the limit is enforced");
}
/// Unanswered requests and early responses with auto-destroy.
fn early(destroy: bool) {
    let (tq, tr) = (tags::<1>()[0], tags::<1>()[0]);
    let _ = take_rec();
    let mut c = cfg0();
    c.set_tx_auto_destroy(destroy);
    let mut p = parser(c);
    let d = cat(&[b"POST /", &[b'a', tq], b" HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n\r\n"]);
    req_c(&mut p, &d);
    check(p.tx_size() == 1, "one transaction");
    // the response comes before the body
    res_c(&mut p, &s(0, tr));
    match p.tx(0) { Some(t) => check(t.response_progress == RP::COMPLETE && t.request_progress != QP::COMPLETE, "half-complete transaction is kept"), None => check(false, "half-complete transaction is kept") }
    let k = 1 + choose(2);
    req_c(&mut p, &b"xyz"[..k]);
    req_c(&mut p, &cat(&[&b"xyz"[k..], &q(1, tq)]));
    let r = take_rec();
    check_bytes(&r.req_body[0], b"xyz", "request body");
    check(r.count(E_TX_COMPLETE, 0) == 1, "transaction completed once, after its request");
    match p.tx(0) { Some(t) => check(!destroy && t.is_complete(), "released once complete"), None => check(destroy, "kept") }
    check(p.tx_size() == 2, "two transactions");
    match p.tx(1) { Some(t) => check_obytes(ob(&t.request_uri), Some(&[b'/', b'b', tq]), "next request"), None => check(false, "next request") }
    res_c(&mut p, &s(1, tr));
    check(take_peek().count(E_TX_COMPLETE, 1) == 1, "second transaction complete");
}
/// At close, with flush_incomplete, every started transaction is reported complete exactly once.
fn flush(on: bool) {
    let tq = tags::<2>();
    let _ = take_rec();
    let mut c = cfg0();
    c.flush_incomplete = on;
    c.set_tx_auto_destroy(choose(2) == 1);
    let mut p = parser(c);
    let d = cat(&[&q(0, tq[0]), &q(1, tq[1]), b"GET /c HTTP/1.1\r\nHost: h\r\n\r\n"]);
    let k = 1 + choose(d.len());
    req_c(&mut p, &d[..k]);
    let a = choose(2);
    let l = q(0, 0).len();
    if a == 1 && k >= l { res_c(&mut p, &s(0, b'x')); }
    p.close(ts());
    let r = take_rec();
    for i in 0..3 {
        let started = r.count(E_REQ_START, i) == 1;
        let done = r.count(E_REQ_COMPLETE, i) == 1 && r.count(E_RES_COMPLETE, i) == 1;
        let n = r.count(E_TX_COMPLETE, i);
        check(n == if done { 1 } else if on && started { 1 } else { 0 }, "transactions flushed at close, once");
    }
    check(r.count(E_REQ_START, 0) == 1, "first request started");
}
fn remove() {
    let tq = tags::<1>()[0];
    let mut p = parser(cfg0());
    req(&mut p, &cat(&[&q(0, tq), &q(1, tq)]));
    let i = choose(3);
    p.remove_tx(i);
    check(p.tx(0).is_some() == (i != 0) && p.tx(1).is_some() == (i != 1), "remove_tx removes that transaction only");
    check(p.tx_size() == 2, "removing does not renumber");
    req(&mut p, &q(2, tq));
    match p.tx(2) { Some(t) => check(t.index == 2, "numbering goes on"), None => check(false, "numbering goes on") }
}
/// Many transactions: numbered, paired and released like the first ones.
fn many(n: usize, destroy: bool, batch: usize) {
    let _ = take_rec();
    let mut c = cfg0();
    c.set_tx_auto_destroy(destroy);
    let mut p = parser(c);
    let (mut nq, mut nr) = (0usize, 0usize);
    let t = tags::<1>()[0];
    let uri = |i: usize| format!("/{:04}", i);
    while nr < n {
        let mut d = Vec::new();
        for i in nq..(nq + batch).min(n) { d.extend_from_slice(&cat(&[b"GET ", uri(i).as_bytes(), b" HTTP/1.1\r\nHost: h\r\n\r\n"])); }
        let m = (nq + batch).min(n);
        check(req_c(&mut p, &d) == S::DATA, "requests accepted");
        nq = m;
        let mut e = Vec::new();
        for i in nr..nq { e.extend_from_slice(&cat(&[b"HTTP/1.1 200 ", uri(i).as_bytes(), b"\r\nContent-Length: 1\r\n\r\n", &[t]])); }
        check(res_c(&mut p, &e) == S::DATA, "responses accepted");
        nr = nq;
        check(p.tx_size() == nq && p.request_index() == nq && p.response_index() == nr, "numbers");
        if destroy { check(p.tx(nr - 1).is_none() && p.tx(0).is_none(), "released"); }
    }
    if !destroy {
        for i in 0..n {
            match p.tx(i) {
                None => check(false, "transaction exists"),
                Some(x) => {
                    check(x.index == i, "index");
                    check_obytes(ob(&x.request_uri), Some(uri(i).as_bytes()), "request of the transaction");
                    check_obytes(ob(&x.response_message), Some(uri(i).as_bytes()), "response of the transaction");
                    check(x.is_complete(), "complete");
                }
            }
        }
    }
    let r = take_rec();
    for e in [E_REQ_COMPLETE, E_RES_COMPLETE, E_TX_COMPLETE] {
        let l: Vec<u8> = r.ev.iter().filter(|x| x.0 == e).map(|x| x.1).collect();
        check(l.len() == n, "each completed once");
        for (i, x) in l.iter().enumerate() { check(*x == i as u8, "completed in order"); }
    }
    check((p.conn.flags & htp::connection::ConnectionFlags::PIPELINED != 0) == (batch > 1), "pipelining is noticed, and only then");
}
/// The default limit of transactions.
fn dflt_limit() {
    let mut c = cfg0();
    check(c.max_tx == 512, "default limit");
    c.max_tx = 40;
    let mut p = parser(c);
    let t = tags::<1>()[0];
    for i in 0..40 { check(req(&mut p, &q(i % 20, t)) == S::DATA, "within the limit"); }
    check(req(&mut p, &q(0, t)) == S::ERROR, "beyond the limit");
    check(p.tx(40).is_none() && p.tx(39).is_some(), "no transaction beyond the limit");
}
harness! {
    fn h_c23_many() { many(40, false, 1) }
    fn h_c23_many_pipe() { many(40, false, 7) }
    fn h_c23_many_destroy() { many(300, true, 1) }
    fn h_c23_many_destroy_pipe() { many(100, true, 20) }
    fn h_c23_limit40() { dflt_limit() }
    fn h_c23_pair2() { pairing(2, false) }
    fn h_c23_pair3() { pairing(3, false) }
    fn h_c23_pair3d() { pairing(3, true) }
    fn h_c23_limit() { limit(false) }
    fn h_c23_limitd() { limit(true) }
    fn h_c23_early() { early(false) }
    fn h_c23_earlyd() { early(true) }
    fn h_c23_flush() { flush(true) }
    fn h_c23_noflush() { flush(false) }
    fn h_c23_remove() { remove() }
}
