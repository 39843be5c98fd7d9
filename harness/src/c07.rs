//! C07: lifecycle of a transaction as seen through the hooks.
use crate::{com::*, vp::*};
use htp::config::{Config, HtpServerPersonality as P};
use htp::connection_parser::{ConnectionParser, HtpStreamState as S, ParserData};
use htp::transaction::{HtpRequestProgress as QP, HtpResponseProgress as RP};
/// Stage at which a hook may run; hooks of a side must run in non-decreasing stage order.
fn rank(e: u8) -> u8 {
    match e {
        E_REQ_START => 1, E_REQ_LINE => 2, E_REQ_HDATA => 3, E_REQ_HEADERS => 4, E_REQ_BODY => 5, E_REQ_BODY_END => 8,
        E_REQ_TDATA => 6, E_REQ_TRAILER => 7, E_REQ_COMPLETE => 9,
        E_RES_START => 1, E_RES_LINE => 2, E_RES_HDATA => 3, E_RES_HEADERS => 4, E_RES_BODY => 5, E_RES_BODY_END => 8,
        E_RES_TDATA => 6, E_RES_TRAILER => 7, E_RES_COMPLETE => 9,
        _ => 10,
    }
}
fn is_req(e: u8) -> bool { matches!(e, 1..=6 | E_REQ_BODY | E_REQ_BODY_END | E_REQ_HDATA | E_REQ_TDATA) }
/// `junk`: bytes after the message may be reported as body data after the trailer.
pub fn order(p: &ConnectionParser, r: &Rec, junk: bool) {
    let mut reqtx = 0usize; // transactions whose request hooks have started
    let mut restx = 0usize;
    for t in 0..NTX {
        let mut rq = 0u8;
        let mut rs = 0u8;
        let mut interim = 0u32;
        let (mut pq, mut ps) = (0u8, 0u8);
        // a response to a request that was never seen: the request half counts as complete from the start
        let ghost = r.count(E_REQ_START, t) == 0 && r.count(E_RES_START, t) > 0;
        let mut qdone = ghost;
        let mut sdone = false;
        let mut tdone = false;
        for (i, e) in r.ev.iter().enumerate() {
            if e.1 as usize != t { continue; }
            let k = rank(e.0);
            check(!tdone, "no hook after transaction complete");
            let (gq, gs) = r.prog[i];
            check(gq >= pq, "request progress never goes back");
            pq = gq;
            if e.0 == E_TX_COMPLETE {
                check(qdone && sdone, "transaction complete after both halves");
                check(gq == QP::COMPLETE as u8 && gs == RP::COMPLETE as u8, "progress at transaction complete");
                tdone = true;
            } else if is_req(e.0) {
                let rep = matches!(e.0, E_REQ_BODY | E_REQ_BODY_END | E_REQ_HDATA | E_REQ_TDATA);
                if !(junk && k == 5 && rq >= 7) {
                    check(if rep { k >= rq } else { k > rq }, "request hook order");
                    rq = k;
                }
                check(!qdone && !ghost, "no request hook after request complete");
                if e.0 == E_REQ_COMPLETE { qdone = true; check(gq == QP::COMPLETE as u8, "progress at request complete"); }
            } else {
                // an interim 100 response restarts the response at its line
                if e.0 == E_RES_LINE && rs >= 2 && rs <= 3 { interim += 1; rs = 1; ps = 0; }
                let rep = matches!(e.0, E_RES_BODY | E_RES_BODY_END | E_RES_HDATA | E_RES_TDATA);
                if !(junk && k == 5 && rs >= 7) {
                    check(if rep { k >= rs } else { k > rs }, "response hook order");
                    rs = k;
                }
                check(!sdone, "no response hook after response complete");
                if e.0 == E_RES_COMPLETE { sdone = true; check(gs == RP::COMPLETE as u8, "progress at response complete"); }
            }
            if gs < ps { check(p.tx(t).map(|x| x.seen_100continue).unwrap_or(false), "response progress never goes back"); }
            ps = gs;
        }
        if qdone && sdone { check(tdone, "transaction complete reported"); }
        if let Some(x) = p.tx(t) {
            if interim > 0 { check(x.seen_100continue, "response line repeated only after 100"); }
            check((x.request_progress == QP::COMPLETE) == qdone, "request progress complete iff reported");
            check((x.response_progress == RP::COMPLETE) == sdone, "response progress complete iff reported");
        }
    }
    // transactions start in order on each side, and a request only after the previous one completed
    let mut open = false;
    for e in &r.ev {
        if e.0 == E_REQ_START {
            while r.count(E_REQ_START, reqtx) == 0 && r.count(E_RES_START, reqtx) > 0 { reqtx += 1; }
            check(e.1 as usize == reqtx, "requests start in index order");
            check(!open, "request starts after the previous one completed");
            reqtx += 1;
            open = true;
        }
        if e.0 == E_REQ_COMPLETE { open = false; }
        if e.0 == E_RES_START {
            check(e.1 as usize == restx, "responses start in index order");
            restx += 1;
        }
    }
    for e in &r.ev { obs(e.0 as u64 * 16 + e.1 as u64); }
    reach("end");
}
fn feed_q(p: &mut ConnectionParser, d: &[u8]) { if !d.is_empty() { req_c(p, d); } }
fn feed_s(p: &mut ConnectionParser, d: &[u8]) { if !d.is_empty() { res_c(p, d); } }
/// request up to i, response up to j, the rest of both, close.
fn drive(c: Config, q: &[u8], s: &[u8], i: usize, j: usize, junk: bool) {
    let _ = take_rec();
    let mut p = parser(c);
    feed_q(&mut p, &q[..i]);
    feed_s(&mut p, &s[..j]);
    feed_q(&mut p, &q[i..]);
    feed_s(&mut p, &s[j..]);
    p.close(ts());
    let r = take_rec();
    order(&p, &r, junk);
}
const Q1: &[u8] = b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 2\r\n\r\nxy";
const QC: &[u8] = b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nxy\r\n0\r\nT: u\r\n\r\nGET /b HTTP/1.1\r\nHost: a\r\n\r\n";
const S1: &[u8] = b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nab";
const SC: &[u8] = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r\n0\r\nT: u\r\n\r\nHTTP/1.1 204 N\r\nA: b\r\n\r\n";
/// n exchanges, every message in two pieces, in every order in which a response follows its request.
fn inter(n: usize) {
    let _ = take_rec();
    let mut p = parser(cfg0());
    let qs: [&[u8]; 3] = [Q1, b"GET /b HTTP/1.1\r\nHost: b\r\n\r\n", b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nxy\r\n0\r\nT: u\r\n\r\n"];
    let ss: [&[u8]; 3] = [S1, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r\n0\r\nT: u\r\n\r\n", b"HTTP/1.1 204 N\r\nA: b\r\n\r\n"];
    let at = |m: &[u8], c: usize| match c { 0 => 9, 1 => m.len() / 2, _ => m.len() - 1 };
    let (cq, cs) = (choose(3), choose(3));
    let (mut a, mut b) = (0, 0);
    while b < 2 * n {
        // a response begins once its request is complete
        let go_r = b / 2 < a / 2 ;
        let op = if a == 2 * n { 1 } else if !go_r { 0 } else { choose(2) };
        if op == 0 { let m = qs[a / 2]; let k = at(m, cq); req_c(&mut p, if a % 2 == 0 { &m[..k] } else { &m[k..] }); a += 1; }
        else { let m = ss[b / 2]; let k = at(m, cs); res_c(&mut p, if b % 2 == 0 { &m[..k] } else { &m[k..] }); b += 1; }
    }
    p.close(ts());
    let r = take_rec();
    order(&p, &r, false);
    for t in 0..n {
        for e in [E_REQ_START, E_REQ_LINE, E_REQ_HEADERS, E_REQ_COMPLETE, E_RES_START, E_RES_LINE, E_RES_HEADERS, E_RES_COMPLETE, E_TX_COMPLETE] {
            check(r.count(e, t) == 1, "each callback once");
        }
        check(r.count(E_REQ_TRAILER, t) == (t == 2) as usize && r.count(E_RES_TRAILER, t) == (t == 1) as usize, "trailers where there are trailers");
    }
    check(p.tx_size() == n, "all transactions");
}
harness! {
    fn h_c07_three() { inter(3) }
    // every interleaving point of one request and one response
    fn h_c07_il() {
        let i = choose(Q1.len() + 1);
        let j = choose(S1.len() + 1);
        drive(cfg0(), Q1, S1, i, j, false);
    }
    fn h_c07_ilc() {
        let i = 40 + choose(QC.len() + 1 - 40);
        let j = 40 + choose(SC.len() + 1 - 40);
        // the second response only after the second request
        assume(i == QC.len() || j <= 65);
        drive(cfg0(), QC, SC, i, j, false);
    }
    fn h_c07_100() {
        let s = b"HTTP/1.1 100 C\r\n\r\nHTTP/1.1 100 C\r\nA: b\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\na";
        let i = choose(Q1.len() + 1);
        let j = choose(s.len() + 1);
        drive(cfg0(), Q1, s, i, j, false);
    }
    // arbitrary bytes at the main protocol elements
    fn h_c07_qline() {
        let b: [u8; 4] = sym();
        drive(cfg0(), &cat(&[&b, b" / HTTP/1.1\r\nHost: a\r\n\r\n"]), S1, 0, 0, true);
    }
    fn h_c07_qproto() {
        let b: [u8; 3] = sym();
        drive(cfg0(), &cat(&[b"GET /", &b, b"\r\nA: b\r\n\r\n"]), S1, 0, 0, true);
    }
    fn h_c07_qhdr() {
        let b: [u8; 4] = sym();
        drive(cfg0(), &cat(&[b"GET / HTTP/1.1\r\nA", &b, b"\r\n\r\n"]), S1, 0, 0, true);
    }
    fn h_c07_qcl() {
        let b: [u8; 2] = sym();
        drive(cfg0(), &cat(&[b"POST / HTTP/1.1\r\nContent-Length: ", &b, b"\r\n\r\nxyz\r\n"]), S1, 0, 0, true);
    }
    fn h_c07_qch() {
        let b: [u8; 2] = sym();
        drive(cfg0(), &cat(&[b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", &b, b"\r\nxy\r\n0\r\n\r\n"]), S1, 0, 0, true);
    }
    fn h_c07_qnext() {
        let b: [u8; 3] = sym();
        drive(cfg0(), &cat(&[Q1, &b, b"GET / HTTP/1.1\r\nA: b\r\n\r\n"]), S1, 0, 0, true);
    }
    fn h_c07_sline() {
        let b: [u8; 3] = sym();
        drive(cfg0(), Q1, &cat(&[&b, b"P/1.1 200 OK\r\nContent-Length: 1\r\n\r\na"]), Q1.len(), 0, true);
    }
    fn h_c07_sstat() {
        let b: [u8; 3] = sym();
        drive(cfg0(), Q1, &cat(&[b"HTTP/1.1 ", &b, b" OK\r\nA: b\r\n\r\nab"]), Q1.len(), 0, true);
    }
    fn h_c07_shdr() {
        let b: [u8; 4] = sym();
        drive(cfg0(), Q1, &cat(&[b"HTTP/1.1 200 OK\r\nA", &b, b"\r\nContent-Length: 1\r\n\r\na"]), Q1.len(), 0, true);
    }
    fn h_c07_sch() {
        let b: [u8; 2] = sym();
        drive(cfg0(), Q1, &cat(&[b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n", &b, b"\r\nab\r\n0\r\n\r\n"]), Q1.len(), 0, true);
    }
    fn h_c07_snext() {
        let b: [u8; 3] = sym();
        drive(cfg0(), Q1, &cat(&[S1, &b, b"TP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"]), Q1.len(), 0, true);
    }
    fn h_c07_noreq() {
        let b: [u8; 2] = sym();
        drive(cfg0(), b"", &cat(&[b"HTTP/1.1 2", &b, b" OK\r\nContent-Length: 0\r\n\r\n"]), 0, 0, true);
    }
    fn h_c07_early() {
        // the stream ends at any point
        let d = cat(&[QC]);
        let i = choose(d.len() + 1);
        let j = choose(2) * 65;
        drive(cfg0(), &d[..i], &SC[..j], i, 0, true);
    }
    fn h_c07_earlys() {
        let j = choose(SC.len() + 1);
        drive(cfg0(), QC, &SC[..j], QC.len(), 0, true);
    }
    fn h_c07_connect() {
        let b: [u8; 3] = sym();
        let q = b"CONNECT a:1 HTTP/1.1\r\nHost: a:1\r\n\r\nGET / HTTP/1.1\r\nHost: b\r\n\r\n";
        drive(cfg0(), q, &cat(&[b"HTTP/1.1 ", &b, b" OK\r\nA: b\r\n\r\n"]), 35, 0, true);
    }
    // known finding: a response without a request while an earlier request is still unfinished
    fn h_c07_unmatched() {
        let _ = take_rec();
        let mut p = parser(cfg0());
        feed_q(&mut p, &QC[..76]);
        feed_s(&mut p, SC);
        feed_q(&mut p, &QC[76..]);
        p.close(ts());
        let r = take_rec();
        for t in 0..NTX {
            check(r.count(E_TX_COMPLETE, t) <= 1, "transaction complete at most once");
        }
    }
}
