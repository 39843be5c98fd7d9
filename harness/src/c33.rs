//! C33: a connection that closes inside a message keeps what was received of it.
use crate::{com::*, vp::*};
use htp::transaction::{HtpRequestProgress as QP, HtpResponseProgress as RP};
const GET: &[u8] = b"GET / HTTP/1.1\r\nHost: a\r\n\r\n";
const VAL: [u8; 256] = {
    let mut t = [0; 256];
    let mut i = 33;
    while i < 127 { if i != 58 { t[i] = 1; } i += 1; }
    t
};
/// A message, piece by piece: what each piece adds once it is complete.
enum P<'a> { Line(&'a [u8]), Head(&'a [u8], Vec<u8>), Raw(&'a [u8]), Body(&'a [u8]) }
/// Closes the connection at any point of the message; with `piece`, the message comes in two parts.
fn run(side: usize, m: &[P], first: [&[u8]; 3], piece: bool, to_close: bool) {
    let mut d = vec![];
    for x in m {
        match x {
            P::Line(l) | P::Raw(l) | P::Body(l) => d.extend_from_slice(l),
            P::Head(n, v) => d.extend_from_slice(&cat(&[n, b": ", v, b"\r\n"])),
        }
    }
    let mut p = parser(cfg0());
    if side == 1 { req(&mut p, &cat(&[GET, GET])); }
    let _ = take_rec();
    let k = choose(d.len() + 1);
    let j = if piece { choose(k + 1) } else { 0 };
    for c in [&d[..j], &d[j..k]] {
        if !c.is_empty() { if side == 0 { req(&mut p, c); } else { res(&mut p, c); } }
    }
    p.close(ts());
    let r = take_rec();
    if k == 0 { return; }
    let t = p.tx(0).unwrap();
    let hs = if side == 0 { &t.request_headers } else { &t.response_headers };
    // what was complete
    let (mut e, mut n, mut line, mut body, mut inside) = (0, 0, false, vec![], false);
    for x in m {
        let l = match x {
            P::Line(l) | P::Raw(l) => l.len(),
            P::Head(a, v) => a.len() + v.len() + 4,
            P::Body(l) => { body.extend_from_slice(&l[..k.saturating_sub(e).min(l.len())]); l.len() }
        };
        if e >= k { break; }
        e += l;
        if k < e { inside = matches!(x, P::Head(..)); break; }
        match x {
            P::Line(_) => line = true,
            P::Head(a, v) => {
                let h = match hs.elements.get(n) { Some(h) => h, None => { check(false, "a complete header is kept"); return; } };
                check_bytes(h.name.as_slice(), a, "header name");
                check_bytes(h.value.as_slice(), v, "header value");
                n += 1;
            }
            _ => {}
        }
    }
    check(hs.elements.len() <= n + inside as usize, "no other headers");
    let b = if side == 0 { &r.req_body[0] } else { &r.res_body[0] };
    if line { check_bytes(b, &body, "the body so far"); }
    if line {
        let f = if side == 0 { [&t.request_method, &t.request_uri, &t.request_protocol] } else { [&t.response_protocol, &t.response_status, &t.response_message] };
        for (x, w) in f.into_iter().zip(first) { check_bytes(x.as_ref().map_or(b"?", |x| x.as_slice()), w, "first line"); }
    }
    if side == 0 {
        check(r.count(E_REQ_START, 0) == 1 && r.count(E_REQ_LINE, 0) == 1, "one request");
        check(p.tx_size() == 1, "one transaction");
        if k == d.len() { check(t.request_progress == QP::COMPLETE, "complete"); }
    } else {
        check(r.count(E_RES_START, 0) == 1, "one response");
        if k == d.len() || to_close && line { check(t.response_progress == RP::COMPLETE, "complete"); }
        check(p.tx(1).map_or(true, |x| x.response_status.is_none() && x.response_headers.elements.is_empty()), "nothing of it in the next");
    }
    obs_tx(t);
}
fn go(side: usize, kind: usize, piece: bool) {
    let s = sym::<3>();
    for x in s { assume_tab(x, &VAL); }
    let uri = cat(&[b"/", &s[..1]]);
    let line = if side == 0 { cat(&[b"PUT ", &uri, b" HTTP/1.1\r\n"]) } else { cat(&[b"HTTP/1.1 200 ", &s[..1], b"\r\n"]) };
    let first: [&[u8]; 3] = if side == 0 { [b"PUT", &uri, b"HTTP/1.1"] } else { [b"HTTP/1.1", b"200", &s[..1]] };
    let h1 = P::Head(if side == 0 { b"Host" } else { b"Server" }, s[1..2].to_vec());
    let h2 = P::Head(b"X-Y", cat(&[b"a", &s[2..]]));
    let l = P::Line(&line);
    match kind {
        0 => run(side, &[l, h1, h2, P::Head(b"Content-Length", b"3".to_vec()), P::Raw(b"\r\n"), P::Body(b"xyz")], first, piece, false),
        1 => run(side, &[l, h1, P::Head(b"Transfer-Encoding", b"chunked".to_vec()), P::Raw(b"\r\n2\r\n"), P::Body(b"xy"), P::Raw(b"\r\n1\r\n"), P::Body(b"z"),
            P::Raw(b"\r\n0\r\n"), h2, P::Raw(b"\r\n")], first, piece, false),
        _ => run(side, &[l, h1, h2, P::Raw(b"\r\n"), P::Body(b"xyz")], first, piece, true),
    }
}
harness! {
    fn h_c33_req() { go(0, 0, false) }
    fn h_c33_req_chunked() { go(0, 1, false) }
    fn h_c33_req_cut() { go(0, 0, true) }
    fn h_c33_req_chunked_cut() { go(0, 1, true) }
    fn h_c33_res() { go(1, 0, false) }
    fn h_c33_res_chunked() { go(1, 1, false) }
    fn h_c33_res_close() { go(1, 2, false) }
    fn h_c33_res_cut() { go(1, 0, true) }
    fn h_c33_res_chunked_cut() { go(1, 1, true) }
    fn h_c33_res_close_cut() { go(1, 2, true) }
}
