//! C12: the request line is split exactly.
use crate::{com::*, vp::*};
use htp::config::{Config, HtpServerPersonality as P, HtpUnwanted as U};
use htp::request::HtpMethod as M;
use htp::transaction::{HtpProtocol, HtpRequestProgress};
fn sp(c: u8) -> bool { c == b' ' || (c >= 9 && c <= 13) }
fn trim(mut s: &[u8]) -> &[u8] {
    while !s.is_empty() && sp(s[0]) { s = &s[1..]; }
    while !s.is_empty() && sp(s[s.len() - 1]) { s = &s[..s.len() - 1]; }
    s
}
pub struct L<'a> { method: Vec<u8>, uri: Option<&'a [u8]>, proto: Option<&'a [u8]>, lead: bool }
fn split<'a>(s: &'a [u8], last: bool, f: fn(u8) -> bool) -> Option<(&'a [u8], &'a [u8])> {
    let mut at = None;
    for i in 0..s.len() { if f(s[i]) { at = Some(i); if !last { break; } } }
    at.map(|i| (trim(&s[..i]), trim(&s[i + 1..])))
}
fn reference<'a>(line: &'a [u8], space_uri: bool, apache: bool, keep_lead: bool) -> L<'a> {
    let mut s = line;
    if apache { for i in 0..s.len() { if s[i] == 0 { s = &s[..i]; break; } } }
    let mut a = 0;
    while a < s.len() && sp(s[a]) { a += 1; }
    let mut b = a;
    while b < s.len() && !sp(s[b]) { b += 1; }
    let mut m = Vec::new();
    if keep_lead { m.extend_from_slice(&s[..a]); }
    m.extend_from_slice(&s[a..b]);
    let mut c = b;
    while c < s.len() && sp(s[c]) { c += 1; }
    let mut l = L { method: m, uri: None, proto: None, lead: a > 0 };
    if c == s.len() { return l; }
    let r = trim(&s[c..]);
    let (u, p) = match split(r, space_uri, |c| c == b' ') {
        Some(x) => x,
        None => match split(r, space_uri, sp) { Some(x) => x, None => (r, &r[..0]) },
    };
    l.uri = Some(u);
    if !p.is_empty() { l.proto = Some(p); }
    l
}
const METHODS: [(&[u8], M); 28] = [(b"GET", M::GET), (b"PUT", M::PUT), (b"POST", M::POST), (b"DELETE", M::DELETE), (b"CONNECT", M::CONNECT), (b"OPTIONS", M::OPTIONS),
    (b"TRACE", M::TRACE), (b"PATCH", M::PATCH), (b"PROPFIND", M::PROPFIND), (b"PROPPATCH", M::PROPPATCH), (b"MKCOL", M::MKCOL), (b"COPY", M::COPY), (b"MOVE", M::MOVE),
    (b"LOCK", M::LOCK), (b"UNLOCK", M::UNLOCK), (b"VERSION-CONTROL", M::VERSION_CONTROL), (b"CHECKOUT", M::CHECKOUT), (b"UNCHECKOUT", M::UNCHECKOUT), (b"CHECKIN", M::CHECKIN),
    (b"UPDATE", M::UPDATE), (b"LABEL", M::LABEL), (b"REPORT", M::REPORT), (b"MKWORKSPACE", M::MKWORKSPACE), (b"MKACTIVITY", M::MKACTIVITY),
    (b"BASELINE-CONTROL", M::BASELINE_CONTROL), (b"MERGE", M::MERGE), (b"INVALID", M::INVALID), (b"HEAD", M::HEAD)];
fn number(m: &[u8]) -> M {
    for (n, v) in METHODS { if eqb(n, m) != 0 { return v; } }
    M::UNKNOWN
}
fn proto_number(p: &[u8]) -> HtpProtocol {
    if p.len() == 8 {
        if eqb(p, b"HTTP/1.1") != 0 { return HtpProtocol::V1_1; }
        if eqb(p, b"HTTP/1.0") != 0 { return HtpProtocol::V1_0; }
        if eqb(p, b"HTTP/0.9") != 0 { return HtpProtocol::V0_9; }
    }
    HtpProtocol::UNKNOWN
}
/// `line` has no line feed, and is not an ignorable line.
fn run(line: &[u8], c: Config, eol: &[u8]) {
    for x in line { assume(*x != b'\n'); }
    if !line.is_empty() { assume(line[line.len() - 1] != b'\r'); }
    let apache = c.server_personality == P::APACHE_2;
    let unw = c.requestline_leading_whitespace_unwanted;
    let w = reference(line, c.decoder_cfg.allow_space_uri, apache, unw != U::IGNORE);
    // what a CONNECT without a target means is C24's business
    assume(!(w.uri.is_none() && eqb(&w.method, b"CONNECT") != 0));
    let mut p = parser(c);
    req(&mut p, &cat(&[line, eol]));
    let t = p.tx(0).unwrap();
    obs_tx(t);
    check_obytes(ob(&t.request_line), Some(line), "request line kept");
    check_obytes(ob(&t.request_method), Some(&w.method), "request method");
    check(t.request_method_number == number(&w.method), "request method number");
    check_obytes(ob(&t.request_uri), w.uri, "request uri");
    check_obytes(ob(&t.request_protocol), w.proto, "request protocol");
    match w.proto {
        None => {
            check(t.is_protocol_0_9, "no protocol means HTTP/0.9");
            check(t.request_protocol_number == HtpProtocol::V0_9, "HTTP/0.9 number");
        }
        Some(x) => {
            check(!t.is_protocol_0_9, "a protocol means not short-style HTTP/0.9");
            let n = proto_number(x);
            if n != HtpProtocol::UNKNOWN { check(t.request_protocol_number == n, "protocol number"); }
            check(t.request_progress == HtpRequestProgress::HEADERS, "headers follow");
        }
    }
    if w.lead { check((t.response_status_expected_number == unw) || unw == U::IGNORE, "leading whitespace status"); }
    check(t.request_ignored_lines == 0, "no ignored line");
}
fn conf(space: bool) -> Config { let mut c = cfg0(); c.set_allow_space_uri(space); c }
fn ignored(pers: P, pre: &[u8], ws_ok: bool) {
    // `pre`: lines before the request
    let mut n = 0;
    let mut ok = true;
    for l in pre.split(|c| *c == b'\n') {
        let last = l.as_ptr() as usize + l.len() == pre.as_ptr() as usize + pre.len();
        if last { ok = ok && l.is_empty(); break; }
        let mut allsp = true;
        for c in l { if !sp(*c) { allsp = false; break; } }
        if l.is_empty() || (l.len() == 1 && l[0] == b'\r') || (ws_ok && allsp) { n += 1; } else { ok = false; break; }
    }
    assume(ok);
    let mut c = cfg0();
    c.server_personality = pers;
    let mut p = parser(c);
    req(&mut p, &cat(&[pre, b"GET /x HTTP/1.1\r\n"]));
    let t = p.tx(0).unwrap();
    obs_tx(t);
    check(t.request_ignored_lines == n, "ignored lines counted");
    check_obytes(ob(&t.request_uri), Some(b"/x"), "request after ignored lines");
    check_obytes(ob(&t.request_method), Some(b"GET"), "method after ignored lines");
}
/// No protocol, and white space behind the line: HTTP/0.9 up to 16 bytes of it.
fn junk() {
    let n = 14 + choose(5);
    let mut j = vec![b' '; n];
    let s = sym::<2>();
    for c in s { assume(sp(c) || c == b'x'); }
    j[0] = s[0];
    j[n - 1] = s[1];
    for c in &j { assume(*c != b'\n'); }
    let mut p = parser(cfg0());
    req(&mut p, &cat(&[b"GET /\r\n", &j]));
    let t = p.tx(0).unwrap();
    let w = n <= 16 && s[0] != b'x' && s[1] != b'x';
    check(t.is_protocol_0_9 == w, "HTTP/0.9 iff at most 16 bytes of white space follow");
    if !w { check(t.request_progress == HtpRequestProgress::HEADERS, "headers follow"); }
    obs_tx(t);
}
/// Any number of empty lines before a request.
fn many() {
    let n = [200usize, 255, 256, 257, 300][choose(5)];
    let e: &[u8] = if choose(2) == 0 { b"\n" } else { b"\r\n" };
    let mut d = vec![];
    for _ in 0..n { d.extend_from_slice(e); }
    let s = sym_u8();
    assume(s > 32 && s < 127);
    d.extend_from_slice(&cat(&[b"GET /", &[s], b" HTTP/1.1\r\n"]));
    let mut p = parser(cfg0());
    req(&mut p, &d);
    let t = p.tx(0).unwrap();
    check(t.request_ignored_lines as usize == n, "ignored lines counted");
    check_obytes(ob(&t.request_uri), Some(&[b'/', s]), "request after ignored lines");
}
fn lead(pers: P) {
    let n = 1 + choose(6);
    let mut l = vec![b' '; n];
    let s = sym::<2>();
    for c in s { assume(c == b' ' || c == b'\t' || c == 11 || c == 12); }
    l[0] = s[0];
    l[n - 1] = s[1];
    let mut c = cfg(pers);
    if choose(2) == 1 { c.set_requestline_leading_whitespace_unwanted([U::CODE_400, U::CODE_404, U::IGNORE][choose(3)]); }
    run(&cat(&[&l, b"GET / HTTP/1.1"]), c, b"\r\n");
}
harness! {
    fn h_c12_junk() { junk() }
    fn h_c12_many() { many() }
    fn h_c12_leads() { lead(P::GENERIC) }
    fn h_c12_leads_apache() { lead(P::APACHE_2) }
    fn h_c12_leads_iis() { lead(P::IIS_5_1) }
    fn h_c12_long_uri() { let s: [u8; 2] = sym(); run(&cat(&[b"GET /", &vec![b'a'; 6000], &s, b"z HTTP/1.1"]), conf(choose(2) == 1), b"\r\n"); }
    fn h_c12_long_meth() { let s: [u8; 2] = sym(); assume(!sp(s[0]) && s[0] != 0); run(&cat(&[&vec![b'M'; 300], &s, b"/ HTTP/1.1"]), conf(false), b"\r\n"); }
    fn h_c12_long_proto() { let s: [u8; 2] = sym(); run(&cat(&[b"GET /", &s, &vec![b'P'; 600]]), conf(choose(2) == 1), b"\r\n"); }
    fn h_c12_long_sep() { let s: [u8; 2] = sym(); run(&cat(&[b"GET", &vec![b' '; 400], &s, &vec![b'\t'; 300], b"/ HTTP/1.1"]), conf(false), b"\r\n"); }
    fn h_c12_any5() { let s: [u8; 5] = sym(); assume(!sp(s[0]) || s[1] > b' '); run(&s, conf(false), b"\r\n"); }
    fn h_c12_sep() { let s: [u8; 4] = sym(); run(&cat(&[b"GET", &s, b"/ HTTP/1.1"]), conf(choose(2) == 1), b"\r\n"); }
    fn h_c12_uri() { let s: [u8; 4] = sym(); run(&cat(&[b"GET /a", &s, b"HTTP/1.0"]), conf(choose(2) == 1), b"\n"); }
    fn h_c12_two() { let s: [u8; 2] = sym(); let t: [u8; 2] = sym(); run(&cat(&[b"POST", &s, b"/b c", &t, b"HTTP/1.1"]), conf(choose(2) == 1), b"\r\n"); }
    fn h_c12_end() { let s: [u8; 4] = sym(); run(&cat(&[b"GET /", &s]), conf(choose(2) == 1), b"\r\n"); }
    fn h_c12_proto() { let s: [u8; 3] = sym(); run(&cat(&[b"GET / HTTP", &s]), conf(false), b"\r\n"); }
    fn h_c12_ver() { let s: [u8; 3] = sym(); run(&cat(&[b"GET / HTTP/", &s]), conf(false), b"\r\n"); }
    fn h_c12_apache() { let s: [u8; 4] = sym(); let c = cfg(P::APACHE_2); run(&cat(&[b"GE", &s, b"/ HTTP/1.1"]), c, b"\r\n"); }
    fn h_c12_apache2() { let s: [u8; 3] = sym(); let mut c = cfg(P::APACHE_2); c.set_allow_space_uri(choose(2) == 1); run(&cat(&[b"GET /a b", &s, b"HTTP/1.1"]), c, b"\r\n"); }
    fn h_c12_lead() { let s: [u8; 2] = sym(); let mut c = cfg0(); if choose(2) == 1 { c.set_requestline_leading_whitespace_unwanted(U::CODE_400); } run(&cat(&[&s, b"GET / HTTP/1.1"]), c, b"\r\n"); }
    fn h_c12_meth() { let i = choose(28); let m = METHODS[i].0; let mut v = m.to_vec(); let k = choose(3); let b = sym_u8(); let n = v.len(); v[[0, 1, n - 1][k]] = b; assume(b > b' '); run(&cat(&[&v, b" /a HTTP/1.1"]), conf(false), b"\r\n"); }
    fn h_c12_meth_ext() { let i = choose(28); let b: [u8; 1] = sym(); assume(b[0] > b' '); run(&cat(&[METHODS[i].0, &b, b" /a HTTP/1.1"]), conf(false), b"\r\n"); }
    fn h_c12_ign() { let s: [u8; 4] = sym(); ignored(P::MINIMAL, &s, false); }
    fn h_c12_ign_iis() { let s: [u8; 4] = sym(); ignored(P::IIS_5_0, &s, true); }
    fn t_c12_any7() { let s: [u8; 7] = sym(); assume(!sp(s[0]) || s[1] > b' '); run(&s, conf(choose(2) == 1), b"\r\n"); }
    fn t_c12_uri6() { let s: [u8; 6] = sym(); run(&cat(&[b"GET", &s, b"HTTP/1.1"]), conf(choose(2) == 1), b"\r\n"); }
    fn h_c12_apache6_x() { let s: [u8; 6] = sym(); run(&cat(&[b"G", &s, b" HTTP/1.1"]), cfg(P::APACHE_2), b"\r\n"); }
}
