//! C10: how a body is framed, and the flags for framing that servers read differently.
use crate::{com::*, vp::*};
use htp::connection_parser::HtpStreamState as S;
use htp::transaction::{HtpRequestProgress as QP, HtpTransferCoding as TC};
use htp::util::HtpFlags as F;
fn sp(c: u8) -> bool { c == b' ' || (c >= 9 && c <= 13) }
fn low(c: u8) -> u8 { if c >= b'A' && c <= b'Z' { c + 32 } else { c } }
fn trim(mut s: &[u8]) -> &[u8] {
    while !s.is_empty() && sp(s[0]) { s = &s[1..]; }
    while !s.is_empty() && sp(s[s.len() - 1]) { s = &s[..s.len() - 1]; }
    s
}
fn norm(s: &[u8]) -> Vec<u8> { let mut v = Vec::new(); for c in trim(s) { if *c != 0 { v.push(low(*c)); } } v }
fn contains(v: &[u8], w: &[u8]) -> bool {
    let h = norm(v);
    if h.len() < w.len() { return false; }
    for i in 0..h.len() + 1 - w.len() { if eqb(&h[i..i + w.len()], w) != 0 { return true; } }
    false
}
/// first run of digits after optional leading junk
fn number(v: &[u8]) -> Option<u64> {
    let v = trim(v);
    let mut i = 0;
    while i < v.len() && !(v[i] >= b'0' && v[i] <= b'9') { i += 1; }
    if i == v.len() { return None; }
    let mut n = 0u64;
    while i < v.len() && v[i] >= b'0' && v[i] <= b'9' { n = n * 10 + (v[i] - b'0') as u64; i += 1; }
    Some(n)
}
fn plain(v: &[u8]) { for c in v { assume(*c != b'\n' && *c != b'\r'); } }
const M: u64 = F::REQUEST_SMUGGLING | F::REQUEST_INVALID_T_E | F::REQUEST_INVALID_C_L | F::REQUEST_INVALID;
/// te: Transfer-Encoding (joined when repeated); cl: the first Content-Length; dup/folded: of the Content-Length.
fn expect_req(head: &[u8], v11: bool, te: Option<&[u8]>, cl: Option<&[u8]>, dup: bool, folded: bool) {
    let (tc, n, fl) = match (te, cl) {
        (Some(t), _) => {
            if contains(t, b"chunked") {
                let mut f = 0;
                if !v11 { f |= F::REQUEST_INVALID_T_E | F::REQUEST_SMUGGLING; }
                if cl.is_some() { f |= F::REQUEST_SMUGGLING; }
                (TC::CHUNKED, None, f)
            } else { (TC::INVALID, None, F::REQUEST_INVALID_T_E | F::REQUEST_INVALID) }
        }
        (None, Some(c)) => {
            let f = if dup || folded { F::REQUEST_SMUGGLING } else { 0 };
            match number(c) { Some(n) => (TC::IDENTITY, Some(n), f), None => (TC::INVALID, None, f | F::REQUEST_INVALID_C_L | F::REQUEST_INVALID) }
        }
        (None, None) => (TC::NO_BODY, None, 0),
    };
    let mut p = parser(cfg0());
    let st = req(&mut p, head);
    let t = p.tx(0).unwrap();
    obs_tx(t);
    obs(st as u64);
    check(t.request_transfer_coding == tc, "request transfer coding");
    check(t.request_content_length == n, "request content length");
    check(t.flags & M == fl, "request framing flags");
    check(t.request_has_body() == (tc == TC::CHUNKED || tc == TC::IDENTITY), "request_has_body");
    check((st == S::ERROR) == (tc == TC::INVALID), "a request that cannot be framed ends the stream, others do not");
    check((t.request_progress == QP::COMPLETE) == (tc == TC::NO_BODY || n == Some(0)), "complete iff no body is expected");
}
fn line(v11: bool) -> &'static [u8] { if v11 { b"POST / HTTP/1.1\r\nHost: a\r\n" } else { b"POST / HTTP/1.0\r\nHost: a\r\n" } }
/// The protocol as it may be: chunked coding is fine with HTTP/1.1 and nothing else.
fn te_proto() {
    let c = sym::<2>();
    for x in c { assume(x > 32 && x < 127); }
    let cl = choose(2) == 1;
    let d = cat(&[b"POST / HTTP/", &c[..1], b".", &c[1..], b"\r\nHost: a\r\nTransfer-Encoding: chunked\r\n", if cl { b"Content-Length: 3\r\n" } else { b"" }, b"\r\n"]);
    expect_req(&d, c[0] == b'1' && c[1] == b'1', Some(b"chunked"), if cl { Some(b"3") } else { None }, false, false)
}
fn te_value(n: usize, cl: bool) {
    // "chunked" with n symbolic bytes put at any position, or replacing as many
    let v11 = choose(2) == 1;
    let k = choose(8);
    let del = choose(2);
    let s = symv(n);
    plain(&s);
    let w = b"Chunked";
    let to = if k + del * n > 7 { 7 } else { k + del * n };
    let v = cat(&[&w[..k], &s, &w[to..]]);
    // an empty value at the end of the header is still a header
    let d = cat(&[line(v11), b"Transfer-Encoding:", &v, b"\r\n", if cl { b"Content-Length: 3\r\n" } else { b"" }, b"\r\n"]);
    expect_req(&d, v11, Some(&v), if cl { Some(b"3") } else { None }, false, false)
}
fn names(which: bool) {
    // a header whose name differs in one byte is another header
    let n: &[u8] = if which { b"Transfer-Encoding" } else { b"Content-Length" };
    let k = choose(n.len());
    let s = sym_u8();
    assume(s != b':' && s < 128 && s != b'\n' && s != b'\r' && !sp(s) && !(s >= 28 && s <= 31));
    let mut m = n.to_vec();
    let ins = choose(2) == 1;
    // a line that starts with a zero continues the one before
    assume(k > 0 || s != 0);
    if ins { m.insert(k, s); } else { m[k] = s; }
    let same = { let a = norm(&m); let b = norm(n); a.len() == b.len() && eqb(&a, &b) != 0 };
    let d = cat(&[line(true), &m, b": ", if which { b"chunked" } else { b"7" }, b"\r\n\r\n"]);
    if which { expect_req(&d, true, if same { Some(b"chunked") } else { None }, None, false, false) }
    else { expect_req(&d, true, None, if same { Some(b"7") } else { None }, false, false) }
}
fn cl_value(n: usize) {
    let v = symv(n);
    plain(&v);
    let d = cat(&[line(choose(2) == 1), b"Content-Length:", &v, b"\r\n\r\n"]);
    // two digits before junk and no value at all are both covered
    expect_req(&d, true, None, Some(&v), false, false)
}
fn cl_twice() {
    let (a, b) = (sym::<1>(), sym::<1>());
    plain(&a); plain(&b);
    let d = cat(&[line(true), b"Content-Length: 1", &a, b"\r\nX: y\r\ncontent-length: ", &b, b"\r\n\r\n"]);
    expect_req(&d, true, None, Some(&cat(&[b"1", &a])), true, false)
}
fn cl_folded() {
    let s = sym_u8();
    assume(s == b' ' || s == b'\t');
    let dg = sym_u8();
    assume(dg >= b'0' && dg <= b'9');
    let lf: &[u8] = if choose(2) == 0 { b"\r\n" } else { b"\n" };
    let d = cat(&[line(true), b"Content-Length:", lf, &[s, dg], b"\r\nX: y\r\n\r\n"]);
    expect_req(&d, true, None, Some(&[dg]), false, true)
}
fn te_twice() {
    let (a, b) = (choose(3), choose(3));
    const V: [&[u8]; 3] = [b"identity", b"chunked", b"gzip"];
    let s = sym_u8();
    assume(s == b'T' || s == b't');
    let d = cat(&[line(true), b"Transfer-Encoding: ", V[a], b"\r\nX: y\r\n", &[s], b"ransfer-encoding: ", V[b], b"\r\n\r\n"]);
    expect_req(&d, true, Some(&cat(&[V[a], b", ", V[b]])), None, false, false)
}
fn none() {
    // any method, no framing header: no body
    const MM: [&[u8]; 5] = [b"GET", b"POST", b"PUT", b"HEAD", b"XYZ"];
    let h = sym::<2>();
    for c in h { assume(c >= b'a' && c <= b'z'); }
    let d = cat(&[MM[choose(5)], b" / HTTP/1.1\r\nHost: a\r\nX", &h, b": 5\r\n\r\n"]);
    expect_req(&d, true, None, None, false, false)
}
fn expect_res(hd: &[u8], te: Option<&[u8]>, cl: Option<&[u8]>, dup: bool, ct_br: bool) {
    let mut p = parser(cfg0());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    let st = res(&mut p, hd);
    let t = p.tx(0).unwrap();
    obs_tx(t);
    let chunked = match te { Some(v) => contains(v, b"chunked"), None => false };
    let (tc, n, fl, err) = if chunked { (TC::CHUNKED, None, if cl.is_some() { F::REQUEST_SMUGGLING } else { 0 }, false) } else {
        match cl {
            Some(c) => (TC::IDENTITY, number(c), if dup { F::REQUEST_SMUGGLING } else { 0 }, number(c).is_none()),
            None => (TC::IDENTITY, None, 0, ct_br),
        }
    };
    check((st == S::ERROR) == err, "a response that cannot be framed ends the stream, others do not");
    if !err { check(t.response_transfer_coding == tc, "response transfer coding"); }
    check(t.response_content_length == n, "response content length");
    check(t.flags & F::REQUEST_SMUGGLING == fl, "response framing flags");
}
fn res_te(n: usize, cl: bool) {
    let k = choose(8);
    let del = choose(2);
    let s = symv(n);
    plain(&s);
    let w = b"Chunked";
    let to = if k + del * n > 7 { 7 } else { k + del * n };
    let v = cat(&[&w[..k], &s, &w[to..]]);
    let d = cat(&[b"HTTP/1.", &[b'0' + choose(2) as u8], b" 200 OK\r\nTransfer-Encoding: ", &v, b"\r\n", if cl { b"Content-Length: 3\r\n" } else { b"" }, b"\r\n"]);
    expect_res(&d, Some(&v), if cl { Some(b"3") } else { None }, false, false)
}
fn res_names(which: bool) {
    let n: &[u8] = if which { b"Transfer-Encoding" } else { b"Content-Length" };
    let k = choose(n.len());
    let s = sym_u8();
    assume(s != b':' && s < 128 && s != b'\n' && s != b'\r' && !sp(s) && !(s >= 28 && s <= 31));
    let mut m = n.to_vec();
    let ins = choose(2) == 1;
    assume(k > 0 || s != 0);
    if ins { m.insert(k, s); } else { m[k] = s; }
    let same = { let a = norm(&m); let b = norm(n); a.len() == b.len() && eqb(&a, &b) != 0 };
    let d = cat(&[b"HTTP/1.1 200 OK\r\nX: y\r\n", &m, b": ", if which { b"chunked" } else { b"7" }, b"\r\n\r\n"]);
    if which { expect_res(&d, if same { Some(b"chunked") } else { None }, None, false, false) }
    else { expect_res(&d, None, if same { Some(b"7") } else { None }, false, false) }
}
fn res_te_twice() {
    let (a, b) = (choose(3), choose(3));
    const V: [&[u8]; 3] = [b"identity", b"chunked", b"gzip"];
    let s = sym_u8();
    assume(s == b'T' || s == b't');
    let d = cat(&[b"HTTP/1.1 200 OK\r\nTransfer-Encoding: ", V[a], b"\r\nX: y\r\n", &[s], b"ransfer-encoding: ", V[b], b"\r\n\r\n"]);
    expect_res(&d, Some(&cat(&[V[a], b", ", V[b]])), None, false, false)
}
fn res_cl(n: usize) {
    let v = symv(n);
    plain(&v);
    let d = cat(&[b"HTTP/1.1 200 OK\r\nContent-Length: ", &v, b"\r\n\r\n"]);
    expect_res(&d, None, Some(&v), false, false)
}
fn res_cl_twice() {
    let (a, b) = (sym::<1>(), sym::<1>());
    plain(&a); plain(&b);
    let d = cat(&[b"HTTP/1.1 200 OK\r\nContent-Length: 1", &a, b"\r\nX: y\r\ncontent-length: ", &b, b"\r\n\r\n"]);
    expect_res(&d, None, Some(&cat(&[b"1", &a])), true, false)
}
fn res_ct() {
    // self-delimiting multipart/byteranges is not supported; any other type is delimited by the close
    let w = b"multipart/byteranges";
    let k = choose(w.len());
    let s = sym_u8();
    assume(s > 32 && s < 127 && s != b';');
    let mut v = w.to_vec();
    v[k] = s;
    let cl = choose(3);
    let h: &[u8] = [&b""[..], b"Content-Length: 3\r\n", b"Transfer-Encoding: chunked\r\n"][cl];
    let br = low(s) == w[k];
    let d = cat(&[b"HTTP/1.1 206 OK\r\n", h, b"Content-Type: ", &v, b"; boundary=x\r\n\r\n"]);
    expect_res(&d, if cl == 2 { Some(b"chunked") } else { None }, if cl == 1 { Some(b"3") } else { None }, false, br)
}
harness! {
    fn h_c10_te1() { te_value(1, false) }
    fn h_c10_te1_cl() { te_value(1, true) }
    fn h_c10_te2() { te_value(2, false) }
    fn h_c10_te_name() { names(true) }
    fn h_c10_cl_name() { names(false) }
    fn h_c10_cl() { cl_value(3) }
    fn h_c10_cl_twice() { cl_twice() }
    fn h_c10_te_proto() { te_proto() }
    fn h_c10_cl_folded() { cl_folded() }
    fn h_c10_te_twice() { te_twice() }
    fn h_c10_none() { none() }
    fn h_c10_res_te1() { res_te(1, false) }
    fn h_c10_res_te1_cl() { res_te(1, true) }
    fn h_c10_res_te_name() { res_names(true) }
    fn h_c10_res_cl_name() { res_names(false) }
    fn h_c10_res_te_twice() { res_te_twice() }
    fn h_c10_res_cl() { res_cl(3) }
    fn h_c10_res_cl_twice() { res_cl_twice() }
    fn h_c10_res_ct() { res_ct() }
    fn h_c10_te2_cl_x() { te_value(2, true) }
    fn h_c10_cl_x() { cl_value(5) }
    fn h_c10_res_te2_x() { res_te(2, true) }
    fn h_c10_res_cl_x() { res_cl(5) }
}
