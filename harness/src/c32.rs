//! C32: the content type of a message.
use crate::{com::*, vp::*};
const GET: &[u8] = b"GET / HTTP/1.1\r\nHost: a\r\n\r\n";
fn lower(b: &[u8]) -> Vec<u8> { b.iter().map(|c| if *c >= b'A' && *c <= b'Z' { *c + 32 } else { *c }).collect() }
fn ws(c: u8) -> bool { c == b' ' || (c >= 9 && c <= 13) }
/// Which spelling of the name, with or without a NUL inside.
fn name() -> &'static [u8] { [&b"Content-Type"[..], b"CONTENT-type", b"Conte\0nt-Type", b"Content-Typ"][choose(4)] }
/// The header value: no line ends, NULs or blanks around it.
fn value(pre: &[u8], n: usize, post: &[u8]) -> Vec<u8> {
    let b = symv(n);
    for c in &b { assume(*c != b'\n' && *c != b'\r' && *c != 0); }
    let v = cat(&[pre, &b, post]);
    if pre.is_empty() { assume(!ws(v[0])); }
    if post.is_empty() { assume(!ws(v[v.len() - 1])); }
    v
}
fn request(v: &[u8]) {
    let n = name();
    let body = choose(3);
    let f: &[u8] = [&b"\r\n"[..], b"Content-Length: 1\r\n\r\nx", b"Transfer-Encoding: chunked\r\n\r\n0\r\n\r\n"][body];
    let mut p = parser(cfg0());
    req(&mut p, &cat(&[b"PUT / HTTP/1.1\r\nHost: a\r\n", n, b": ", v, b"\r\n", f, GET]));
    let t = p.tx(0).unwrap();
    let e = v.iter().position(|c| *c == b';' || *c == b',' || *c == b' ').unwrap_or(v.len());
    let want = lower(&v[..e]);
    let known = n.len() == 12;
    // a name with a NUL inside counts as well
    let known = known || n.len() == 13;
    check_obytes(ob(&t.request_content_type), if known && !want.is_empty() { Some(&want) } else { None }, "request content type");
    check(p.tx(1).map_or(true, |t| t.request_content_type.is_none()), "and of no other request");
    obs_bytes(t.request_content_type.as_ref().map_or(b"", |b| b.as_slice()));
}
fn response(v: &[u8]) {
    let n = name();
    let body = choose(4);
    let f: &[u8] = [&b"\r\n"[..], b"Content-Length: 1\r\n\r\nx", b"Transfer-Encoding: chunked\r\n\r\n0\r\n\r\n", b"Content-Length: 0\r\n\r\n"][body];
    let st: &[u8] = [&b"200"[..], b"404", b"204"][choose(3)];
    let mut p = parser(cfg0());
    req_c(&mut p, &cat(&[GET, GET]));
    res(&mut p, &cat(&[b"HTTP/1.1 ", st, b" O\r\n", n, b": ", v, b"\r\n", f]));
    let t = p.tx(0).unwrap();
    let e = v.iter().position(|c| *c == b';' || ws(*c)).unwrap_or(v.len());
    let want = lower(&v[..e]);
    // 204 without any body header has no content
    let none = n.len() == 11 || (st[0] == b'2' && st[2] == b'4' && body == 0);
    check_obytes(ob(&t.response_content_type), if none { None } else { Some(&want) }, "response content type");
    check(p.tx(1).map_or(true, |t| t.response_content_type.is_none()), "and of no other response");
    obs_bytes(t.response_content_type.as_ref().map_or(b"", |b| b.as_slice()));
}
harness! {
    fn h_c32_req3() { request(&value(b"", 3, b"")) }
    fn h_c32_req_mid() { request(&value(b"Text/", 3, b"; a=B")) }
    fn h_c32_res3() { response(&value(b"", 3, b"")) }
    fn h_c32_res_mid() { response(&value(b"Text/", 3, b"; a=B")) }
    fn t_c32_req6() { request(&value(b"", 6, b"")) }
    fn t_c32_res6() { response(&value(b"", 6, b"")) }
}
