//! C18: numbers in the protocol are parsed exactly.
use crate::{com::*, vp::*};
use htp::parsers::{parse_chunked_length, parse_content_length, parse_protocol, parse_status};
use htp::transaction::{HtpProtocol, HtpResponseNumber};
use htp::util::convert_port;
fn blank(c: u8) -> bool { c == b' ' || c == b'\t' }
fn digit(c: u8) -> bool { c >= b'0' && c <= b'9' }
fn ws(c: u8) -> bool { c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' || c == 0x0c }
/// decimal value, None on overflow of `max`
fn dec(d: &[u8], max: u64) -> Option<u64> {
    let mut v: u64 = 0;
    for c in d {
        let x = (*c - b'0') as u64;
        if v > (max - x) / 10 { return None; }
        v = v * 10 + x;
    }
    Some(v)
}
fn run(s: &[u8], mut i: usize, f: fn(u8) -> bool) -> usize { while i < s.len() && f(s[i]) { i += 1; } i }
fn ref_cl(s: &[u8]) -> Option<u64> {
    let mut i = run(s, 0, blank);
    while i < s.len() && !digit(s[i]) { i += 1; }
    let e = run(s, i, digit);
    if e == i { return None; }
    dec(&s[i..e], u64::MAX)
}
fn cl(s: &[u8]) {
    let r = parse_content_length(s, None);
    obs(r.unwrap_or(u64::MAX));
    check(r == ref_cl(s), "content length");
}
fn hexval(c: u8) -> u64 { if c <= b'9' { (c - b'0') as u64 } else { ((c | 32) - b'a' + 10) as u64 } }
fn isx(c: u8) -> bool { c.is_ascii_hexdigit() }
fn ctl(c: u8) -> bool { c == b' ' || (c >= 9 && c <= 13) }
/// Err(()) = malformed
fn ref_ch(s: &[u8]) -> std::result::Result<(Option<u64>, bool), ()> {
    let i = run(s, 0, ctl);
    let e = run(s, i, isx);
    let t = run(s, e, blank);
    if e == i { return if t == s.len() { Ok((None, false)) } else { Err(()) }; }
    let mut v: u64 = 0;
    for c in &s[i..e] {
        if v >> 60 != 0 { return Err(()); }
        v = v << 4 | hexval(*c);
    }
    if v > 0x7fff_ffff { return Ok((None, false)); }
    let mut ext = false;
    for c in &s[t..] { if *c == b';' { ext = true; } }
    Ok((Some(v), ext))
}
fn ch(s: &[u8]) {
    let r = parse_chunked_length(s);
    let w = ref_ch(s);
    check(r.is_ok() == w.is_ok(), "chunk length accepted");
    if let (Ok(a), Ok(b)) = (r, w) {
        obs(a.0.unwrap_or(u64::MAX));
        check(a.0 == b.0, "chunk length");
        check(a.1 == b.1, "chunk extension noticed");
    }
}
fn status(s: &[u8]) {
    let i = run(s, 0, blank);
    let e = run(s, i, digit);
    let t = run(s, e, blank);
    let want = if e > i && t == s.len() { dec(&s[i..e], 65535).filter(|v| *v >= 100 && *v <= 999) } else { None };
    let r = parse_status(s);
    match want {
        Some(v) => { obs(v); check(r == HtpResponseNumber::VALID(v as u16), "status number"); }
        None => check(r == HtpResponseNumber::INVALID, "invalid status rejected"),
    }
}
fn proto(s: &[u8]) {
    let mut i = run(s, 0, ws);
    let mut want = HtpProtocol::INVALID;
    let h = b"http";
    let mut ok = s.len() >= i + 4;
    if ok { for k in 0..4 { if s[i + k] | 32 != h[k] { ok = false; break; } } }
    if ok {
        i = run(s, i + 4, ws);
        if i < s.len() && s[i] == b'/' {
            i = run(s, i + 1, |c| ws(c) || c == b'0');
            let rest = &s[i..];
            let (v, n) = if rest.len() >= 2 && rest[0] == b'.' && rest[1] == b'9' { (HtpProtocol::V0_9, 2) }
                else if rest.len() >= 3 && rest[0] == b'1' && rest[1] == b'.' && rest[2] == b'0' { (HtpProtocol::V1_0, 3) }
                else if rest.len() >= 3 && rest[0] == b'1' && rest[1] == b'.' && rest[2] == b'1' { (HtpProtocol::V1_1, 3) }
                else { (HtpProtocol::INVALID, 0) };
            if n > 0 && run(s, i + n, ws) == s.len() { want = v; }
        }
    }
    let c = cfg0();
    let p = parser(c);
    let mut lg = p.logger.clone();
    let r = parse_protocol(s, &mut lg);
    obs(r as i64 as u64);
    check(r == want, "protocol number");
}
fn port(s: &[u8]) {
    let mut ok = !s.is_empty();
    for c in s { if !digit(*c) { ok = false; break; } }
    let want = if ok { dec(s, 65535).filter(|v| *v > 0).map(|v| v as u16) } else { None };
    let r = convert_port(s);
    obs(r.unwrap_or(0) as u64);
    check(r == want, "port number");
}
/// n symbolic digits
fn digits<const N: usize>() -> [u8; N] {
    let d: [u8; N] = sym();
    for c in &d { assume_tab(*c, &tab(b"0123456789")); }
    d
}
fn hexs<const N: usize>() -> [u8; N] {
    let d: [u8; N] = sym();
    for c in &d { assume_tab(*c, &tab(b"0123456789abcdefABCDEF")); }
    d
}
harness! {
    fn h_c18_cl4() { let s: [u8; 4] = sym(); cl(&s); }
    fn h_c18_cl_len() { let s = symv(choose(4)); cl(&s); }
    fn h_c18_cl_max() { let d: [u8; 2] = digits(); let e: [u8; 1] = sym(); cl(&cat(&[b" 184467440737095516", &d, &e])); }
    fn h_c18_cl_big() { let d: [u8; 4] = digits(); cl(&d); }
    fn h_c18_cl_big_x() { let d: [u8; 6] = digits(); cl(&d); }
    fn h_c18_ch4() { let s: [u8; 4] = sym(); ch(&s); }
    fn h_c18_ch_len() { let s = symv(choose(4)); ch(&s); }
    fn h_c18_ch_lim() { let d: [u8; 2] = hexs(); let e: [u8; 2] = sym(); ch(&cat(&[&d[..1], b"fffff", &d[1..], &e, b"\r\n"])); }
    fn h_c18_ch_ovf() { let d: [u8; 2] = hexs(); let e: [u8; 1] = sym(); ch(&cat(&[&d[..1], b"00000000000000", &d[1..], &e])); }
    fn h_c18_ch_ext() { let s: [u8; 3] = sym(); ch(&cat(&[b"\r\n1a", &s, b"\r\n"])); }
    fn h_c18_st4() { let s: [u8; 4] = sym(); status(&s); }
    fn h_c18_st_len() { let s = symv(choose(6)); for c in &s { assume_tab(*c, &tab(b"0123456789 \tx+-")); } status(&s); }
    fn h_c18_st5() { let d: [u8; 5] = digits(); status(&d); }
    fn h_c18_proto_ver() { let s: [u8; 4] = sym(); proto(&cat(&[b"HTTP/", &s])); }
    fn h_c18_proto_pre() { let s: [u8; 3] = sym(); proto(&cat(&[&s, b"tP/1.1"])); }
    fn h_c18_proto_mid() { let s: [u8; 3] = sym(); proto(&cat(&[b"http", &s, b"1.0"])); }
    fn h_c18_proto_end() { let s: [u8; 2] = sym(); proto(&cat(&[b"HTTP/ 01.1", &s])); }
    fn h_c18_proto_short() { let s = symv(choose(4)); proto(&s); }
    fn h_c18_port() { let s = symv(choose(5)); port(&s); }
    fn h_c18_port5() { let d: [u8; 5] = digits(); port(&d); }
    fn h_c18_port6() { let d: [u8; 4] = digits(); port(&cat(&[b"00", &d])); }
    fn h_c18_cl6() { let s: [u8; 6] = sym(); cl(&s); }
    fn h_c18_ch6() { let s: [u8; 6] = sym(); ch(&s); }
    fn h_c18_proto_6() { let s: [u8; 6] = sym(); proto(&cat(&[b"HTTP", &s])); }
    fn h_c18_cl8_x() { let s: [u8; 8] = sym(); cl(&s); }
    fn h_c18_ch9_x() { let s: [u8; 9] = sym(); ch(&s); }
    fn h_c18_proto_8_x() { let s: [u8; 8] = sym(); proto(&cat(&[b"HTTP", &s])); }
}
