//! C20: credentials in the Authorization header.
use crate::{com::*, vp::*};
use htp::config::Config;
use htp::transaction::{HtpAuthType as A, Transaction};
use htp::util::HtpFlags as F;
use htp::connection_parser::HtpStreamState as S;
const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn enc(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < s.len() {
        let n = s.len() - i;
        let b = [s[i], if n > 1 { s[i + 1] } else { 0 }, if n > 2 { s[i + 2] } else { 0 }];
        let v = (b[0] as u32) << 16 | (b[1] as u32) << 8 | b[2] as u32;
        o.push(B64[(v >> 18 & 63) as usize]);
        o.push(B64[(v >> 12 & 63) as usize]);
        o.push(if n > 1 { B64[(v >> 6 & 63) as usize] } else { b'=' });
        o.push(if n > 2 { B64[(v & 63) as usize] } else { b'=' });
        i += 3;
    }
    o
}
fn conf() -> Config { let mut c = cfg0(); c.parse_request_auth = true; c }
fn go(value: &[u8], c: Config, f: impl Fn(&Transaction)) {
    for x in value { assume(*x != b'\r' && *x != b'\n' && *x != 0); }
    let mut p = parser(c);
    let st = req(&mut p, &cat(&[b"GET / HTTP/1.1\r\nHost: a\r\nAuthorization: ", value, b"\r\n\r\nGET /2 "]));
    check(st == S::DATA, "credentials never end the stream");
    let t = p.tx(0).unwrap();
    obs_tx(t);
    obs(t.request_auth_type as u64);
    match &t.request_auth_username { Some(b) => obs_bytes(b.as_slice()), None => obs(u64::MAX) }
    match &t.request_auth_password { Some(b) => obs_bytes(b.as_slice()), None => obs(u64::MAX) }
    f(t);
}
fn ws(c: u8) -> bool { c == b' ' || c == b'\t' }
fn inval(t: &Transaction) -> bool { t.flags & F::AUTH_INVALID != 0 }
const fn val() -> [u8; 256] { let mut t = [255u8; 256]; let mut i = 0; while i < 64 { t[B64[i] as usize] = i as u8; i += 1; } t }
static VAL: [u8; 256] = val();
fn quad(e: &[u8], o: &mut Vec<u8>) {
    let v = |i: usize| VAL[e[i] as usize] as u32;
    let n = if e[2] == b'=' { 1 } else if e[3] == b'=' { 2 } else { 3 };
    let x = v(0) << 18 | v(1) << 12 | if n > 1 { v(2) << 6 } else { 0 } | if n > 2 { v(3) } else { 0 };
    o.push((x >> 16) as u8);
    if n > 1 { o.push((x >> 8) as u8); }
    if n > 2 { o.push(x as u8); }
}
fn creds(data: &[u8], t: &Transaction) {
    let mut k = 0;
    while k < data.len() && data[k] != b':' { k += 1; }
    check(t.request_auth_type == A::BASIC, "basic type");
    if k < data.len() {
        check_obytes(ob(&t.request_auth_username), Some(&data[..k]), "basic username");
        check_obytes(ob(&t.request_auth_password), Some(&data[k + 1..]), "basic password");
        check(!inval(t), "valid basic credentials are not flagged");
    } else {
        check(t.request_auth_username.is_none() && t.request_auth_password.is_none(), "no credentials without a colon");
        check(inval(t), "basic credentials without a colon are flagged");
    }
}
/// encoded text between concrete pieces: N symbolic alphabet characters
fn basic_enc<const N: usize>(word: &[u8], gap: &[u8], pre: &[u8], post: &[u8]) {
    let e: [u8; N] = sym();
    for c in &e { assume_tab(*c, &tab(B64)); }
    let text = cat(&[pre, &e, post]);
    let mut d = Vec::new();
    for q in text.chunks(4) { quad(q, &mut d); }
    go(&cat(&[word, gap, &text]), conf(), |t| creds(&d, t));
}
fn basic(word: &[u8], gap: &[u8], data: &[u8]) {
    go(&cat(&[word, gap, &enc(data)]), conf(), |t| creds(data, t));
}
/// one byte of the encoded text replaced
fn basic_bad(i: usize, b: u8) {
    let mut e = enc(b"ab:cde");
    let mut inb = false;
    for c in B64.iter() { if *c == b { inb = true; break; } }
    assume(!inb && b > b' ');
    e[i] = b;
    go(&cat(&[b"Basic ", &e]), conf(), |t| {
        check(t.request_auth_type == A::BASIC, "basic type");
        check(inval(t), "undecodable basic credentials are flagged");
        check(t.request_auth_username.is_none() && t.request_auth_password.is_none(), "undecodable credentials yield none");
    });
}
/// reference for the quoted user name after `username=`: Err = malformed
fn quoted(s: &[u8]) -> Option<Vec<u8>> {
    let mut i = 0;
    while i < s.len() && ws(s[i]) { i += 1; }
    if i >= s.len() || s[i] != b'"' { return None; }
    i += 1;
    let mut o: Vec<u8> = Vec::new();
    while i < s.len() {
        if s[i] == b'"' {
            if o.last() == Some(&b'\\') { o.pop(); o.push(b'"'); } else { return Some(o); }
        } else {
            o.push(s[i]);
        }
        i += 1;
    }
    None
}
fn digest(pre: &[u8], s: &[u8], post: &[u8]) {
    for x in s { assume(*x != 0x0c && *x != 0x0b); }
    let v = cat(&[s, post]);
    if let Some(l) = v.last() { assume(!ws(*l)); }
    let w = quoted(&v);
    go(&cat(&[pre, b"username=", &v]), conf(), |t| {
        check(t.request_auth_type == A::DIGEST, "digest type");
        check_obytes(ob(&t.request_auth_username), w.as_ref().map(|x| x.as_slice()), "digest username");
        check(inval(t) == w.is_none(), "malformed digest credentials are flagged");
        check(t.request_auth_password.is_none(), "digest has no password");
    });
}
fn eqn(a: &[u8], b: &[u8]) -> bool {
    if a.len() < b.len() { return false; }
    for i in 0..b.len() { let c = a[i]; let c = if c >= b'A' && c <= b'Z' { c + 32 } else { c }; if c != b[i] { return false; } }
    true
}
fn kind(v: &[u8]) {
    if !v.is_empty() { assume(!ws(v[0]) && v[0] != 0x0b && v[0] != 0x0c); let l = v[v.len() - 1]; assume(!ws(l) && l != 0x0b && l != 0x0c); }
    let w = if eqn(v, b"basic") { A::BASIC } else if eqn(v, b"digest") { A::DIGEST } else if eqn(v, b"bearer") { A::BEARER } else { A::UNRECOGNIZED };
    go(v, conf(), |t| {
        check(t.request_auth_type == w, "authentication scheme");
        if w == A::UNRECOGNIZED { check(t.request_auth_username.is_none() && t.request_auth_password.is_none() && t.request_auth_token.is_none(), "no credentials for an unknown scheme"); }
    });
}
fn bearer(gap: &[u8], tok: &[u8]) {
    assume(tok[0] > b' ' && tok[tok.len() - 1] > b' ');
    go(&cat(&[b"BeaRer", gap, tok]), conf(), |t| {
        check(t.request_auth_type == A::BEARER, "bearer type");
        check_obytes(ob(&t.request_auth_token), Some(tok), "bearer token");
        check(!inval(t), "bearer is not flagged");
    });
}
harness! {
    fn h_c20_basic4() { basic_enc::<4>(b"Basic", b" ", b"", b""); }
    fn h_c20_basic_mid() { basic_enc::<4>(b"bASIC", b"  ", b"dXNl", b"OnBhc3M="); }
    fn h_c20_basic_two() { basic_enc::<8>(b"basic", b" ", b"", b"Og=="); }
    fn h_c20_basic_len() { let n = 1 + choose(9); let mut d = b"user:pass".to_vec(); d.truncate(n); let b: [u8; 1] = sym(); d[0] = b[0]; basic(b"Basic", b"\t", &d); }
    fn h_c20_bad() { basic_bad(choose(8), sym_u8()); }
    fn h_c20_digest() { let s: [u8; 5] = sym(); digest(b"Digest ", &s, b"\", realm=\"r\""); }
    fn h_c20_digest_q() { let s: [u8; 4] = sym(); digest(b"digest realm=\"x\", ", &cat(&[b"\"a", &s]), b""); }
    fn h_c20_digest_esc() { let s: [u8; 3] = sym(); digest(b"DIGEST ", &cat(&[b"\"i\\\"", &s, b"\""]), b",x"); }
    fn h_c20_kind() { let s: [u8; 6] = sym(); kind(&s); }
    fn h_c20_kind_b() { let s: [u8; 2] = sym(); kind(&cat(&[b"B", &s, b"er x"])); }
    fn h_c20_bearer() { let s: [u8; 3] = sym(); bearer(b" ", &s); }
    fn h_c20_bearer_gap() { let s: [u8; 2] = sym(); assume(ws(s[0]) && ws(s[1])); bearer(&s, b"t:=+/"); }
    fn h_c20_off() {
        let s: [u8; 4] = sym();
        for c in &s { assume_tab(*c, &tab(B64)); }
        let mut c = cfg0();
        c.parse_request_auth = false;
        go(&cat(&[b"Basic ", &s]), c, |t| { check(t.request_auth_username.is_none() && t.request_auth_password.is_none() && !inval(t), "not parsed unless configured"); });
    }
    fn h_c20_none() {
        let s: [u8; 2] = sym();
        for x in &s { assume(*x > b' '); }
        let mut p = parser(conf());
        req(&mut p, &cat(&[b"GET / HTTP/1.1\r\nHost: a\r\nX: ", &s, b"\r\n\r\n"]));
        let t = p.tx(0).unwrap();
        obs_tx(t);
        check(t.request_auth_type == A::NONE && !inval(t), "no Authorization header");
    }
    fn h_c20_basic12_x() { basic_enc::<12>(b"Basic", b" ", b"", b""); }
    fn h_c20_digest8_x() { let s: [u8; 8] = sym(); digest(b"Digest ", &s, b"\", realm=\"r\""); }
    fn h_c20_kind8_x() { let s: [u8; 8] = sym(); kind(&s); }
}
