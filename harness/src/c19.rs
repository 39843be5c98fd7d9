//! C19: which host and port a request is for, and the flags that say it is doubtful.
use crate::{com::*, refm::*, vp::*};
use htp::config::{Config, HtpServerPersonality as P};
use htp::util::{validate_hostname, HtpFlags as F};
use std::str::FromStr;
fn valid(h: &[u8]) -> bool {
    if h.is_empty() || h.len() > 255 { return false; }
    if h[0] == b'[' {
        let mut e = 1;
        while e < h.len() && h[e] != b']' && h[e] != b'#' && h[e] != b'?' && h[e] != b'/' { e += 1; }
        if e == 1 || e >= h.len() || h[e] != b']' { return false; }
        return match std::str::from_utf8(&h[1..e]) { Ok(s) => std::net::Ipv6Addr::from_str(s).is_ok(), Err(_) => false };
    }
    let mut label = 0;
    for (i, c) in h.iter().enumerate() {
        if *c == b'.' {
            if label == 0 { return false; }
            label = 0;
        } else {
            if !(c.is_ascii_alphanumeric() || *c == b'_' || *c == b'-') { return false; }
            label += 1;
            if label > 63 { return false; }
        }
        let _ = i;
    }
    true
}
struct Hp { host: Vec<u8>, port: Option<Option<u16>>, valid: bool }
fn portnum(p: &[u8]) -> Option<u16> {
    let mut v: u32 = 0;
    if p.is_empty() { return None; }
    for c in p { if *c < b'0' || *c > b'9' || v > 6553 { return None; } v = v * 10 + (*c - b'0') as u32; }
    if v > 0 && v < 65536 { Some(v as u16) } else { None }
}
/// host[:port]; None when there is no host at all
fn hostport(s: &[u8]) -> Option<Hp> {
    if s.first() == Some(&b'/') { return None; }
    let mut a = 0;
    while a < s.len() && s[a] == b' ' { a += 1; }
    let mut e = a;
    if a < s.len() && s[a] == b'[' {
        let mut k = a + 1;
        while k < s.len() && s[k] != b']' && s[k] != b'/' && s[k] != b'?' && s[k] != b'#' { k += 1; }
        if k > a + 1 { e = if k < s.len() && s[k] == b']' { k + 1 } else { k }; }
    }
    if e == a { while e < s.len() && s[e] != b'/' && s[e] != b'?' && s[e] != b'#' && s[e] != b':' { e += 1; } }
    if e == a { return None; }
    let mut t = e;
    while t > a && s[t - 1] == b' ' { t -= 1; }
    let host = s[a..t].to_vec();
    let mut ok = valid(&host);
    let mut port = None;
    if e < s.len() {
        let mut b = e + 1;
        while b < s.len() && s[b] == b' ' { b += 1; }
        let mut f = b;
        while f < s.len() && s[f] != b'/' && s[f] != b'?' && s[f] != b'#' { f += 1; }
        if s[e] == b':' && f > b {
            if f < s.len() { ok = false; }
            let mut g = b;
            while g < f && s[g] != b' ' { g += 1; }
            let n = portnum(&s[b..g]);
            if n.is_none() { ok = false; }
            port = Some(n);
        } else {
            ok = false;
        }
    }
    Some(Hp { host, port, valid: ok })
}
fn lower(v: &[u8]) -> Vec<u8> { let mut o = v.to_vec(); for b in o.iter_mut() { if *b >= b'A' && *b <= b'Z' { *b += 32; } } o }
fn nocase(a: &[u8], b: &[u8]) -> bool { eqb(&lower(a), &lower(b)) != 0 }
const HF: u64 = F::HOST_AMBIGUOUS | F::HOSTH_INVALID | F::HOSTU_INVALID | F::HOST_MISSING;
/// a header value as the header parser keeps it
fn clean(s: &[u8]) {
    for x in s { assume(*x > b' ' || *x == b' '); assume(*x != 0x7f); }
    if !s.is_empty() { assume(s[0] != b' ' && s[s.len() - 1] != b' '); }
    if s.len() > 1 { assume(!(s[0] == b'/' && s[1] == b'/')); }
}
/// uri: (text, host, port) as already known; header: Host value
fn run(uri: &[u8], uhost: Option<&[u8]>, uport: Option<u16>, uinv: bool, host: Option<&[u8]>, proto: &[u8]) {
    let mut want = 0;
    if uinv { want |= F::HOSTU_INVALID; }
    let mut h: Option<Vec<u8>> = uhost.map(|x| x.to_vec());
    let mut p = uport;
    match host {
        None => if proto[proto.len() - 1] == b'1' { want |= F::HOST_MISSING; },
        Some(v) => match hostport(v) {
            None => { want |= F::HOSTH_INVALID; if h.is_some() { want |= F::HOST_AMBIGUOUS; } }
            Some(x) => {
                if !x.valid { want |= F::HOSTH_INVALID; }
                match &h {
                    None => { h = Some(lower(&x.host)); if let Some(n) = x.port { p = n; } }
                    Some(y) => {
                        if !nocase(y, &x.host) { want |= F::HOST_AMBIGUOUS; }
                        if let Some(n) = x.port { if p.is_some() && p != n { want |= F::HOST_AMBIGUOUS; } }
                    }
                }
            }
        },
    }
    let mut ps = parser(cfg0());
    let hd = match host { Some(v) => cat(&[b"Host: ", v, b"\r\n"]), None => b"X: y\r\n".to_vec() };
    req(&mut ps, &cat(&[b"GET ", uri, b" ", proto, b"\r\n", &hd, b"\r\n"]));
    let t = ps.tx(0).unwrap();
    obs_tx(t);
    match &t.request_hostname { Some(b) => obs_bytes(b.as_slice()), None => obs(u64::MAX) }
    obs(t.request_port_number.map(|x| x as u64).unwrap_or(u64::MAX));
    check_obytes(ob(&t.request_hostname), h.as_ref().map(|x| x.as_slice()), "request hostname");
    check(t.request_port_number == p, "request port");
    check(t.flags & HF == want, "host flags");
}
/// CONNECT: the target is the authority
fn connect(s: &[u8]) {
    for x in s { assume(*x > b' ' && *x != 0x7f); }
    assume(s[0] != b'/');
    let w = hostport(s);
    let mut ps = parser(cfg0());
    req(&mut ps, &cat(&[b"CONNECT ", s, b" HTTP/1.0\r\n\r\n"]));
    let t = ps.tx(0).unwrap();
    obs_tx(t);
    match w {
        None => check(t.request_hostname.is_none(), "no hostname"),
        Some(x) => {
            // normalization decodes the name, lowercases it and drops trailing dots
            for c in &x.host { assume(*c != b'%' && *c != b'+'); }
            let mut h = lower(&x.host);
            while h.last() == Some(&b'.') { h.pop(); }
            check_obytes(ob(&t.request_hostname), Some(&h), "CONNECT hostname");
            check(t.request_port_number == x.port.unwrap_or(None), "CONNECT port");
            let inv = !x.valid || !valid(&h) || x.port == Some(None);
            check((t.flags & F::HOSTU_INVALID != 0) == inv, "CONNECT target validity");
        }
    }
}
/// absolute URI with a symbolic host part
fn absuri(s: &[u8], hh: &[u8]) {
    for x in s { assume(*x > b' ' && *x != 0x7f && *x != b'%' && *x != b'+' && *x != b'@'); }
    assume(s[0] != b'/');
    let e = { let mut e = 0; while e < s.len() && s[e] != b'/' && s[e] != b'?' && s[e] != b'#' { e += 1; } e };
    let a = &s[..e];
    let w = hostport(a);
    match w {
        None => {}
        Some(x) => {
            let mut h = lower(&x.host);
            while h.last() == Some(&b'.') { h.pop(); }
            let uinv = !valid(&h) || x.port == Some(None);
            run(&cat(&[b"http://", s, b"/"]), Some(&h), x.port.unwrap_or(None), uinv, Some(hh), b"HTTP/1.1");
        }
    }
}
harness! {
    fn h_c19_hdr5() { let s: [u8; 5] = sym(); clean(&s); run(b"/", None, None, false, Some(&s), b"HTTP/1.1"); }
    fn h_c19_hdr_len() { let s = symv(choose(4)); clean(&s); run(b"/", None, None, false, Some(&s), b"HTTP/1.1"); }
    fn h_c19_port() { let s: [u8; 4] = sym(); clean(&s); run(b"/", None, None, false, Some(&cat(&[b"A.b:", &s])), b"HTTP/1.1"); }
    fn h_c19_port6() { let s: [u8; 5] = sym(); for c in &s { assume_tab(*c, &tab(b"0123456789")); } run(b"/", None, None, false, Some(&cat(&[b"A.b:", &s])), b"HTTP/1.0"); }
    fn h_c19_v6() { let s: [u8; 3] = sym(); clean(&s); run(b"/", None, None, false, Some(&cat(&[b"[", &s, b"1]:8"])), b"HTTP/1.1"); }
    fn h_c19_v6b() { let s: [u8; 3] = sym(); clean(&s); run(b"/", None, None, false, Some(&cat(&[b"[fe80::1", &s])), b"HTTP/1.1"); }
    fn h_c19_v6_forms() {
        let s: [u8; 1] = sym();
        clean(&s);
        let (a, b): (&[u8], &[u8]) = [(&b"::ffff:1.2.3."[..], &b""[..]), (b"2001:DB8:0:1:2:3:4:", b""), (b"", b"::"), (b"fe80::1%eth", b""), (b"1:2:3:4:5:6:1.2", b".3.4"), (b"::25", b".1.1.1"), (b"1:2:3:4:5:6:7:8", b"9")][choose(7)];
        run(b"/", None, None, false, Some(&cat(&[b"[", a, &s, b, b"]", [&b""[..], b":80"][choose(2)]])), b"HTTP/1.1");
    }
    fn h_c19_missing() { let s: [u8; 1] = sym(); assume(s[0] == b'0' || s[0] == b'1'); run(b"/", None, None, false, None, &cat(&[b"HTTP/1.", &s])); }
    fn h_c19_missing_u() { let s: [u8; 1] = sym(); assume(s[0] == b'0' || s[0] == b'1'); run(b"http://ab/", Some(b"ab"), None, false, None, &cat(&[b"HTTP/1.", &s])); }
    fn h_c19_both() { let s: [u8; 3] = sym(); clean(&s); run(b"http://Ab./", Some(b"ab"), None, false, Some(&s), b"HTTP/1.1"); }
    fn h_c19_bothp() { let s: [u8; 3] = sym(); clean(&s); run(b"http://ab:80/", Some(b"ab"), Some(80), false, Some(&cat(&[b"aB", &s])), b"HTTP/1.1"); }
    fn h_c19_bothp2() { let s: [u8; 2] = sym(); clean(&s); run(b"http://ab:80/", Some(b"ab"), Some(80), false, Some(&cat(&[b"AB:", &s])), b"HTTP/1.1"); }
    fn h_c19_abs() { let s: [u8; 4] = sym(); absuri(&s, b"a"); }
    fn h_c19_absp() { let s: [u8; 3] = sym(); absuri(&cat(&[b"a:", &s]), b"a:8"); }
    fn h_c19_absp_long() { let s: [u8; 2] = sym(); let z: &[u8] = [&b"6553"[..], b"0000", b"12345", b"00000000", b"999999999999999999999"][choose(5)]; absuri(&cat(&[b"a:", z, &s]), b"a"); }
    fn h_c19_portp_long() { let s: [u8; 2] = sym(); clean(&s); let z: &[u8] = [&b"6553"[..], b"0000", b"12345", b"00000000", b"999999999999999999999"][choose(5)]; run(b"/", None, None, false, Some(&cat(&[b"a:", z, &s])), b"HTTP/1.1"); }
    fn h_c19_connp_long() { let s: [u8; 2] = sym(); let z: &[u8] = [&b"6553"[..], b"0000", b"12345", b"00000000", b"999999999999999999999"][choose(5)]; connect(&cat(&[b"a:", z, &s])); }
    fn h_c19_conn() { let s: [u8; 4] = sym(); connect(&s); }
    fn h_c19_connp() { let s: [u8; 3] = sym(); connect(&cat(&[b"Ab.:4", &s])); }
    fn h_c19_rep() {
        let s: [u8; 2] = sym(); clean(&s);
        let mut ps = parser(cfg0());
        req(&mut ps, &cat(&[b"GET / HTTP/1.1\r\nHost: a\r\nhOst: ", &s, b"\r\n\r\n"]));
        let t = ps.tx(0).unwrap();
        obs_tx(t);
        check(t.flags & F::HOSTH_INVALID != 0, "repeated Host header is flagged");
    }
    fn h_c19_valid() { let s: [u8; 6] = sym(); let r = validate_hostname(&s); obs(r as u64); check(r == valid(&s), "hostname validity"); }
    fn h_c19_valid_len() {
        let n = 60 + choose(8);
        let mut v = vec![b'a'; n];
        let b: [u8; 2] = sym();
        v[30] = b[0];
        v[n - 1] = b[1];
        let r = validate_hostname(&v); obs(r as u64); check(r == valid(&v), "label length");
    }
    fn h_c19_valid_max() {
        let n = 250 + choose(8);
        let mut v = vec![b'a'; n];
        for k in 1..5 { v[60 * k] = b'.'; }
        let b: [u8; 1] = sym();
        v[17] = b[0];
        let r = validate_hostname(&v); obs(r as u64); check(r == valid(&v), "hostname length");
    }
    fn t_c19_hdr6() { let s: [u8; 6] = sym(); clean(&s); run(b"/", None, None, false, Some(&s), b"HTTP/1.1"); }
    fn h_c19_v6_x() { let s: [u8; 5] = sym(); clean(&s); run(b"/", None, None, false, Some(&cat(&[b"[", &s, b"]"])), b"HTTP/1.1"); }
    fn t_c19_abs6() { let s: [u8; 6] = sym(); absuri(&s, b"a"); }
    fn h_c19_conn6_x() { let s: [u8; 6] = sym(); connect(&s); }
    fn h_c19_valid9_x() { let s: [u8; 9] = sym(); let r = validate_hostname(&s); obs(r as u64); check(r == valid(&s), "hostname validity"); }
}
