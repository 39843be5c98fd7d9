//! C14: request URIs are split into their components, and recomposed when normalized.
use crate::{com::*, refm::*, vp::*};
use htp::bstr::Bstr;
use htp::config::{Config, HtpServerPersonality as P, HtpUnwanted as U};
use htp::uri::Uri;
#[derive(Default)]
struct R { scheme: Option<Vec<u8>>, user: Option<Vec<u8>>, pass: Option<Vec<u8>>, host: Option<Vec<u8>>, port: Option<Vec<u8>>, path: Option<Vec<u8>>, query: Option<Vec<u8>>, frag: Option<Vec<u8>> }
fn find(s: &[u8], a: usize, set: &[u8]) -> usize {
    let t = { let mut t = [false; 256]; for c in set { t[*c as usize] = true; } t };
    let mut i = a;
    while i < s.len() && !t[s[i] as usize] { i += 1; }
    i
}
fn v(s: &[u8]) -> Option<Vec<u8>> { Some(s.to_vec()) }
fn reference(s: &[u8]) -> R {
    let mut r = R::default();
    let mut i = 0;
    let c = find(s, 0, b":");
    if c < s.len() && s[0] != b'/' {
        r.scheme = v(&s[..c]);
        i = c + 1;
        let slashes = |k: usize| s.len() >= k + 2 && s[k] == b'/' && s[k + 1] == b'/';
        if slashes(i) && !(s.len() > i + 2 && s[i + 2] == b'/') {
            let e = find(s, i + 2, b"@/?#");
            if e < s.len() && s[e] == b'@' {
                let k = find(&s[..e], i + 2, b":");
                r.user = v(&s[i + 2..k]);
                if k < e { r.pass = v(&s[k + 1..e]); }
                i = e + 1;
            }
        }
        let mut h = if slashes(i) { i + 2 } else { i };
        if !(h < s.len() && s[h] == b'/') {
            while h < s.len() && s[h] == b' ' { h += 1; }
            let mut e = h;
            if h < s.len() && s[h] == b'[' {
                let k = find(s, h + 1, b"/?#]");
                if k > h + 1 { e = if k < s.len() && s[k] == b']' { k + 1 } else { k }; }
            }
            if e == h { e = find(s, h, b"/?#:"); }
            if e > h {
                let mut t = e;
                while t > h && s[t - 1] == b' ' { t -= 1; }
                r.host = v(&s[h..t]);
                i = e;
                if i < s.len() && s[i] == b':' {
                    let mut b = i + 1;
                    while b < s.len() && s[b] == b' ' { b += 1; }
                    let e = find(s, b, b"/?#");
                    if e > b {
                        let t = find(&s[..e], b, b" ");
                        r.port = v(&s[b..t]);
                        i = e;
                    } else {
                        i += 1;
                    }
                }
            }
        }
    }
    let e = find(s, i, b"?#");
    if e > i { r.path = v(&s[i..e]); }
    i = e;
    if i < s.len() && s[i] == b'?' {
        let e = find(s, i + 1, b"#");
        if e > i + 1 { r.query = v(&s[i + 1..e]); }
        i = e;
    }
    if i < s.len() && s[i] == b'#' { r.frag = v(&s[i + 1..]); }
    r
}
fn d(x: &Option<Vec<u8>>) -> Option<&[u8]> { x.as_ref().map(|y| y.as_slice()) }
fn o(x: &Option<Bstr>) { match x { Some(b) => obs_bytes(b.as_slice()), None => obs(u64::MAX) } }
fn cmp(u: &Uri, r: &R) {
    o(&u.scheme); o(&u.username); o(&u.password); o(&u.hostname); o(&u.port); o(&u.path); o(&u.query); o(&u.fragment);
    check_obytes(ob(&u.scheme), d(&r.scheme), "scheme");
    check_obytes(ob(&u.username), d(&r.user), "username");
    check_obytes(ob(&u.password), d(&r.pass), "password");
    check_obytes(ob(&u.hostname), d(&r.host), "hostname");
    check_obytes(ob(&u.port), d(&r.port), "port");
    check_obytes(ob(&u.path), d(&r.path), "path");
    check_obytes(ob(&u.query), d(&r.query), "query");
    check_obytes(ob(&u.fragment), d(&r.frag), "fragment");
}
fn plain(s: &[u8]) {
    let mut u = Uri::default();
    u.parse_uri(s);
    // an empty port followed by blanks before the path is left unspecified
    let c = find(s, 0, b":");
    let _ = c;
    cmp(&u, &reference(s));
}
fn no_blank_port(s: &[u8]) { for i in 1..s.len() { assume(!(s[i - 1] == b':' && s[i] == b' ')); } }
/// through a transaction: raw components, normalized components, recomposed URI
fn tx(uri: &[u8], p: P) {
    for x in uri { assume(*x > b' ' && *x != 0x7f); }
    let c = cfg(p);
    let dc = c.decoder_cfg;
    let r = reference(uri);
    let mut p = parser(c);
    req(&mut p, &cat(&[b"GET ", uri, b" HTTP/1.1\r\n"]));
    let t = p.tx(0).unwrap();
    check_obytes(ob(&t.request_uri), Some(uri), "request URI kept");
    cmp(t.parsed_uri_raw.as_ref().unwrap(), &r);
    let u = t.parsed_uri.as_ref().unwrap();
    let dp = |x: &Option<Vec<u8>>| x.as_ref().map(|y| dec_params(y, &dc).out);
    let low = |x: &mut Vec<u8>| for b in x.iter_mut() { if *b >= b'A' && *b <= b'Z' { *b += 32; } };
    let mut n = R::default();
    n.scheme = r.scheme.clone();
    if let Some(x) = n.scheme.as_mut() { low(x); }
    n.user = dp(&r.user);
    n.pass = dp(&r.pass);
    n.host = dp(&r.host);
    if let Some(x) = n.host.as_mut() { low(x); while x.last() == Some(&b'.') { x.pop(); } }
    n.path = r.path.as_ref().map(|x| {
        let y = dec_path(x, &dc).out;
        let (conv, _) = ref_utf8(&y, dc.bestfit_map.replacement_byte);
        ref_dots(if dc.utf8_convert_bestfit { &conv } else { &y })
    });
    n.query = r.query.clone();
    n.frag = dp(&r.frag);
    let mut full = Vec::new();
    let mut part = Vec::new();
    if let Some(x) = &n.scheme { full.extend_from_slice(x); full.extend_from_slice(b"://"); }
    if n.user.is_some() || n.pass.is_some() {
        full.extend_from_slice(d(&n.user).unwrap_or(b""));
        full.push(b':');
        full.extend_from_slice(d(&n.pass).unwrap_or(b""));
        full.push(b'@');
    }
    full.extend_from_slice(d(&n.host).unwrap_or(b""));
    part.extend_from_slice(d(&n.path).unwrap_or(b""));
    if let Some(x) = &n.query { part.push(b'?'); part.extend_from_slice(&dec_params(x, &dc).out); }
    if let Some(x) = &n.frag { part.push(b'#'); part.extend_from_slice(x); }
    full.extend_from_slice(&part);
    o(&t.complete_normalized_uri);
    o(&t.partial_normalized_uri);
    check_obytes(ob(&u.scheme), d(&n.scheme), "normalized scheme");
    check_obytes(ob(&u.username), d(&n.user), "normalized username");
    check_obytes(ob(&u.password), d(&n.pass), "normalized password");
    check_obytes(ob(&u.hostname), d(&n.host), "normalized hostname");
    check_obytes(ob(&u.path), d(&n.path), "normalized path");
    check_obytes(ob(&u.query), d(&n.query), "query of the parsed URI");
    check_obytes(ob(&u.fragment), d(&n.frag), "normalized fragment");
    // the port is only reported as a number, and not recomposed
    if r.port.is_none() { check_obytes(ob(&t.complete_normalized_uri), if full.is_empty() { None } else { Some(&full) }, "complete normalized URI"); }
    check_obytes(ob(&t.partial_normalized_uri), if part.is_empty() { None } else { Some(&part) }, "partial normalized URI");
    let pn = match &r.port { None => None, Some(x) => {
        let mut v: u32 = 0;
        let mut ok = !x.is_empty();
        for c in x { if *c < b'0' || *c > b'9' || v > 6553 { ok = false; break; } v = v * 10 + (*c - b'0') as u32; }
        if ok && v > 0 && v < 65536 { Some(v as u16) } else { None }
    } };
    check(u.port_number == pn, "port number");
}
/// Recomposition of arbitrary components.
fn compose(m: usize, b: &[u8]) {
    for x in b { assume(*x != b'%' && *x != b'+' && *x != 0); }
    let has = |k: u32| m >> k & 1 == 1;
    let mut c = Config::default();
    no_bestfit(&mut c);
    let mut u = Uri::with_config(c.decoder_cfg);
    let g = |k: u32, i: usize| if has(k) { Some(Bstr::from(&b[i..i + 1])) } else { None };
    u.scheme = g(0, 0); u.username = g(1, 1); u.password = g(2, 2); u.hostname = g(3, 3); u.port = g(4, 0); u.path = g(5, 1); u.query = g(6, 2); u.fragment = g(7, 3);
    let (part, full) = u.generate_normalized_uri(None);
    let mut w = Vec::new();
    if has(0) { w.push(b[0]); w.extend_from_slice(b"://"); }
    if has(1) || has(2) { if has(1) { w.push(b[1]); } w.push(b':'); if has(2) { w.push(b[2]); } w.push(b'@'); }
    if has(3) { w.push(b[3]); }
    if has(4) { w.push(b':'); w.push(b[0]); }
    let mut q = Vec::new();
    if has(5) { q.push(b[1]); }
    if has(6) { q.push(b'?'); q.push(b[2]); }
    if has(7) { q.push(b'#'); q.push(b[3]); }
    w.extend_from_slice(&q);
    o(&full); o(&part);
    check_obytes(ob(&full), if w.is_empty() { None } else { Some(&w) }, "recomposed URI");
    check_obytes(ob(&part), if q.is_empty() { None } else { Some(&q) }, "recomposed partial URI");
}
/// Double decoding of the normalized URI, when configured.
fn double(s: &[u8], path: bool) {
    let mut c = Config::default();
    no_bestfit(&mut c);
    c.set_double_decode_normalized_path(path);
    c.set_double_decode_normalized_query(!path);
    let mut u = Uri::with_config(c.decoder_cfg);
    u.path = Some(Bstr::from(s));
    u.query = Some(Bstr::from(s));
    let (part, _) = u.generate_normalized_uri(None);
    let one = dec_params(s, &c.decoder_cfg).out;
    let two = dec_params(&one, &c.decoder_cfg).out;
    let w = if path { cat(&[&one, b"?", &one]) } else { cat(&[s, b"?", &two]) };
    o(&part);
    check_obytes(ob(&part), Some(&w), "double decoding as configured");
}
harness! {
    fn h_c14_any5() { let s: [u8; 5] = sym(); no_blank_port(&s); plain(&s); }
    fn h_c14_len() { let s = symv(choose(4)); no_blank_port(&s); plain(&s); }
    fn h_c14_auth() { let s: [u8; 5] = sym(); no_blank_port(&s); plain(&cat(&[b"a://", &s])); }
    fn h_c14_auth2() { let s: [u8; 3] = sym(); let t: [u8; 1] = sym(); plain(&cat(&[b"http:", &s, b"u:p", &t, b"h:80/p"])); }
    fn h_c14_host() { let s: [u8; 4] = sym(); no_blank_port(&s); plain(&cat(&[b"http://h", &s, b"80/p?q#f"])); }
    fn h_c14_v6() { let s: [u8; 3] = sym(); plain(&cat(&[b"http://[", &s, b"1]:8/"])); }
    fn h_c14_tail() { let s: [u8; 5] = sym(); plain(&cat(&[b"/p", &s, b"x"])); }
    fn h_c14_tx() { let s: [u8; 3] = sym(); tx(&cat(&[b"hTTp://", &s, b"/p"]), P::MINIMAL); }
    fn h_c14_tx_ids() { let s: [u8; 3] = sym(); tx(&cat(&[b"/A", &s, b"%41"]), P::IDS); }
    fn h_c14_tx_port() { let s: [u8; 3] = sym(); tx(&cat(&[b"http://H.:", &s]), P::MINIMAL); }
    fn h_c14_tx_dec() { let s: [u8; 2] = sym(); tx(&cat(&[b"http://u%", &s, b":%41@H%2e./?%41#%", &s]), P::MINIMAL); }
    fn h_c14_comp() { let m = concr(sym_u8() as u64) as usize; let b: [u8; 4] = sym(); compose(m, &b); }
    fn h_c14_double() { let s: [u8; 3] = sym(); double(&cat(&[b"/%2", &s, b"1"]), choose(2) == 1); }
    fn h_c14_any7() { let s: [u8; 7] = sym(); no_blank_port(&s); plain(&s); }
    fn h_c14_auth7() { let s: [u8; 7] = sym(); no_blank_port(&s); plain(&cat(&[b"a:", &s])); }
    fn t_c14_tx5() { let s: [u8; 5] = sym(); tx(&cat(&[b"h:/", &s]), P::IDS); }
    fn h_c14_any11_x() { let s: [u8; 11] = sym(); no_blank_port(&s); plain(&s); }
    fn h_c14_auth11_x() { let s: [u8; 11] = sym(); no_blank_port(&s); plain(&cat(&[b"a:", &s])); }
}
