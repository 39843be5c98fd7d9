//! C22: urlencoded parameters do not depend on how the data is cut, and are split exactly.
use crate::{com::*, refm::*, vp::*};
use htp::config::{Config, HtpUnwanted as U};
use htp::urlencoded::Parser;
use htp::util::HtpFlags as F;
fn conf() -> Config { let mut c = Config::default(); no_bestfit(&mut c); c }
/// Split on `sep` and the first '='. Segments without any byte are skipped, except that non-empty data gives at least one (empty) parameter.
fn ref_split(s: &[u8], sep: u8) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut v = Vec::new();
    let mut a = 0;
    loop {
        let mut e = a;
        while e < s.len() && s[e] != sep { e += 1; }
        if e > a {
            let mut q = a;
            while q < e && s[q] != b'=' { q += 1; }
            let val = if q < e { s[q + 1..e].to_vec() } else { Vec::new() };
            v.push((s[a..q].to_vec(), val));
        }
        if e >= s.len() { break; }
        a = e + 1;
    }
    if v.is_empty() && !s.is_empty() { v.push((Vec::new(), Vec::new())); }
    v
}
fn same(p: &Parser, w: &[(Vec<u8>, Vec<u8>)], l: &str) {
    obs(p.params.size() as u64);
    check(p.params.size() == w.len(), l);
    for (x, y) in p.params.elements.iter().zip(w.iter()) {
        obs_bytes(x.0.as_slice());
        obs_bytes(x.1.as_slice());
        check_bytes(x.0.as_slice(), &y.0, l);
        check_bytes(x.1.as_slice(), &y.1, l);
    }
}
fn whole(s: &[u8], sep: u8, dec: bool) {
    let c = conf();
    let mut w = ref_split(s, sep);
    let mut fl = 0;
    if dec { for x in w.iter_mut() { let d = dec_params(&x.0, &c.decoder_cfg); fl |= d.fl; x.0 = d.out; let d = dec_params(&x.1, &c.decoder_cfg); fl |= d.fl; x.1 = d.out; } }
    let mut p = Parser::new(c.decoder_cfg);
    p.argument_separator = sep;
    p.decode_url_encoding = dec;
    p.parse_complete(s);
    same(&p, &w, "parameters of the whole");
    check((p.flags & F::URLEN_INVALID_ENCODING != 0) == (fl & INV != 0), "invalid encoding flag");
}
fn cut(s: &[u8], n: usize) {
    let c = conf();
    let mut p = Parser::new(c.decoder_cfg);
    p.parse_complete(s);
    let w: Vec<(Vec<u8>, Vec<u8>)> = p.params.elements.iter().map(|x| (x.0.as_slice().to_vec(), x.1.as_slice().to_vec())).collect();
    let mut q = Parser::new(c.decoder_cfg);
    let mut a = 0;
    for _ in 0..n {
        let k = a + choose(s.len() - a + 1);
        q.parse_partial(&s[a..k]);
        a = k;
    }
    q.parse_partial(&s[a..]);
    q.finalize();
    same(&q, &w, "parameters do not depend on the cut");
    check(q.flags == p.flags, "flags do not depend on the cut");
}
/// A query string / urlencoded body seen through the parser with a status for invalid encodings.
fn status(s: &[u8]) {
    let mut c = conf();
    c.set_url_encoding_invalid_unwanted(U::CODE_400);
    let mut st = U::IGNORE;
    for x in ref_split(s, b'&') { for y in [&x.0, &x.1] { let d = dec_params(y, &c.decoder_cfg); if d.st != U::IGNORE { st = d.st; } } }
    let mut p = Parser::new(c.decoder_cfg);
    p.parse_complete(s);
    obs(p.response_status_expected_number as u64);
    check(p.response_status_expected_number == st, "expected status of the parameters");
}
/// The parameters of a request's query reach the parameter processor, whatever the cut.
fn query(s: &[u8]) {
    for x in s { assume(*x > b' ' && *x != b'#' && *x != 0x7f); }
    let mut c = cfg0();
    c.set_parse_urlencoded(true);
    c.parameter_processor = Some(k_param);
    let mut w = ref_split(s, b'&');
    for x in w.iter_mut() { x.0 = dec_params(&x.0, &c.decoder_cfg).out; x.1 = dec_params(&x.1, &c.decoder_cfg).out; }
    let m = cat(&[b"GET /?", s, b" HTTP/1.1\r\nHost: a\r\n\r\n"]);
    let k = 4 + choose(s.len() + 4);
    let mut p = parser(c);
    req(&mut p, &m[..k]);
    req(&mut p, &m[k..]);
    let ps = take_params();
    check(ps.len() == w.len(), "as many parameters as the query has");
    for (x, y) in ps.iter().zip(w.iter()) {
        check_bytes(&x.0, &y.0, "query parameter name");
        check_bytes(&x.1, &y.1, "query parameter value");
    }
}
/// Long names and values, many parameters, whole and in pieces of some size.
fn long(n: usize) {
    let x = sym_u8();
    assume(x > b'/' && x != b'=' && x < 127);
    let mut v: Vec<(Vec<u8>, Vec<u8>)> = vec![(b"first".to_vec(), b"1".to_vec())];
    let mut name = vec![b'n'; n];
    name[n / 2] = x;
    let mut val: Vec<u8> = (0..n).map(|i| b'0' + (i % 10) as u8).collect();
    val[n - 1] = x;
    v.push((name, val));
    for i in 0..40u8 { v.push((vec![b'p', b'a' + i % 26], vec![b'A' + i % 26, x])); }
    let mut s = Vec::new();
    for (a, b) in &v { if !s.is_empty() { s.push(b'&'); } s.extend_from_slice(a); s.push(b'='); s.extend_from_slice(b); }
    let st = choose(8);
    assume(n < 1000 || st > 1);
    let step = [1, 7, 63, 64, 65, 130, 1000, s.len()][st];
    let c = conf();
    let mut p = Parser::new(c.decoder_cfg);
    for d in s.chunks(step) { p.parse_partial(d); }
    p.finalize();
    same(&p, &v, "long parameters");
    check(p.flags == 0, "no flags");
    if choose(2) == 1 {
        let mut c = cfg0();
        c.set_parse_urlencoded(true);
        c.parameter_processor = Some(k_param);
        let mut p = parser(c);
        req(&mut p, &cat(&[b"GET /?", &s, b" HTTP/1.1\r\nHost: a\r\n\r\n"]));
        let ps = take_params();
        check(ps.len() == v.len(), "as many parameters as the query has");
        for (x, y) in ps.iter().zip(v.iter()) { check_bytes(&x.0, &y.0, "query parameter name"); check_bytes(&x.1, &y.1, "query parameter value"); }
    }
}
harness! {
    fn h_c22_long60() { long(60) }
    fn h_c22_long64() { long(64) }
    fn h_c22_long300() { long(300) }
    fn h_c22_long5000() { long(5000) }
    fn h_c22_query() { let s: [u8; 2] = sym(); query(&cat(&[b"a=%41+&b", &s, b"d&e"])); }
    fn h_c22_query1() { let s: [u8; 3] = sym(); query(&s); }
    fn h_c22_w5() { let s: [u8; 5] = sym(); for x in &s { assume(*x != b'%'); } whole(&s, b'&', false); }
    fn h_c22_len() { let s = symv(choose(4)); whole(&s, b'&', true); }
    fn h_c22_sep() { let s: [u8; 4] = sym(); whole(&cat(&[b"a=b", &s, b"c"]), b';', false); }
    fn h_c22_dec() { let s: [u8; 3] = sym(); whole(&cat(&[b"p%41=", &s, b"&q%4"]), b'&', true); }
    fn h_c22_cut4() { let s: [u8; 4] = sym(); cut(&s, 1); }
    fn h_c22_cut_t() { let s: [u8; 2] = sym(); cut(&cat(&[b"p=1&q", &s, b"%2", b"6&r="]), 1); }
    fn h_c22_cut2() { let s: [u8; 3] = sym(); for x in &s { assume_tab(*x, &tab(b"a=&%")); } cut(&cat(&[b"x", &s, b"&y=1"]), 2); }
    fn h_c22_st() { let s: [u8; 2] = sym(); status(&cat(&[b"a%", &s, b"=c&d=e"])); }
    fn h_c22_w7() { let s: [u8; 7] = sym(); for x in &s { assume(*x != b'%'); } whole(&s, b'&', false); }
    fn h_c22_cut6() { let s: [u8; 6] = sym(); for x in &s { assume_tab(*x, &tab(b"a=&%4")); } cut(&s, 3); }
    fn h_c22_w10_x() { let s: [u8; 10] = sym(); for x in &s { assume(*x != b'%'); } whole(&s, b'&', false); }
    fn t_c22_cut7() { let s: [u8; 7] = sym(); for x in &s { assume_tab(*x, &tab(b"a=&%4")); } cut(&s, 3); }
}
