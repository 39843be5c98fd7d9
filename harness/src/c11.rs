//! C11: header blocks are split into the fields they contain.
use crate::{com::*, vp::*};
use htp::connection_parser::HtpStreamState as S;
use htp::transaction::{Headers, HtpRequestProgress, HtpResponseProgress};
use htp::util::HtpFlags as F;
fn sp(c: u8) -> bool { c == b' ' || (c >= 9 && c <= 13) }
fn ws(c: u8) -> bool { c == b' ' || c == b'\t' }
const TOK: [u8; 256] = tab(b"!#$%&'*+-.0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ^_`abcdefghijklmnopqrstuvwxyz|~");
fn token(c: u8) -> bool { TOK[c as usize] != 0 }
fn trim(mut s: &[u8]) -> &[u8] {
    while !s.is_empty() && sp(s[0]) { s = &s[1..]; }
    while !s.is_empty() && sp(s[s.len() - 1]) { s = &s[..s.len() - 1]; }
    s
}
fn blank(s: &[u8]) -> bool { for x in s { if !sp(*x) { return false; } } true }
fn colon(s: &[u8]) -> Option<usize> { for i in 0..s.len() { if s[i] == b':' { return Some(i); } } None }
/// "name:" after a white space character: on the response side a field of its own
fn looks_like_field(s: &[u8]) -> bool {
    let mut i = 0;
    while i < s.len() && ws(s[i]) { i += 1; }
    let a = i;
    while i < s.len() && token(s[i]) { i += 1; }
    if a == i { return false; }
    while i < s.len() && ws(s[i]) { i += 1; }
    i < s.len() && s[i] == b':'
}
pub struct Field { name: Vec<u8>, value: Vec<u8>, flags: u64, rep: bool, nflags: bool }
/// Lines (without their line endings) of a block to fields, in order, before repeated ones are joined.
fn fields(lines: &[&[u8]], response: bool) -> Vec<Field> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < lines.len() {
        let mut raw = lines[i].to_vec();
        let first = raw.clone();
        let mut nflags = true;
        if i > 0 && ws(first[0]) { raw.remove(0); nflags = false; }
        let c = colon(&raw);
        let mut folded = false;
        let mut j = i + 1;
        while j < lines.len() && ws(lines[j][0]) && !(response && looks_like_field(&lines[j][1..])) {
            // a fold before any colon, and a blank fold, are read differently by different servers: not claimed
            assume(c.is_some() && !blank(lines[j]));
            raw.extend_from_slice(lines[j]);
            folded = true;
            j += 1;
        }
        if response && j < lines.len() { assume(c.is_some() || !ws(lines[j][0])); }
        let mut f = if folded { F::FIELD_FOLDED } else { 0 };
        let (name, value) = match c {
            None => {
                f |= F::FIELD_UNPARSEABLE | if response { F::FIELD_INVALID } else { 0 };
                (Vec::new(), trim(&raw).to_vec())
            }
            Some(c) => {
                let n = &raw[..c];
                if n.is_empty() { f |= F::FIELD_INVALID; } else {
                    if ws(n[0]) { f |= F::INVALID_FOLDING | if response { F::FIELD_INVALID } else { 0 }; }
                    if ws(n[n.len() - 1]) { f |= F::FIELD_INVALID; }
                    let mut a = 0;
                    while a < n.len() && ws(n[a]) { a += 1; }
                    while a < n.len() && token(n[a]) { a += 1; }
                    while a < n.len() && ws(n[a]) { a += 1; }
                    if a < n.len() { f |= F::FIELD_INVALID; }
                }
                (trim(n).to_vec(), trim(&raw[c + 1..]).to_vec())
            }
        };
        out.push(Field { name, value, flags: f, rep: false, nflags });
        i = j;
    }
    out
}
fn low(c: u8) -> u8 { if c >= b'A' && c <= b'Z' { c + 32 } else { c } }
fn same_name(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut r = true;
    for i in 0..a.len() { r &= low(a[i]) == low(b[i]); }
    r
}
fn join(v: Vec<Field>) -> Vec<Field> {
    let mut out: Vec<Field> = Vec::new();
    for f in v {
        let mut at = None;
        for i in 0..out.len() { if same_name(&out[i].name, &f.name) { at = Some(i); break; } }
        match at {
            None => out.push(f),
            Some(i) => {
                out[i].rep = true;
                if !same_name(&out[i].name, b"content-length") {
                    out[i].value.extend_from_slice(b", ");
                    out[i].value.extend_from_slice(&f.value);
                }
            }
        }
    }
    out
}
const M: u64 = F::FIELD_UNPARSEABLE | F::FIELD_INVALID | F::FIELD_FOLDED | F::INVALID_FOLDING;
fn compare(h: &Headers, want: &[Field], l: &str) {
    check(h.elements.len() == want.len(), l);
    if h.elements.len() != want.len() { return; }
    for i in 0..want.len() {
        let (g, w) = (&h.elements[i], &want[i]);
        check_bytes(g.name.as_slice(), &w.name, "field name");
        check_bytes(g.value.as_slice(), &w.value, "field value");
        check((g.flags & F::FIELD_REPEATED != 0) == w.rep, "field repeated");
        if w.nflags { check(g.flags & M == w.flags, "field flags"); }
        // found by name in any case; the first of that name
        if !w.name.is_empty() {
            let q: Vec<u8> = w.name.iter().map(|c| if *c >= b'a' && *c <= b'z' { *c - 32 } else { *c }).collect();
            match h.get_nocase(q.as_slice()) {
                Some(x) => check_bytes(x.value.as_slice(), &w.value, "field found by its name"),
                None => check(false, "field found by its name"),
            }
        }
    }
}
fn request(lines: &[&[u8]], eol: &[u8]) {
    let all = fields(lines, false);
    let mut fl = 0;
    for f in &all { fl |= f.flags; }
    let want = join(all);
    let mut d = b"GET / HTTP/1.0\r\n".to_vec();
    for l in lines { d.extend_from_slice(l); d.extend_from_slice(eol); }
    d.extend_from_slice(eol);
    let mut p = parser(cfg0());
    check(req_c(&mut p, &d) == S::DATA, "request status");
    let t = p.tx(0).unwrap();
    obs_tx(t);
    check(t.request_progress == HtpRequestProgress::COMPLETE, "request complete");
    compare(&t.request_headers, &want, "number of request fields");
    let m = F::FIELD_UNPARSEABLE | F::FIELD_INVALID | F::INVALID_FOLDING;
    check(t.flags & m == fl & m, "transaction flags are those of its fields");
}
fn response(lines: &[&[u8]], eol: &[u8]) {
    let all = fields(lines, true);
    let mut fl = 0;
    let mut known = true;
    for f in &all { fl |= f.flags; known &= f.nflags; }
    let want = join(all);
    let mut d = b"HTTP/1.0 200 OK\r\n".to_vec();
    for l in lines { d.extend_from_slice(l); d.extend_from_slice(eol); }
    d.extend_from_slice(eol);
    let mut p = parser(cfg0());
    req(&mut p, b"GET / HTTP/1.0\r\n\r\n");
    check(res_c(&mut p, &d) == S::DATA, "response status");
    let t = p.tx(0).unwrap();
    obs_tx(t);
    check(t.response_progress >= HtpResponseProgress::BODY, "response headers complete");
    compare(&t.response_headers, &want, "number of response fields");
    let m = F::FIELD_UNPARSEABLE | F::INVALID_FOLDING;
    if known { check(t.flags & m == fl & m, "transaction flags are those of its fields"); }
}
/// A block of symbolic bytes, split at its line feeds.
fn split(b: &[u8]) -> Vec<&[u8]> {
    let mut v = Vec::new();
    let mut a = 0;
    for i in 0..b.len() {
        assume(b[i] != b'\r' && b[i] != 0);
        if b[i] == b'\n' { assume(i > a); v.push(&b[a..i]); a = i + 1; }
    }
    assume(a < b.len());
    v.push(&b[a..]);
    v
}
fn free(n: usize, eol: &[u8], f: fn(&[&[u8]], &[u8])) { let b = symv(n); f(&split(&b), eol) }
fn tpl(pre: &[u8], n: usize, post: &[u8], eol: &[u8], f: fn(&[&[u8]], &[u8])) {
    let b = cat(&[pre, &symv(n), post]);
    f(&split(&b), eol)
}
fn rep(f: fn(&[&[u8]], &[u8])) {
    // four fields with one-letter names of any case, each a symbolic letter
    let n = sym::<4>();
    let v = sym::<4>();
    const L: [u8; 256] = tab(b"ABab-");
    for c in n { assume_tab(c, &L); }
    for c in v { assume(c > b' ' && c != b':' && c < 127); }
    let l: Vec<Vec<u8>> = (0..4).map(|i| vec![n[i], b':', b' ', v[i]]).collect();
    f(&[&l[0], &l[1], &l[2], &l[3]], b"\r\n");
}
fn cl_rep(f: fn(&[&[u8]], &[u8])) {
    // the first Content-Length is kept, whatever the second says
    let v = sym::<1>();
    assume(v[0] != b'\n' && v[0] != b'\r' && v[0] != 0);
    const N: [&[u8]; 3] = [b"Content-Length: 0", b"content-length:0", b"CONTENT-LENGTH:\t0"];
    let l = cat(&[N[choose(3)].split_at(15).0, &v]);
    f(&[N[choose(3)], b"X: y", &l], b"\r\n");
}
/// Many repetitions: bounded growth, and nothing but the surplus repetitions is lost.
fn many(resp: bool) {
    let n = sym_u8();
    assume(n == b'A' || n == b'a' || n == b'B' || n == b'C');
    let mut d = if resp { b"HTTP/1.0 200 OK\r\n".to_vec() } else { b"GET / HTTP/1.0\r\n".to_vec() };
    for i in 0..80u8 { d.extend_from_slice(&[if i & 1 == 0 { b'A' } else { b'B' }, b':', b'0' + i % 10, b'\r', b'\n']); }
    d.extend_from_slice(&[n, b':', b'z', b'\r', b'\n', b'\r', b'\n']);
    let mut p = parser(cfg0());
    req(&mut p, if resp { b"GET / HTTP/1.0\r\n\r\n" } else { &d });
    if resp { res(&mut p, &d); }
    let t = p.tx(0).unwrap();
    let h = if resp { &t.response_headers } else { &t.request_headers };
    // 80 fields: two first ones, two first repetitions, then 64 counted ones
    let mut a = b"0".to_vec();
    let mut b = b"1".to_vec();
    for i in 2..68u8 { let w = if i & 1 == 0 { &mut a } else { &mut b }; w.extend_from_slice(&[b',', b' ', b'0' + i % 10]); }
    check(h.elements.len() == if n == b'C' { 3 } else { 2 }, "no field is lost or invented");
    check_bytes(h.elements[0].value.as_slice(), &a, "first repeated field");
    check_bytes(h.elements[1].value.as_slice(), &b, "second repeated field");
    if n == b'C' { check_bytes(h.elements[2].value.as_slice(), b"z", "a new field after many repetitions"); }
}
/// Many fields, long names and long values.
fn lots(side: usize) {
    let x = sym_u8();
    assume(x > 32 && x < 127);
    let mut v: Vec<Vec<u8>> = Vec::new();
    for i in 0..90 { v.push(format!("Name-{}: value {}", i, i).into_bytes()); }
    v[70].push(x);
    let mut n = vec![b'L'; 3000];
    n.extend_from_slice(b": v");
    n.push(x);
    v.push(n);
    let mut n = b"Long: ".to_vec();
    n.extend_from_slice(&vec![b'w'; 5000]);
    n.push(x);
    v.push(n);
    v.push(cat(&[b"naMe-7: again", &[x]]));
    v.push(cat(&[b"name-88: again", &[x]]));
    let lines: Vec<&[u8]> = v.iter().map(|l| l.as_slice()).collect();
    if side == 0 { request(&lines, b"\r\n") } else { response(&lines, b"\r\n") }
}
/// Many folds of one field.
fn folds(side: usize) {
    let x = sym_u8();
    assume(x > 32 && x < 127 && x != b':');
    let mut v: Vec<Vec<u8>> = vec![b"A: b".to_vec()];
    for i in 0..70 { v.push(cat(&[b" c", &[x, b'0' + (i % 10) as u8]])); }
    v.push(b"Z: y".to_vec());
    let lines: Vec<&[u8]> = v.iter().map(|l| l.as_slice()).collect();
    if side == 0 { request(&lines, b"\r\n") } else { response(&lines, b"\r\n") }
}
harness! {
    fn h_c11_lots_req() { lots(0) }
    fn h_c11_lots_res() { lots(1) }
    fn h_c11_folds_req() { folds(0) }
    fn h_c11_folds_res() { folds(1) }
    fn h_c11_req() { free(5, b"\n", request) }
    fn h_c11_req_crlf() { free(4, b"\r\n", request) }
    fn h_c11_res() { free(5, b"\n", response) }
    fn h_c11_res_crlf() { free(4, b"\r\n", response) }
    fn h_c11_req_name() { tpl(b"A: b\n", 3, b"Cd:e", b"\r\n", request) }
    fn h_c11_res_name() { tpl(b"A: b\n", 3, b"Cd:e", b"\r\n", response) }
    fn h_c11_req_fold() { tpl(b"A: b", 4, b"c", b"\n", request) }
    fn h_c11_res_fold() { tpl(b"A: b", 4, b"c", b"\n", response) }
    fn h_c11_req_value() { tpl(b"A:", 2, b"v\nB:x", b"\r\n", request) }
    fn h_c11_res_value() { tpl(b"A:", 2, b"v\nB:x", b"\r\n", response) }
    fn h_c11_req_rep() { rep(request) }
    fn h_c11_res_rep() { rep(response) }
    fn h_c11_req_cl() { cl_rep(request) }
    fn h_c11_res_cl() { cl_rep(response) }
    fn h_c11_req_many() { many(false) }
    fn h_c11_res_many() { many(true) }
    fn t_c11_req() { free(7, b"\n", request) }
    fn t_c11_res() { free(7, b"\n", response) }
    fn h_c11_req_fold_x() { tpl(b"A: b", 5, b"c\nD:e", b"\r\n", request) }
    fn h_c11_res_fold_x() { tpl(b"A: b", 5, b"c\nD:e", b"\r\n", response) }
}
