//! C30: every anomaly leaves its own entry in the log, and clean traffic leaves none.
use crate::{com::*, vp::*};
use htp::config::{Config, HtpServerPersonality as P};
use htp::connection_parser::{ConnectionParser, HtpStreamState as S, ParserData};
use htp::log::{HtpLogCode as K, HtpLogLevel as L};
const GET: &[u8] = b"GET / HTTP/1.1\r\nHost: a\r\n\r\n";
const R0: &[u8] = b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n";
/// The entries are exactly `want`, in whatever order.
fn expect(p: &mut ConnectionParser, want: &[(K, L)]) {
    let got = p.conn.get_logs();
    obs(got.len() as u64);
    for g in &got { obs(g.msg.code as u64); }
    check(got.len() == want.len(), "number of log entries");
    for w in want {
        let n = want.iter().filter(|x| x.0 == w.0).count();
        check(got.iter().filter(|g| g.msg.code == w.0 && g.msg.level == w.1).count() == n, "each anomaly has its entry");
    }
}
fn new(c: Config) -> ConnectionParser { let _ = take_rec(); parser(c) }
fn warn(v: &mut Vec<(K, L)>, c: bool, k: K) { if c { v.push((k, L::WARNING)); } }
fn lower() -> u8 { let c = sym_u8(); assume(c >= b'a' && c <= b'z'); c }
const TOKEN: [u8; 256] = tab(b"!#$%&'*+-.0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ^_`abcdefghijklmnopqrstuvwxyz|~");
/// Clean traffic, cut anywhere, in either direction.
fn clean() {
    let mut p = new(cfg0());
    let (a, b, d) = (lower(), lower(), lower());
    let m: &[u8] = [&b"GET"[..], b"POST", b"OPTIONS"][choose(3)];
    let body: [&[u8]; 3] = [b"\r\n", b"Content-Length: 2\r\n\r\nxy", b"Transfer-Encoding: chunked\r\n\r\n2\r\nxy\r\n0\r\nT: u\r\n\r\n"];
    let q = cat(&[m, b" /", &[a], b"?", &[b], b"=1 HTTP/1.1\r\nHost: ", &[d], b".com\r\nAccept: */*\r\n", body[choose(3)], GET]);
    let r = cat(&[b"HTTP/1.1 200 ", &[b], b"\r\nServer: ", &[a], b"\r\n", body[1 + choose(2)], R0]);
    if choose(2) == 0 {
        let k = 1 + choose(q.len() - 1);
        req_c(&mut p, &q[..k]);
        req_c(&mut p, &q[k..]);
        res_c(&mut p, &r);
    } else {
        let k = 1 + choose(r.len() - 1);
        req_c(&mut p, &q);
        res_c(&mut p, &r[..k]);
        res_c(&mut p, &r[k..]);
    }
    p.close(ts());
    expect(&mut p, &[]);
}
/// The request line.
fn line() {
    let lead = choose(2);
    let known = choose(2);
    let w = sym::<3>();
    for c in w { assume(c == b' ' || c == 9 || c == 11 || c == 12); }
    let two = choose(2);
    let proto = choose(6);
    let pr: &[u8] = [&b"HTTP/1.1"[..], b"HTTP/01.1", b"HTTP/ 1.0", b"HTTP/1.2", b"FOO", b""][proto];
    let m: &[u8] = [&b"QQ"[..], b"GET"][known];
    let l = cat(&[&w[..lead], m, &w[1..2 + two], b"/a", if pr.is_empty() { b"" } else { &w[..1] }, pr, b"\r\nHost: a\r\n\r\n"]);
    let mut p = new(cfg0());
    req_c(&mut p, &l);
    let mut v = Vec::new();
    warn(&mut v, lead == 1, K::REQUEST_LINE_LEADING_WHITESPACE);
    warn(&mut v, w[1] != b' ' || (two == 1 && w[2] != b' '), K::METHOD_DELIM_NON_COMPLIANT);
    // a space inside the protocol splits as well
    let inner = proto == 2;
    warn(&mut v, !pr.is_empty() && w[0] != b' ' && !inner, K::URI_DELIM_NON_COMPLIANT);
    let bad = proto == 3 || proto == 4 || (inner && w[0] != b' ');
    warn(&mut v, proto == 1 || (inner && w[0] == b' '), K::PROTOCOL_CONTAINS_EXTRA_DATA);
    warn(&mut v, known == 0 && bad, K::REQUEST_LINE_UNKNOWN_METHOD_INVALID_PROTOCOL);
    warn(&mut v, known == 0 && pr.is_empty(), K::REQUEST_LINE_UNKNOWN_METHOD_NO_PROTOCOL);
    warn(&mut v, pr.is_empty(), K::REQUEST_LINE_NO_PROTOCOL);
    expect(&mut p, &v);
}
fn method_only() {
    let a = sym::<3>();
    for c in a { assume(c >= b'A' && c <= b'Z'); }
    let mut p = new(cfg0());
    req_c(&mut p, &cat(&[&a, b"\r\n"]));
    let mut v = Vec::new();
    warn(&mut v, eqb(&a, b"GET") == 0 && eqb(&a, b"PUT") == 0, K::REQUEST_LINE_UNKNOWN_METHOD);
    expect(&mut p, &v);
}
/// Two header lines out of all kinds: each kind of anomaly is reported once for a message.
fn headers(side: usize) {
    let c = sym::<2>();
    for x in c { assume((x >= 32 && x != 127 || x == 9) && x != b':'); }
    let mut lines: Vec<Vec<u8>> = Vec::new();
    let mut kind = [0; 2];
    for i in 0..2 {
        kind[i] = choose(4);
        let n = [b'x' + i as u8];
        lines.push(match kind[i] {
            0 => cat(&[&n, &c[i..i + 1], b": v"]),
            1 => cat(&[&n, b"yz"]),
            2 => b": v".to_vec(),
            _ => cat(&[&n, b": v"]),
        });
    }
    let q = side == 0;
    let head: &[u8] = if q { b"GET / HTTP/1.1\r\nHost: a\r\n" } else { b"HTTP/1.1 200 O\r\nContent-Length: 0\r\n" };
    let mut p = new(cfg0());
    if !q { req_c(&mut p, GET); }
    let d = cat(&[head, &lines[0], b"\r\n", &lines[1], b"\r\n\r\n"]);
    if q { req_c(&mut p, &d); } else { res_c(&mut p, &d); }
    let mut v = Vec::new();
    let (mut inv, mut unp) = (false, false);
    for i in 0..2 {
        match kind[i] {
            0 => {
                let ws = c[i] == b' ' || c[i] == 9;
                let tok = TOKEN[c[i] as usize] == 1;
                if !inv && ws { warn(&mut v, true, if q { K::REQUEST_INVALID_LWS_AFTER_NAME } else { K::RESPONSE_INVALID_LWS_AFTER_NAME }); }
                if !inv && !ws && !tok { warn(&mut v, true, if q { K::REQUEST_HEADER_INVALID } else { K::RESPONSE_HEADER_NAME_NOT_TOKEN }); }
                inv = inv || !tok;
            }
            1 => { if !unp { warn(&mut v, true, if q { K::REQUEST_FIELD_MISSING_COLON } else { K::RESPONSE_FIELD_MISSING_COLON }); } unp = true; }
            2 => { if !inv { warn(&mut v, true, if q { K::REQUEST_INVALID_EMPTY_NAME } else { K::RESPONSE_INVALID_EMPTY_NAME }); } inv = true; }
            _ => {}
        }
    }
    // fields without a name are repetitions of each other
    warn(&mut v, (kind[0] == 1 || kind[0] == 2) && (kind[1] == 1 || kind[1] == 2), if q { K::REQUEST_HEADER_REPETITION } else { K::RESPONSE_HEADER_REPETITION });
    expect(&mut p, &v);
}
/// A field before which there is nothing to continue.
fn folding(side: usize) {
    let w = sym_u8();
    assume(w == b' ' || w == 9 || w == b'a');
    let mut p = new(cfg0());
    if side == 0 { req_c(&mut p, &cat(&[b"GET / HTTP/1.0\r\n", &[w], b"A: b\r\nC: d\r\n\r\n"])); }
    else { req_c(&mut p, GET); res_c(&mut p, &cat(&[b"HTTP/1.1 200 O\r\n", &[w], b"A: b\r\nContent-Length: 0\r\n\r\n"])); }
    let mut v = Vec::new();
    warn(&mut v, w != b'a', if side == 0 { K::INVALID_REQUEST_FIELD_FOLDING } else { K::INVALID_RESPONSE_FIELD_FOLDING });
    expect(&mut p, &v);
}
/// Repetitions: reported for the second field of a name only; Content-Length also when the lengths differ.
fn repeated(side: usize) {
    let n = 1 + choose(4);
    let x = sym_u8();
    assume(x == b'a' || x == b'A' || x == b'b');
    let mut h = Vec::new();
    for i in 0..n { h.extend_from_slice(&cat(&[&[if i == 1 { x } else { b'a' }], b": 1\r\n"])); }
    let mut p = new(cfg0());
    if side == 0 { req_c(&mut p, &cat(&[b"GET / HTTP/1.1\r\nHost: a\r\n", &h, b"\r\n"])); }
    else { req_c(&mut p, GET); res_c(&mut p, &cat(&[b"HTTP/1.1 200 O\r\nContent-Length: 0\r\n", &h, b"\r\n"])); }
    let mut v = Vec::new();
    let m = if x == b'b' && n > 1 { n - 1 } else { n };
    warn(&mut v, m > 1, if side == 0 { K::REQUEST_HEADER_REPETITION } else { K::RESPONSE_HEADER_REPETITION });
    expect(&mut p, &v);
}
fn lengths(side: usize) {
    let c = sym::<2>();
    for x in c { assume(x >= b'0' && x <= b'4' || x == b'z'); }
    let three = choose(2);
    let h = cat(&[b"Content-Length: ", &c[..1], b"\r\nContent-Length: ", &c[1..], b"\r\n", if three == 1 { b"content-length: 9\r\n" } else { b"" }, b"\r\n"]);
    let mut p = new(cfg0());
    if side == 0 { req(&mut p, &cat(&[b"PUT / HTTP/1.1\r\nHost: a\r\n", &h, b"x"])); }
    else { req_c(&mut p, GET); res(&mut p, &cat(&[b"HTTP/1.1 200 O\r\n", &h])); }
    let mut v = Vec::new();
    warn(&mut v, true, if side == 0 { K::REQUEST_HEADER_REPETITION } else { K::RESPONSE_HEADER_REPETITION });
    let k = if side == 0 { K::DUPLICATE_CONTENT_LENGTH_FIELD_IN_REQUEST } else { K::DUPLICATE_CONTENT_LENGTH_FIELD_IN_RESPONSE };
    warn(&mut v, c[0] != c[1] || c[0] == b'z', k);
    warn(&mut v, three == 1, k);
    // it is the first that counts, and it may be no number
    // (of a request the flags tell)
    if c[0] == b'z' && side == 1 { v.push((K::INVALID_CONTENT_LENGTH_FIELD_IN_RESPONSE, L::ERROR)); }
    if side == 0 && c[0] == b'0' { assume(false); } // the x is then stray
    expect(&mut p, &v);
}
/// Junk around a Content-Length.
fn junk(side: usize) {
    let c = sym::<2>();
    for x in c { assume(x > 32 && x < 127); }
    let h = cat(&[b"Content-Length: ", &c[..1], b"2", &c[1..], b"\r\n\r\n"]);
    let mut p = new(cfg0());
    if side == 0 { req(&mut p, &cat(&[b"PUT / HTTP/1.1\r\nHost: a\r\n", &h])); }
    else { req_c(&mut p, GET); res(&mut p, &cat(&[b"HTTP/1.1 200 O\r\n", &h])); }
    let mut v = Vec::new();
    warn(&mut v, !(c[0] >= b'0' && c[0] <= b'9'), K::CONTENT_LENGTH_EXTRA_DATA_START);
    warn(&mut v, !(c[1] >= b'0' && c[1] <= b'9'), K::CONTENT_LENGTH_EXTRA_DATA_END);
    expect(&mut p, &v);
}
fn chunks(side: usize) {
    let c = sym::<3>();
    for x in c { assume(x > 32 && x < 127); }
    let x = c[0];
    // "1" and two more characters: a longer number is another case
    assume(!x.is_ascii_hexdigit());
    let l = cat(&[b"1", &c, b"\r\nq\r\n1;a\r\nq\r\n0\r\n\r\n"]);
    let mut p = new(cfg0());
    let head: &[u8] = if side == 0 { b"PUT / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n" } else { b"HTTP/1.1 200 O\r\nTransfer-Encoding: chunked\r\n\r\n" };
    let k = head.len() + choose(5);
    if side == 1 { req_c(&mut p, GET); }
    let d = cat(&[head, &l]);
    for y in [&d[..k], &d[k..]] { if side == 0 { req(&mut p, y); } else { res(&mut p, y); } }
    let mut v = Vec::new();
    let e = if side == 0 { K::REQUEST_CHUNK_EXTENSION } else { K::RESPONSE_CHUNK_EXTENSION };
    warn(&mut v, c[0] == b';' || c[1] == b';' || c[2] == b';', e);
    warn(&mut v, true, e);
    expect(&mut p, &v);
}
fn bad_chunk(side: usize) {
    let c = sym_u8();
    assume(c > 32 && c < 127 && !c.is_ascii_hexdigit());
    let mut p = new(cfg0());
    let head: &[u8] = if side == 0 { b"PUT / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n" } else { b"HTTP/1.1 200 O\r\nTransfer-Encoding: chunked\r\n\r\n" };
    if side == 1 { req_c(&mut p, GET); }
    let d = cat(&[head, &[c], b"1\r\nx"]);
    let k = head.len() + choose(5);
    for y in [&d[..k], &d[k..]] { if side == 0 { req(&mut p, y); } else { res(&mut p, y); } }
    let bad = if side == 0 { K::INVALID_REQUEST_CHUNK_LEN } else { K::INVALID_RESPONSE_CHUNK_LEN };
    let mut v = vec![(bad, L::ERROR)];
    // a second piece after the failure
    if side == 0 && k > head.len() { v.push((K::PARSER_STATE_ERROR, L::ERROR)); }
    expect(&mut p, &v);
}
/// Transfer-Encoding spellings and old protocols.
fn te() {
    let c = sym_u8();
    assume(c > 32 && c < 127);
    let old = choose(2);
    let mut p = new(cfg0());
    req_c(&mut p, GET);
    res_c(&mut p, &cat(&[if old == 1 { b"HTTP/1.0" } else { b"HTTP/1.1" }, b" 200 O\r\nTransfer-Encoding: chunke", &[c], b"\r\nTransfer-Encoding: CHUNKED\r\n\r\n"]));
    let mut v = Vec::new();
    warn(&mut v, true, K::RESPONSE_HEADER_REPETITION);
    warn(&mut v, true, K::RESPONSE_ABNORMAL_TRANSFER_ENCODING);
    warn(&mut v, old == 1, K::RESPONSE_CHUNKED_OLD_PROTO);
    expect(&mut p, &v);
}
fn te1() {
    let c = sym_u8();
    assume(c == b'd' || c == b'D' || c == b'x');
    let old = choose(2);
    let mut p = new(cfg0());
    req_c(&mut p, GET);
    res_c(&mut p, &cat(&[if old == 1 { b"HTTP/1.0" } else { b"HTTP/1.1" }, b" 200 O\r\nTransfer-Encoding: cHunke", &[c], b"\r\n\r\n"]));
    let mut v = Vec::new();
    warn(&mut v, old == 1 && c != b'x', K::RESPONSE_CHUNKED_OLD_PROTO);
    expect(&mut p, &v);
}
/// The response line, and bodies where none belongs.
fn rline() {
    let s = sym::<3>();
    for c in s { assume(c > 32 && c < 127); }
    assume(!(s[0] == b'1' && s[1] == b'0'));
    let pr = choose(3);
    let cl = choose(2);
    let mut p = new(cfg0());
    req_c(&mut p, GET);
    res_c(&mut p, &cat(&[[&b"HTTP/1.1"[..], b"HTTP/2.7", b"HTTP/1.01"][pr], b" ", &s, b" O\r\n", if cl == 1 { b"Content-Length: 0\r\n" } else { b"A: b\r\n" }, b"\r\n"]));
    let num = s[0] >= b'0' && s[0] <= b'9' && s[1] >= b'0' && s[1] <= b'9' && s[2] >= b'0' && s[2] <= b'9';
    let mut v = Vec::new();
    warn(&mut v, pr != 0, K::RESPONSE_LINE_INVALID_PROTOCOL);
    warn(&mut v, !num || s[0] == b'0', K::RESPONSE_LINE_INVALID_RESPONSE_STATUS);
    let none = num && (s[0] == b'1' || (s[0] == b'2' && s[1] == b'0' && s[2] == b'4') || (s[0] == b'3' && s[1] == b'0' && s[2] == b'4'));
    warn(&mut v, none && cl == 1, K::RESPONSE_BODY_UNEXPECTED);
    expect(&mut p, &v);
}
/// 100 and 101.
fn interim() {
    let n = choose(4);
    let mut p = new(cfg0());
    req_c(&mut p, GET);
    for _ in 0..n { res_c(&mut p, b"HTTP/1.1 100 C\r\nA: b\r\n\r\n"); }
    res_c(&mut p, R0);
    let v: Vec<_> = (1..n).map(|_| (K::CONTINUE_ALREADY_SEEN, L::ERROR)).collect();
    expect(&mut p, &v);
}
fn switching() {
    let cl = choose(2);
    let mut p = new(cfg0());
    req_c(&mut p, GET);
    res(&mut p, &cat(&[b"HTTP/1.1 101 S\r\n", if cl == 1 { b"Content-Length: 0\r\n" } else { b"A: b\r\n" }, b"\r\n"]));
    let mut v = Vec::new();
    warn(&mut v, cl == 1, K::SWITCHING_PROTO_WITH_CONTENT_LENGTH);
    warn(&mut v, cl == 1, K::RESPONSE_BODY_UNEXPECTED);
    expect(&mut p, &v);
}
/// What ends a response, or does not.
fn refused() {
    let k = choose(4);
    let c = sym_u8();
    assume(c > 32 && c < 127);
    let mut p = new(cfg0());
    req_c(&mut p, GET);
    let d = match k {
        0 => cat(&[b"HTTP/1.1 200 O\r\nContent-Length: ", &[c], b"\r\n\r\n"]),
        1 => cat(&[b"HTTP/1.1 200 O\r\nContent-Type: multipart/byterange", &[c], b"\r\n\r\n"]),
        2 => cat(&[b"HTTP/1.1 200 O\r\nContent-Length: 1\r\n\r\nx", &[c], b"y\r\n"]),
        _ => cat(&[b"HTTP/1.1 200 O\r\nContent-Length: 1\r\n\r\n", &[c]]),
    };
    res(&mut p, &d);
    let dig = c >= b'0' && c <= b'9';
    let v = match k {
        0 if !dig => vec![(K::INVALID_CONTENT_LENGTH_FIELD_IN_RESPONSE, L::ERROR)],
        1 if c == b's' || c == b'S' => vec![(K::RESPONSE_MULTIPART_BYTERANGES, L::ERROR)],
        2 => vec![(K::RESPONSE_BODY_UNEXPECTED, L::WARNING)],
        _ => vec![],
    };
    expect(&mut p, &v);
}
fn stray() {
    let c = sym_u8();
    assume(c > 32 && c < 127 && !(c >= b'A' && c <= b'Z'));
    let n = choose(3);
    let mut p = new(cfg0());
    let mut d = GET.to_vec();
    for _ in 0..n { d.extend_from_slice(&[c, b'x', b'\n']); }
    d.extend_from_slice(GET);
    req(&mut p, &d);
    let v: Vec<_> = (0..n).map(|_| (K::REQUEST_BODY_UNEXPECTED, L::WARNING)).collect();
    expect(&mut p, &v);
}
/// Misuse, gaps and finished streams.
fn calls() {
    let k = choose(7);
    let mut p = new(cfg0());
    let gap = |n: usize| ParserData::from(n);
    let mut v = Vec::new();
    match k {
        0 => { p.open(None, None, None, None, ts()); v.push((K::CONNECTION_ALREADY_OPEN, L::ERROR)); }
        1 => { p.request_data(ParserData::from(&b""[..]), ts()); v.push((K::ZERO_LENGTH_DATA_CHUNKS, L::ERROR)); }
        2 => { p.response_data(ParserData::from(&b""[..]), ts()); v.push((K::ZERO_LENGTH_DATA_CHUNKS, L::ERROR)); }
        3 => { req(&mut p, b"GET / HT"); p.request_data(gap(3), ts()); v.push((K::INVALID_GAP, L::ERROR)); }
        4 => { req(&mut p, GET); res(&mut p, b"HTTP/1.1 2"); p.response_data(gap(3), ts()); v.push((K::INVALID_GAP, L::ERROR)); }
        5 => {
            req(&mut p, b"PUT / HTTP/1.1\r\nHost: a\r\nContent-Length: 5\r\n\r\n");
            p.request_data(gap(4), ts());
            req(&mut p, b"x");
        }
        _ => {
            req(&mut p, b"PUT / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: foo\r\n\r\n");
            let n = choose(3);
            for _ in 0..n { req(&mut p, b"x"); v.push((K::PARSER_STATE_ERROR, L::ERROR)); }
        }
    }
    expect(&mut p, &v);
}
/// Responses without a request.
fn unmatched() {
    let n = choose(3);
    let mut p = new(cfg0());
    if n < 2 { req_c(&mut p, GET); }
    if n == 0 { let mut q = new(cfg0()); req(&mut q, b"GE"); res(&mut q, R0); expect(&mut q, &[(K::REQUEST_LINE_INCOMPLETE, L::WARNING)]); }
    res(&mut p, R0);
    if n == 1 { res(&mut p, R0); }
    let v: Vec<_> = if n == 0 { vec![] } else { vec![(K::UNABLE_TO_MATCH_RESPONSE_TO_REQUEST, L::ERROR)] };
    expect(&mut p, &v);
}
/// Field limits.
fn limit(side: usize) {
    let n = choose(5);
    let mut c = cfg0();
    c.field_limit = 40;
    let mut p = new(c);
    let x = vec![b'x'; 22 + n];
    if side == 0 { req(&mut p, &cat(&[b"GET /", &x, b" HTTP/1.1\r\n"])); }
    else { req_c(&mut p, GET); res(&mut p, &cat(&[b"HTTP/1.1 200 ", &x, b"xx\r\n"])); }
    let over = if side == 0 { 5 + 22 + n + 11 > 40 } else { 13 + 22 + n + 4 > 40 };
    let v = if over { vec![(if side == 0 { K::REQUEST_FIELD_TOO_LONG } else { K::RESPONSE_FIELD_TOO_LONG }, L::ERROR)] } else { vec![] };
    expect(&mut p, &v);
}
/// Double encoding, where it is looked for.
fn double() {
    let s: [u8; 2] = sym();
    for c in s { assume(c > 32 && c < 127 && c != b'%' && c != b'#' && c != b'?' && c != b'/' && c != b'\\' && c != b'u' && c != b'U' && c != b'.'); }
    let (pa, qu) = (choose(2), choose(2));
    let mut c = cfg0();
    c.set_double_decode_normalized_path(pa == 1);
    c.set_double_decode_normalized_query(qu == 1);
    let at = choose(4);
    let e = cat(&[b"%25", &s]);
    let u = match at { 0 => cat(&[b"/", &e]), 1 => cat(&[b"/a?", &e]), 2 => cat(&[b"/", &e, b"?", &e]), _ => cat(&[b"/%", &s, b"?b%", &s]) };
    let mut p = new(c);
    req(&mut p, &cat(&[b"GET ", &u, b" HTTP/1.1\r\nHost: a\r\n\r\n"]));
    let hex = s[0].is_ascii_hexdigit() && s[1].is_ascii_hexdigit();
    // what is encoded once must not be the percent sign itself, nor the separator, which the path keeps encoded
    if at == 3 { assume(eqb(&s, b"25") == 0 && !(s[0] == b'2' && (s[1] | 32) == b'f')); }
    let mut v = Vec::new();
    warn(&mut v, hex && pa == 1 && (at == 0 || at == 2), K::DOUBLE_ENCODED_URI);
    warn(&mut v, hex && qu == 1 && (at == 1 || at == 2), K::DOUBLE_ENCODED_URI);
    expect(&mut p, &v);
}
/// Content-Encoding.
fn encodings(side: usize) {
    let l = choose(4);
    let mut c = cfg0();
    c.set_request_decompression(true);
    c.compression_options.set_layer_limit(if l == 3 { None } else { Some(1 + l as u32) });
    let k = choose(12);
    let (ce, layers, odd): (&[u8], usize, usize) = [(&b"gzip"[..], 1, 0), (b"deflate, gzip", 2, 0), (b"gzip, deflate, gzip, deflate", 4, 0), (b"xgzip, deflate", 2, 1), (b"foo, gzip", 2, 1),
        (b"X-DEFLATE", 1, 0), (b"x-Gzip", 1, 0), (b"Deflate", 1, 0), (b"GZIP", 1, 0), (b"LZMA", 1, 0), (b"None", 1, 0), (b"INFLATE", 1, 0)][k];
    let mut p = new(c);
    let h = cat(&[b"Content-Encoding: ", ce, b"\r\nContent-Length: 3\r\n\r\n"]);
    if side == 0 { req_c(&mut p, &cat(&[b"PUT / HTTP/1.1\r\nHost: a\r\n", &h])); }
    else { req_c(&mut p, GET); res_c(&mut p, &cat(&[b"HTTP/1.1 200 O\r\n", &h])); }
    let mut v = Vec::new();
    warn(&mut v, l < 3 && layers > l + 1, K::TOO_MANY_ENCODING_LAYERS);
    warn(&mut v, odd == 1, K::ABNORMAL_CE_HEADER);
    expect(&mut p, &v);
}
/// Layers of lzma.
fn lzma_layers(side: usize) {
    let (l, n) = (choose(4), 2 + choose(3));
    let mut c = cfg0();
    c.set_request_decompression(true);
    c.compression_options.set_layer_limit(None);
    c.compression_options.set_lzma_layers(if l == 0 { None } else { Some(l as u32) });
    let mut ce = b"lzma".to_vec();
    for _ in 1..n { ce.extend_from_slice(b", lzma"); }
    let mut p = new(c);
    let h = cat(&[b"Content-Encoding: ", &ce, b"\r\nContent-Length: 3\r\n\r\n"]);
    if side == 0 { req_c(&mut p, &cat(&[b"PUT / HTTP/1.1\r\nHost: a\r\n", &h])); }
    else { req_c(&mut p, GET); res_c(&mut p, &cat(&[b"HTTP/1.1 200 O\r\n", &h])); }
    let mut v = Vec::new();
    warn(&mut v, l > 0 && n > l, if side == 0 { K::REQUEST_TOO_MANY_LZMA_LAYERS } else { K::RESPONSE_TOO_MANY_LZMA_LAYERS });
    expect(&mut p, &v);
}
fn bomb(side: usize) {
    let lim = u16::from_le_bytes(sym::<2>());
    let mut c = cfg0();
    c.set_request_decompression(true);
    c.compression_options.set_time_limit(u32::MAX);
    c.compression_options.set_bomb_limit(lim as u64);
    c.compression_options.set_bomb_ratio(1);
    let b = b"\x4b\x4c\x1c\x05\xc4\x02\x00";
    let mut p = new(c);
    if side == 0 { req(&mut p, &cat(&[b"PUT / HTTP/1.1\r\nHost: h\r\nContent-Encoding: deflate\r\nContent-Length: 7\r\n\r\n", b])); }
    else { req_c(&mut p, GET); res(&mut p, &cat(&[b"HTTP/1.1 200 OK\r\nContent-Encoding: deflate\r\nContent-Length: 7\r\n\r\n", b])); }
    let v = if lim < 300 { vec![(K::COMPRESSION_BOMB, L::ERROR)] } else { vec![] };
    expect(&mut p, &v);
}
harness! {
    fn h_c30_double() { double() }
    fn h_c30_clean() { clean() }
    fn h_c30_line() { line() }
    fn h_c30_method_only() { method_only() }
    fn h_c30_headers_req() { headers(0) }
    fn h_c30_headers_res() { headers(1) }
    fn h_c30_folding_req() { folding(0) }
    fn h_c30_folding_res() { folding(1) }
    fn h_c30_repeated_req() { repeated(0) }
    fn h_c30_repeated_res() { repeated(1) }
    fn h_c30_lengths_req() { lengths(0) }
    fn h_c30_lengths_res() { lengths(1) }
    fn h_c30_junk_req() { junk(0) }
    fn h_c30_junk_res() { junk(1) }
    fn h_c30_chunks_req() { chunks(0) }
    fn h_c30_chunks_res() { chunks(1) }
    fn h_c30_bad_chunk_req() { bad_chunk(0) }
    fn h_c30_bad_chunk_res() { bad_chunk(1) }
    fn h_c30_te() { te() }
    fn h_c30_te1() { te1() }
    fn h_c30_rline() { rline() }
    fn h_c30_interim() { interim() }
    fn h_c30_switching() { switching() }
    fn h_c30_refused() { refused() }
    fn h_c30_stray() { stray() }
    fn h_c30_calls() { calls() }
    fn h_c30_unmatched() { unmatched() }
    fn h_c30_limit_req() { limit(0) }
    fn h_c30_limit_res() { limit(1) }
    fn h_c30_ce_req() { encodings(0) }
    fn h_c30_ce_res() { encodings(1) }
    fn h_c30_lzma_req() { lzma_layers(0) }
    fn h_c30_lzma_res() { lzma_layers(1) }
    fn h_c30_bomb_req() { bomb(0) }
    fn h_c30_bomb_res() { bomb(1) }
}
