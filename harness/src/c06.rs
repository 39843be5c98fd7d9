//! C06: which bytes are the response body, and that exactly those are delivered.
use crate::{com::*, vp::*};
use htp::config::{Config, HtpServerPersonality as P};
use htp::connection_parser::{ConnectionParser, HtpStreamState as S, ParserData};
use htp::transaction::{HtpResponseProgress as RP, HtpTransferCoding as TC};
const NEXT: &[u8] = b"HTTP/1.1 299 Z\r\nContent-Length: 0\r\n\r\n";
fn cut(p: &mut ConnectionParser, d: &[u8], from: usize) {
    let k = from + choose(d.len() + 1 - from);
    if k > 0 { res_c(p, &d[..k]); }
    if k < d.len() { res_c(p, &d[k..]); }
}
fn two(m: &[u8]) -> Vec<u8> { cat(&[m, b" / HTTP/1.1\r\nHost: a\r\n\r\nGET /b HTTP/1.1\r\nHost: a\r\n\r\n"]) }
fn start(m: &[u8]) -> ConnectionParser {
    let _ = take_rec();
    let mut p = parser(cfg0());
    req_c(&mut p, &two(m));
    check(p.tx_size() == 2, "two requests");
    p
}
/// First response's body is `body`; the second response is matched to the second request.
fn done(p: &ConnectionParser, r: &Rec, body: &[u8], mlen: usize, tc: TC, next: bool) {
    let t = p.tx(0).unwrap();
    check_bytes(&r.res_body[0], body, "response body delivered");
    check(t.response_transfer_coding == tc, "response transfer coding");
    check(t.response_message_len as usize == mlen, "response message length");
    check(t.response_entity_len as usize == body.len(), "response entity length");
    check(t.response_progress == RP::COMPLETE, "response complete");
    check(r.count(E_RES_COMPLETE, 0) == 1, "response complete hook once");
    check(r.count(E_TX_COMPLETE, 0) == 1, "transaction complete hook once");
    match p.tx(1) {
        Some(n) => {
            if next {
                check_obytes(ob(&n.response_status), Some(b"299"), "next response starts where the body ends");
                check(r.count(E_RES_COMPLETE, 1) == 1, "next response complete");
            } else {
                check(n.response_status.is_none(), "no second response");
            }
            check(r.res_body[1].is_empty(), "next response has no body");
            obs_tx(n);
        }
        None => check(false, "second transaction"),
    }
    obs_tx(t);
    reach("end");
}
const DIG: [u8; 256] = tab(b"0123456789");
const DIG1: [u8; 256] = tab(b"123456789");
fn status() -> [u8; 3] {
    let s: [u8; 3] = sym();
    assume_tab(s[0], &DIG1);
    assume_tab(s[1], &DIG);
    assume_tab(s[2], &DIG);
    s
}
fn is(s: &[u8; 3], v: &[u8; 3]) -> bool { eqb(s, v) == 1 }
fn nocut(p: &mut ConnectionParser, d: &[u8]) { res_c(p, d); }
fn cl(m: &[u8], n: usize) {
    let s = status();
    let b = symv(n);
    let hd = m == b"HEAD";
    // 100 with Content-Length 0 is interim (see h_c06_100)
    if n == 0 { assume(!is(&s, b"100")); }
    let mut p = start(m);
    let d = cat(&[b"HTTP/1.1 ", &s, b" X\r\nContent-Length: ", &[b'0' + n as u8], b"\r\n\r\n", if hd { b"" } else { &b }, NEXT]);
    nocut(&mut p, &d);
    let r = take_rec();
    if hd { done(&p, &r, b"", 0, TC::NO_BODY, true) } else { done(&p, &r, &b, n, TC::IDENTITY, true) }
}
fn nolen(m: &[u8]) {
    let s = status();
    let b: [u8; 2] = sym();
    let mut p = start(m);
    let hd = m == b"HEAD";
    assume(!is(&s, b"100") && !is(&s, b"101"));
    let nobody = hd || s[0] == b'1' || is(&s, b"204") || is(&s, b"304");
    if nobody {
        let d = cat(&[b"HTTP/1.1 ", &s, b" X\r\nA: b\r\n\r\n", NEXT]);
        nocut(&mut p, &d);
        p.close(ts());
        let r = take_rec();
        done(&p, &r, b"", 0, TC::NO_BODY, true);
    } else {
        let d = cat(&[b"HTTP/1.1 ", &s, b" X\r\nA: b\r\n\r\n", &b, NEXT]);
        nocut(&mut p, &d);
        check(p.tx(0).unwrap().response_progress == RP::BODY, "open body not complete before close");
        p.close(ts());
        let r = take_rec();
        let body = cat(&[&b, NEXT]);
        done(&p, &r, &body, body.len(), TC::IDENTITY, false);
        reach("close");
    }
}
fn chunked(m: &[u8], l: &[(&[u8], usize)], last: &[u8], trailer: &[u8], extra: &[u8], st: [u8; 3], cuts: bool) {
    let mut raw: Vec<u8> = Vec::new();
    let mut body: Vec<u8> = Vec::new();
    for (line, n) in l {
        let b = symv(*n);
        raw.extend_from_slice(line);
        raw.extend_from_slice(&b);
        raw.extend_from_slice(b"\r\n");
        body.extend_from_slice(&b);
    }
    raw.extend_from_slice(last);
    let mut p = start(m);
    let hd = m == b"HEAD";
    let head = cat(&[b"HTTP/1.1 ", &st, b" X\r\nTransfer-Encoding: chunked\r\n", extra, b"\r\n"]);
    if hd {
        nocut(&mut p, &cat(&[&head, NEXT]));
        let r = take_rec();
        done(&p, &r, b"", 0, TC::NO_BODY, true);
        return;
    }
    let d = cat(&[&head, &raw, trailer, b"\r\n", NEXT]);
    if cuts { cut(&mut p, &d, head.len() - 3); } else { nocut(&mut p, &d); }
    let r = take_rec();
    check(r.count(E_RES_TRAILER, 0) == 1, "trailer hook once");
    check_bytes(&r.res_tdata[0], &cat(&[trailer, b"\r\n"]), "raw trailer data");
    done(&p, &r, &body, raw.len(), TC::CHUNKED, true);
}
fn clcut(n: usize, digits: &[u8]) {
    let b = symv(n);
    let mut p = start(b"GET");
    let head = cat(&[b"HTTP/1.1 200 OK\r\nContent-Length:", digits, b"\r\n\r\n"]);
    cut(&mut p, &cat(&[&head, &b, NEXT]), head.len() - 3);
    let r = take_rec();
    check(p.tx(0).unwrap().response_content_length == Some(n as u64), "content length");
    done(&p, &r, &b, n, TC::IDENTITY, true);
}
fn interim(hdrs: &[u8], n: usize) {
    let b: [u8; 2] = sym();
    let mut p = start(b"POST");
    let mut d = Vec::new();
    for _ in 0..n { d.extend_from_slice(&cat(&[b"HTTP/1.1 100 Continue\r\n", hdrs, b"\r\n"])); }
    d.extend_from_slice(&cat(&[b"HTTP/1.1 200 OK\r\nC: d\r\nContent-Length: 2\r\n\r\n", &b, NEXT]));
    cut(&mut p, &d, 0);
    let r = take_rec();
    let t = p.tx(0).unwrap();
    check(t.seen_100continue, "100-continue seen");
    check_obytes(ob(&t.response_status), Some(b"200"), "final status");
    check(t.response_headers.elements.len() == 2, "only the final response's headers");
    done(&p, &r, &b, 2, TC::IDENTITY, true);
}
/// The stream ends inside a body of known length.
fn partial(have: usize, hdr: &[u8], pre: &[u8]) {
    let b = symv(have);
    let mut p = start(b"GET");
    let head = cat(&[b"HTTP/1.1 200 OK\r\n", hdr, b"\r\n\r\n"]);
    cut(&mut p, &cat(&[&head, pre, &b]), head.len());
    let r = take_rec();
    let t = p.tx(0).unwrap();
    check_bytes(&r.res_body[0], &b, "body prefix delivered at once");
    check(t.response_progress == RP::BODY && r.count(E_RES_COMPLETE, 0) == 0, "not complete");
    obs_tx(t);
    reach("end");
}
const SIZES: [usize; 22] = [13, 15, 16, 17, 31, 32, 33, 99, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4097, 32768, 65535, 65536, 70001];
fn fill(n: usize) -> Vec<u8> { (0..n).map(|i| b'!' + (i % 90) as u8).collect() }
fn hex(n: usize, up: bool, z: usize) -> Vec<u8> {
    let mut v = vec![b'0'; z];
    v.extend_from_slice(if up { format!("{:X}", n) } else { format!("{:x}", n) }.as_bytes());
    v
}
fn somewhere(head: usize, n: usize, all: usize) -> usize {
    let c = [head, head + 1, head + 2, head + 3, head + n / 2, head + n - 1, head + n, head + n + 1, head + n + 2, all];
    c[choose(10)].min(all)
}
fn large_cl() {
    let n = SIZES[choose(22)];
    let mut b = fill(n);
    b[n - 1] = sym_u8();
    let mut p = start(b"GET");
    let head = cat(&[b"HTTP/1.1 200 OK\r\nContent-Length: ", n.to_string().as_bytes(), b"\r\n\r\n"]);
    let d = cat(&[&head, &b, NEXT]);
    let k = somewhere(head.len(), n, d.len());
    res_c(&mut p, &d[..k]);
    if k < d.len() { res_c(&mut p, &d[k..]); }
    let r = take_rec();
    done(&p, &r, &b, n, TC::IDENTITY, true);
}
fn large_ch() {
    let n = SIZES[choose(22)];
    let mut b = fill(n);
    b[n - 1] = sym_u8();
    let mut p = start(b"GET");
    let head = cat(&[b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n"]);
    let raw = cat(&[&hex(n, choose(2) == 1, choose(2)), b"\r\n", &b, b"\r\n", &hex(n, false, 0), b"\r\n", &b, b"\r\n0\r\n"]);
    let d = cat(&[&head, &raw, b"\r\n", NEXT]);
    let k = somewhere(head.len() + 4, n, d.len());
    res_c(&mut p, &d[..k]);
    if k < d.len() { res_c(&mut p, &d[k..]); }
    let r = take_rec();
    done(&p, &r, &cat(&[&b, &b]), raw.len(), TC::CHUNKED, true);
}
fn large_close() {
    let n = SIZES[choose(22)];
    let mut b = fill(n);
    b[n - 1] = sym_u8();
    let mut p = start(b"GET");
    let head = b"HTTP/1.1 200 OK\r\nA: b\r\n\r\n";
    let d = cat(&[head, &b]);
    let k = somewhere(head.len(), n, d.len());
    res_c(&mut p, &d[..k]);
    if k < d.len() { res_c(&mut p, &d[k..]); }
    p.close(ts());
    let r = take_rec();
    done(&p, &r, &b, n, TC::IDENTITY, false);
}
fn many_ch(k: usize, piece: usize) {
    let b = symv(2);
    let mut raw = Vec::new();
    let mut body = Vec::new();
    for i in 0..k {
        let c = [b'0' + i as u8, b[i % 2]];
        let c = &c[..1 + i % 2];
        raw.extend_from_slice(&cat(&[&hex(c.len(), false, i % 3), if i % 4 == 1 { b";e" } else { b"" }, if i % 3 == 2 { b"\n" } else { b"\r\n" }, c, b"\r\n"]));
        body.extend_from_slice(c);
    }
    raw.extend_from_slice(b"0\r\n");
    let mut p = start(b"GET");
    res_c(&mut p, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n");
    for d in cat(&[&raw, b"\r\n", NEXT]).chunks(piece) { res_c(&mut p, d); }
    let r = take_rec();
    done(&p, &r, &body, raw.len(), TC::CHUNKED, true);
}
/// No header at all: the body lasts to the close, whatever it starts with.
fn bare(cut: bool) {
    let b = symv(3);
    let head: &[u8] = [&b"HTTP/1.1 200 OK\r\n\r\n"[..], b"HTTP/1.0 200 OK\n\n", b"HTTP/1.1 200 OK\r\n\n"][choose(3)];
    let mut p = start(b"GET");
    let d = cat(&[head, &b, b"q"]);
    let k = if cut { 1 + choose(d.len() - 1) } else { d.len() };
    res_c(&mut p, &d[..k]);
    if k < d.len() { res_c(&mut p, &d[k..]); }
    check(p.tx(0).unwrap().response_headers.elements.is_empty(), "no header");
    p.close(ts());
    let r = take_rec();
    done(&p, &r, &cat(&[&b, b"q"]), 4, TC::IDENTITY, false);
}
/// A body of known length, or to the close, in three pieces.
fn cl3(close: bool) {
    let b = symv(6);
    let mut p = start(b"GET");
    let head: &[u8] = if close { b"HTTP/1.1 200 OK\r\nA: b\r\n\r\n" } else { b"HTTP/1.1 200 OK\r\nContent-Length: 6\r\n\r\n" };
    let d = cat(&[head, &b, if close { b"0123456789" } else { NEXT }]);
    let h = head.len();
    let j = h - 2 + choose(9);
    let k = j + choose(h + 10 - j);
    res_c(&mut p, &d[..j]);
    if k > j { res_c(&mut p, &d[j..k]); }
    res_c(&mut p, &d[k..]);
    if close { p.close(ts()); }
    let r = take_rec();
    if close { done(&p, &r, &d[h..], 16, TC::IDENTITY, false) } else { done(&p, &r, &b, 6, TC::IDENTITY, true) }
}
/// Four responses of all kinds in a row: each transaction gets its own body.
fn three() {
    let b = symv(5);
    let _ = take_rec();
    let mut p = parser(cfg0());
    req_c(&mut p, &cat(&[&two(b"GET"), &two(b"HEAD")]));
    let d = cat(&[b"HTTP/1.1 200 A\r\nContent-Length: 2\r\n\r\n", &b[..2], b"HTTP/1.1 201 B\r\nTransfer-Encoding: chunked\r\n\r\n2\r\n", &b[2..4], b"\r\n0\r\n\r\nHTTP/1.1 202 C\r\nContent-Length: 7\r\n\r\nHTTP/1.1 203 D\r\nContent-Length: 1\r\n\r\n", &b[4..]]);
    cut(&mut p, &d, 1);
    let r = take_rec();
    check(p.tx_size() == 4, "four transactions");
    for (i, (x, m)) in [(&b[..2], 2), (&b[2..4], 10), (&b[..0], 0), (&b[4..], 1)].iter().enumerate() {
        check_bytes(&r.res_body[i], x, "each response its own body");
        let t = p.tx(i).unwrap();
        check(t.response_message_len == *m && t.response_entity_len == x.len() as u64, "each response its own lengths");
        check_obytes(ob(&t.response_message), Some(&[b'A' + i as u8]), "each response its own line");
        check(t.response_progress == RP::COMPLETE && r.count(E_RES_COMPLETE, i) == 1, "each response complete once");
    }
}
/// The response to an HTTP/0.9 request has no line and no headers: everything to the close is body.
fn nine(b: &[u8]) {
    let _ = take_rec();
    let mut p = parser(cfg0());
    req_c(&mut p, b"GET /\r\n");
    check(p.tx(0).map(|t| t.is_protocol_0_9).unwrap_or(false), "an HTTP/0.9 request");
    cut(&mut p, b, 0);
    let t = p.tx(0).unwrap();
    check(t.response_progress == RP::BODY, "open body not complete before close");
    check_bytes(&take_peek().res_body[0], b, "all of it delivered at once");
    p.close(ts());
    let r = take_rec();
    check_bytes(&r.res_body[0], b, "response body delivered");
    let t = p.tx(0).unwrap();
    check(t.response_line.is_none() && t.response_status.is_none() && t.response_headers.elements.is_empty(), "neither line nor headers");
    check(r.count(E_RES_LINE, 0) == 0 && r.count(E_RES_HEADERS, 0) == 0, "no line or headers hook");
    check(t.response_transfer_coding == TC::IDENTITY, "response transfer coding");
    check(t.response_message_len as usize == b.len() && t.response_entity_len as usize == b.len(), "response lengths");
    check(t.response_progress == RP::COMPLETE && r.count(E_RES_COMPLETE, 0) == 1 && r.count(E_TX_COMPLETE, 0) == 1, "response complete once");
    check(p.tx_size() == 1, "one transaction");
    obs_tx(t);
    reach("end");
}
/// A status that is no number neither has a meaning of its own.
fn badstatus(m: &[u8]) {
    let s: [u8; 3] = sym();
    for c in s { assume(c > 32 && c < 127); }
    assume(!(DIG[s[0] as usize] == 1 && DIG[s[1] as usize] == 1 && DIG[s[2] as usize] == 1));
    let h = choose(3);
    let b: [u8; 2] = sym();
    let mut p = start(m);
    let hd: &[u8] = [&b"A: b"[..], b"Content-Length: 2", b"Transfer-Encoding: chunked"][h];
    let head = cat(&[b"HTTP/1.1 ", &s, b" X\r\n", hd, b"\r\n\r\n"]);
    let none = m == b"HEAD";
    let raw = if none { Vec::new() } else if h == 2 { cat(&[b"2\r\n", &b, b"\r\n0\r\n\r\n"]) } else { b.to_vec() };
    nocut(&mut p, &cat(&[&head, &raw, NEXT]));
    let open = h == 0 && !none;
    check((p.tx(0).unwrap().response_progress == RP::BODY) == open, "open exactly without a length");
    p.close(ts());
    let r = take_rec();
    if none { done(&p, &r, b"", 0, TC::NO_BODY, true) }
    else if open { let x = cat(&[&b, NEXT]); done(&p, &r, &x, x.len(), TC::IDENTITY, false) }
    else { done(&p, &r, &b, if h == 2 { 10 } else { 2 }, if h == 2 { TC::CHUNKED } else { TC::IDENTITY }, true) }
}
const METHODS: [&[u8]; 14] = [b"GET", b"PUT", b"POST", b"DELETE", b"OPTIONS", b"TRACE", b"PATCH", b"PROPFIND", b"HEAD", b"head", b"HEADS", b"HEA", b"QQ", b"MERGE"];
/// Of the method only HEAD matters.
fn methods() {
    let m = METHODS[choose(14)];
    let h = choose(4);
    let b: [u8; 2] = sym();
    let s = status();
    assume(s[0] != b'1' && !is(&s, b"204") && !is(&s, b"304"));
    let _ = take_rec();
    let mut p = parser(cfg0());
    req_c(&mut p, &two(m));
    check(p.tx_size() == 2, "two requests");
    let hd: &[u8] = [&b"A: b"[..], b"Content-Length: 2", b"Transfer-Encoding: chunked", b"Transfer-Encoding: chunked\r\nContent-Length: 1"][h];
    let head = cat(&[b"HTTP/1.1 ", &s, b" X\r\n", hd, b"\r\n\r\n"]);
    let none = m == b"HEAD";
    let raw = if none { Vec::new() } else if h >= 2 { cat(&[b"2\r\n", &b, b"\r\n0\r\n\r\n"]) } else { b.to_vec() };
    nocut(&mut p, &cat(&[&head, &raw, NEXT]));
    p.close(ts());
    let r = take_rec();
    if none { done(&p, &r, b"", 0, TC::NO_BODY, true) }
    else if h == 0 { let x = cat(&[&b, NEXT]); done(&p, &r, &x, x.len(), TC::IDENTITY, false) }
    else { done(&p, &r, &b, if h >= 2 { 10 } else { 2 }, if h >= 2 { TC::CHUNKED } else { TC::IDENTITY }, true) }
}
harness! {
    fn h_c06_nine() { let b = symv(3); nine(&b); }
    fn h_c06_nine_http() { let b = symv(2); nine(&cat(&[b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\n", &b])); }
    fn h_c06_badstatus() { badstatus(b"GET"); }
    fn h_c06_badstatus_head() { badstatus(b"HEAD"); }
    fn h_c06_methods() { methods(); }
    fn h_c06_bare() { bare(false); }
    fn h_c06_bare_cut() { bare(true); }
    fn h_c06_large_cl() { large_cl(); }
    fn h_c06_large_ch() { large_ch(); }
    fn h_c06_large_close() { large_close(); }
    fn h_c06_many() { many_ch(9, 1 + choose(12)); }
    fn h_c06_cl_3p() { cl3(false); }
    fn h_c06_close_3p() { cl3(true); }
    fn h_c06_three() { three(); }
    fn h_c06_cl0() { cl(b"GET", 0); }
    fn h_c06_cl2() { cl(b"GET", 2); }
    fn h_c06_cl5() { cl(b"POST", 5); }
    fn h_c06_head_cl() { cl(b"HEAD", 3); }
    fn h_c06_nolen() { nolen(b"GET"); }
    fn h_c06_head_nolen() { nolen(b"HEAD"); }
    fn h_c06_head_ch() { chunked(b"HEAD", &[(b"1\r\n", 1)], b"0\r\n", b"", b"", status(), false); }
    fn h_c06_ch_status() { chunked(b"GET", &[(b"1\r\n", 1)], b"0\r\n", b"", b"", status(), false); }
    fn h_c06_ch2() { chunked(b"GET", &[(b"3\r\n", 3), (b"2;x=y\r\n", 2)], b"0\r\n", b"", b"", *b"200", true); }
    fn h_c06_chhex() { chunked(b"GET", &[(b"0A\r\n", 10), (b"b\r\n", 11)], b"000\r\n", b"", b"", *b"200", true); }
    fn h_c06_chtr() { chunked(b"GET", &[(b"2\r\n", 2)], b"0\r\n", b"T: u\r\n", b"", *b"200", true); }
    fn h_c06_ch_cl() { chunked(b"GET", &[(b"2\r\n", 2)], b"0\r\n", b"", b"Content-Length: 9\r\n", *b"200", true); }
    fn h_c06_chlf() { chunked(b"GET", &[(b"2\n", 2), (b"11\n", 17)], b"0\n", b"", b"", *b"200", true); }
    fn h_c06_clcut() { clcut(3, b" 3"); }
    fn h_c06_clcut12() { clcut(12, b"  012 "); }
    fn h_c06_100() { interim(b"", 1); }
    fn h_c06_100h() { interim(b"A: b\r\n", 1); }
    fn h_c06_100cl() { interim(b"Content-Length: 0\r\n", 1); }
    fn h_c06_100x2() { interim(b"", 2); }
    fn h_c06_part() { partial(3, b"Content-Length: 4", b""); }
    fn h_c06_part_big() { partial(2, b"Content-Length: 18446744073709551615", b""); }
    fn h_c06_part_ch() { partial(2, b"Transfer-Encoding: chunked", b"3\r\n"); }
}
