//! C25: compressed bodies are delivered decompressed, whatever the chunking.
use crate::{com::*, vp::*};
use htp::config::Config;
use htp::connection_parser::{ConnectionParser, HtpStreamState as S};
use htp::decompressors::{Decompressor, HtpContentEncoding as E, Options};
use htp::transaction::HtpResponseProgress as RP;
fn stored(b: &[u8]) -> Vec<u8> {
    let n = b.len() as u16;
    let mut v = vec![1, n as u8, (n >> 8) as u8, !n as u8, (!n >> 8) as u8];
    v.extend_from_slice(b);
    v
}
/// A zlib stream with one stored block.
fn zl(b: &[u8]) -> Vec<u8> {
    let (mut x, mut y) = (1u32, 0u32);
    for c in b { x += *c as u32; y += x; }
    cat(&[&[0x78, 0x9c], &stored(b), &[(y >> 8) as u8, y as u8, (x >> 8) as u8, x as u8]])
}
fn zc() -> Config {
    let mut c = cfg0();
    c.set_request_decompression(true);
    c.compression_options.set_time_limit(u32::MAX);
    c
}
const GET: &[u8] = b"GET /n HTTP/1.1\r\nHost: h\r\n\r\n";
fn num(n: usize) -> [u8; 3] { [b'0' + (n / 100) as u8, b'0' + (n / 10 % 10) as u8, b'0' + (n % 10) as u8] }
/// deliver `w` as a response (side 1) or request body, cut at k
fn deliver(side: usize, ce: &[u8], w: &[u8], k: usize, want: &[u8]) {
    let _ = take_rec();
    let mut p = parser(zc());
    let n = num(w.len());
    if side == 0 {
        req_c(&mut p, &cat(&[b"PUT / HTTP/1.1\r\nHost: h\r\nContent-Encoding: ", ce, b"\r\nContent-Length: ", &n, b"\r\n\r\n"]));
        if k > 0 { check(req_c(&mut p, &w[..k]) == S::DATA, "body accepted"); }
        check(req_c(&mut p, &w[k..]) == S::DATA, "body accepted");
    } else {
        req_c(&mut p, GET);
        res_c(&mut p, &cat(&[b"HTTP/1.1 200 OK\r\nContent-Encoding: ", ce, b"\r\nContent-Length: ", &n, b"\r\n\r\n"]));
        if k > 0 { check(res_c(&mut p, &w[..k]) == S::DATA, "body accepted"); }
        check(res_c(&mut p, &w[k..]) == S::DATA, "body accepted");
    }
    let r = take_rec();
    let t = p.tx(0).unwrap();
    let (b, m, e, end) = if side == 0 { (&r.req_body[0], t.request_message_len, t.request_entity_len, r.count(E_REQ_BODY_END, 0)) }
        else { (&r.res_body[0], t.response_message_len, t.response_entity_len, r.count(E_RES_BODY_END, 0)) };
    check_bytes(b, want, "decompressed body");
    check(m == w.len() as u64, "message length");
    check(e == want.len() as u64, "entity length");
    check(side == 1 || end == 1, "end of body");
}
fn raw(n: usize) {
    let b = symv(n);
    let w = stored(&b);
    let k = choose(w.len());
    deliver(choose(2), b"deflate", &w, k, &b);
}
fn zlib(n: usize) {
    let b = symv(n);
    let w = zl(&b);
    let k = choose(w.len());
    deliver(choose(2), b"deflate", &w, k, &b);
}
fn gzip(n: usize, fl: u8) {
    let b = symv(n);
    let x = symv(6);
    let f = sym::<2>();
    for c in f { assume(c != 0); }
    let mut w = vec![0x1f, 0x8b, 8, fl];
    w.extend_from_slice(&x);
    if fl & 4 != 0 { w.extend_from_slice(&[2, 0]); w.extend_from_slice(&symv(2)); }
    if fl & 8 != 0 { w.extend_from_slice(&f[..1]); w.push(0); }
    if fl & 16 != 0 { w.extend_from_slice(&f[1..]); w.push(0); }
    if fl & 2 != 0 { w.extend_from_slice(&symv(2)); }
    w.extend_from_slice(&stored(&b));
    w.extend_from_slice(&symv(8));
    let k = choose(w.len());
    deliver(choose(2), b"gzip", &w, k, &b);
}
/// Header fields of gzip of any length.
fn gzip_fields() {
    let b = symv(2);
    let n = [1usize, 255, 256, 257, 300, 600][choose(6)];
    let mut w = vec![0x1f, 0x8b, 8, 0x1c, 0, 0, 0, 0, 0, 3, n as u8, (n >> 8) as u8];
    let s = sym::<2>();
    for i in 0..n { w.push(if i == 0 { s[0] } else if i == n - 1 { s[1] } else { 0x1f }); }
    let f = if choose(2) == 0 { 0 } else { n };
    for _ in 0..f { w.push(b'f'); }
    w.push(0);
    for _ in 0..2 * f { w.push(b'c'); }
    w.push(0);
    let h = w.len();
    w.extend_from_slice(&stored(&b));
    w.extend_from_slice(&[0; 8]);
    let _ = take_rec();
    let mut p = parser(zc());
    let side = choose(2);
    let l = format!("Content-Encoding: gzip\r\nContent-Length: {}\r\n\r\n", w.len());
    if side == 0 { req(&mut p, &cat(&[b"PUT / HTTP/1.1\r\nHost: h\r\n", l.as_bytes()])); } else { req(&mut p, GET); res(&mut p, &cat(&[b"HTTP/1.1 200 OK\r\n", l.as_bytes()])); }
    let i = [0usize, 10, 12, 11 + n, 12 + n, 12 + n + f / 2, 13 + n + f, h - 1, h][choose(9)];
    let j = [i, 12 + n / 2, 12 + n, 12 + n + f, h - 1, h, w.len()][choose(7)];
    if j < i { return; }
    for x in [&w[..i], &w[i..j], &w[j..]] { if !x.is_empty() { check(if side == 0 { req(&mut p, x) } else { res(&mut p, x) } == S::DATA, "body accepted"); } }
    let r = take_rec();
    check_bytes(if side == 0 { &r.req_body[0] } else { &r.res_body[0] }, &b, "decompressed body");
}
const D: &[u8] = b"The quick brown fox jumps over the lazy dog. The quick brown fox jumps. 0123456789 0123456789 abcdefghijklmnop.";
const FIXED: &[u8] = b"\x0b\xc9\x48\x55\x28\x2c\xcd\x4c\xce\x56\x48\x2a\xca\x2f\xcf\x53\x48\xcb\xaf\x50\xc8\x2a\xcd\x2d\x28\x56\xc8\x2f\x4b\x2d\x52\x28\x01\x4a\xe7\x24\x56\x55\x2a\xa4\xe4\xa7\xeb\x29\x84\xe0\x52\xac\xa7\x60\x60\x68\x64\x6c\x62\x6a\x66\x6e\x61\x89\xcc\x4c\x4c\x4a\x4e\x49\x4d\x4b\xcf\xc8\xcc\xca\xce\xc9\xcd\xcb\x2f\xd0\x03\x00";
const T: &[u8] = b"0:alpha;1:beta;2:alpha;3:beta;4:alpha;5:beta;6:alpha;7:beta;8:alpha;9:beta;10:alpha;11:beta;12:alpha;13:beta;14:alpha;15:beta;16:alpha;17:beta;18:alpha;19:beta;20:alpha;21:beta;22:alpha;23:beta;24:alpha;25:beta;26:alpha;27:beta;28:alpha;29:beta;";
const DYN: &[u8] = b"\x35\xce\xbb\x0d\x80\x30\x00\x03\xd1\x95\x62\xf3\x4f\xa6\x09\x12\x12\x05\x05\x05\xfb\x8b\x22\xe7\xf2\x9a\xa7\x2b\xb5\x3f\xef\xdd\x9b\xea\x79\x7d\xbd\x99\x9c\x46\xce\xe4\x32\x72\x25\xb7\x91\x3b\x79\x8c\x54\x89\x05\xa6\x68\x82\x53\x3c\x01\x2a\xa2\x20\x15\x53\xa0\x0e\xea\x1c\x06\x35\xa8\x83\x1a\xd4\x41\x0d\xea\xa0\x06\xfd\x01";
pub const LZ: &[u8] = b"\x5d\x00\x00\x80\x00\xff\xff\xff\xff\xff\xff\xff\xff\x00\x2a\x1a\x08\xa2\x03\x25\x66\xf1\x4b\x78\xc5\xa2\x05\xff\x2e\xe6\xd9\xd2\x20\x1a\xad\x34\xf8\xe2\x1d\xe8\x41\x36\xfa\xdc\x06\x69\xbb\x3c\xe4\x10\x34\x27\x09\xeb\xb3\x66\xe3\xed\x37\x44\xe0\x92\x98\x0b\x41\x62\xf7\x96\x69\x7f\x50\x97\x0f\x6d\x58\xb2\x45\xb0\x53\xfb\x19\x4d\x13\xc9\x49\x16\x98\x15\x60\x1d\x38\x23\x09\xff\xff\xbc\xd3\x80\x00";
const A300: &[u8] = b"\x4b\x4c\x1c\x05\xc4\x02\x00";

/// Any literals (below 144) in a block of fixed Huffman codes, then a match of three bytes.
fn fixed(n: usize, sides: usize) {
    let b = symv(n);
    let mut bits: u64 = 0b011;
    let mut at = 3;
    for c in &b {
        assume(*c < 144);
        bits |= ((0x30 + *c).reverse_bits() as u64) << at;
        at += 8;
    }
    let mut want = b.clone();
    // length 3: code 257 = 0000001 (7 bits); distance 1: code 0 (5 bits)
    bits |= (0b1000000u64) << at;
    at += 12;
    for _ in 0..3 { want.push(b[n - 1]); }
    at += 7;
    let w: Vec<u8> = bits.to_le_bytes()[..(at + 7) / 8].to_vec();
    let k = choose(w.len());
    deliver(if sides == 2 { choose(2) } else { 1 }, b"deflate", &w, k, &want);
}
fn gz(d: &[u8]) -> Vec<u8> { cat(&[b"\x1f\x8b\x08\0\0\0\0\0\0\x03", d, b"\0\0\0\0\0\0\0\0"]) }
/// Real compressed data, cut anywhere.
fn concrete() {
    let side = choose(2);
    let k;
    match choose(4) {
        0 => { k = choose(FIXED.len()); deliver(side, b"deflate", FIXED, k, D) }
        1 => { k = choose(DYN.len()); deliver(side, b"deflate", DYN, k, T) }
        2 => { let w = gz(DYN); k = choose(w.len()); deliver(side, b"x-gzip", &w, k, T) }
        _ => { k = choose(LZ.len()); deliver(side, b"lzma", LZ, k, D) }
    }
}
/// Three pieces.
fn three(fl: u8) {
    let b = symv(2);
    let mut w = vec![0x1f, 0x8b, 8, fl];
    w.extend_from_slice(&symv(6));
    if fl & 4 != 0 { w.extend_from_slice(&[1, 0, b'x']); }
    if fl & 8 != 0 { w.extend_from_slice(&[b'n', 0]); }
    if fl & 16 != 0 { w.extend_from_slice(&[b'c', 0]); }
    if fl & 2 != 0 { w.extend_from_slice(&symv(2)); }
    w.extend_from_slice(&stored(&b));
    pieces(&w, &b, b"gzip");
}
fn pieces(w: &[u8], want: &[u8], ce: &[u8]) {
    let (i, j) = (1 + choose(w.len() - 1), 1 + choose(w.len() - 1));
    assume(i <= j);
    let _ = take_rec();
    let mut p = parser(zc());
    req_c(&mut p, GET);
    res_c(&mut p, &cat(&[b"HTTP/1.1 200 OK\r\nContent-Encoding: ", ce, b"\r\n\r\n"]));
    res_c(&mut p, &w[..i]);
    if i < j { res_c(&mut p, &w[i..j]); }
    res_c(&mut p, &w[j..]);
    p.close(ts());
    check_bytes(&take_peek().res_body[0], want, "decompressed body");
    check(p.tx(0).unwrap().response_progress == RP::COMPLETE, "complete");
    check(p.tx(0).unwrap().response_entity_len == want.len() as u64, "entity length");
}
/// Byte by byte.
fn bytes(w: &[u8], want: &[u8], ce: &[u8]) {
    let _ = take_rec();
    let mut p = parser(zc());
    req_c(&mut p, GET);
    res_c(&mut p, &cat(&[b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nContent-Encoding: ", ce, b"\r\n\r\n"]));
    let n = 1 + choose(4);
    for c in w.chunks(n) { res_c(&mut p, &cat(&[&[b'0' + c.len() as u8], b"\r\n", c, b"\r\n"])); }
    res_c(&mut p, b"0\r\n\r\n");
    check_bytes(&take_peek().res_body[0], want, "decompressed body");
    check(p.tx(0).unwrap().response_progress == RP::COMPLETE, "complete");
}
fn chunks() {
    let b = symv(2);
    match choose(5) {
        0 => bytes(&zl(&b[..1]), &b[..1], b"deflate"),
        1 => bytes(&stored(&b), &b, b"deflate"),
        2 => bytes(&gz(&stored(&b)), &b, b"gzip"),
        3 => bytes(&cat(&[b"\x1f\x8b\x08\x1e\0\0\0\0\0\0\x01\0xn\0c\0\0\0", &stored(&b)]), &b, b"gzip"),
        _ => bytes(LZ, D, b"lzma"),
    }
}
/// The wrong label: gzip, zlib and raw deflate are told apart.
fn label() {
    let b = symv(2);
    let w = match choose(3) { 0 => gz(&stored(&b)), 1 => zl(&b[..1]), _ => stored(&b) };
    let want = if w[0] == 0x78 { &b[..1] } else { &b[..] };
    let k = choose(w.len());
    let ce: &[u8] = if choose(2) == 0 { b"gzip" } else { b"deflate" };
    // a raw stream that starts like nothing else
    deliver(1, ce, &w, k, want);
}
/// Several layers, the last applied first; no more than the limit.
fn layers() {
    let b = symv(2);
    let one = stored(&b);
    let two = gz(&stored(&one));
    let three = stored(&two);
    let k = choose(two.len());
    let side = choose(2);
    match choose(7) {
        0 => deliver(side, b"deflate, gzip", &two, k, &b),
        1 => deliver(side, b"deflate,gzip", &two, k, &b),
        2 => deliver(side, b"none, deflate", &one, k % one.len(), &b),
        3 => deliver(side, b"Deflate  GZIP", &two, k, &b),
        // three layers: the limit is two; the outermost stays
        4 => deliver(side, b"deflate, gzip, deflate", &two, k, &b),
        5 => deliver(side, b"deflate gzip", &two, k, &b),
        _ => deliver(side, b"gzip, deflate", &three, k, &one),
    }
}
/// The layer limit.
fn layer_limit() {
    let b = symv(2);
    let mut w = b.clone();
    let l = choose(4);
    let n = 1 + choose(3);
    for _ in 0..if l == 0 || l > n { n } else { l } { w = stored(&w); }
    let mut c = zc();
    c.compression_options.set_layer_limit(if l == 0 { None } else { Some(l as u32) });
    let ce: &[u8] = [&b"deflate"[..], b"deflate, deflate", b"deflate, deflate, deflate"][n - 1];
    let _ = take_rec();
    let mut p = parser(c);
    let h = cat(&[b"Content-Encoding: ", ce, b"\r\nContent-Length: ", &num(w.len()), b"\r\n\r\n", &w]);
    if choose(2) == 0 {
        req_c(&mut p, GET);
        res_c(&mut p, &cat(&[b"HTTP/1.1 200 OK\r\n", &h]));
        check_bytes(&take_peek().res_body[0], &b, "as many layers as allowed");
    } else {
        req_c(&mut p, &cat(&[b"PUT / HTTP/1.1\r\nHost: h\r\n", &h]));
        check_bytes(&take_peek().req_body[0], &b, "as many layers as allowed");
    }
}
/// One byte of the label replaced: compressed iff it still reads the same.
fn names(side: usize) {
    let b = symv(1);
    let kind = choose(4);
    let w = if kind < 2 { gz(&stored(&b)) } else { stored(&b) };
    let n: &[u8] = [&b"gzip"[..], b"x-gzip", b"deflate", b"x-deflate"][kind];
    let mut ce = n.to_vec();
    let i = choose(n.len());
    let x = sym_u8();
    assume(x != b'\r' && x != b'\n' && x != 0);
    ce[i] = x;
    let _ = take_rec();
    let mut p = parser(zc());
    if side == 0 { req_c(&mut p, &cat(&[b"PUT / HTTP/1.1\r\nHost: h\r\nContent-Encoding: ", &ce, b"\r\nContent-Length: ", &num(w.len()), b"\r\n\r\n", &w])); }
    else {
        req_c(&mut p, GET);
        res_c(&mut p, &cat(&[b"HTTP/1.1 200 OK\r\nContent-Encoding: ", &ce, b"\r\nContent-Length: ", &num(w.len()), b"\r\n\r\n", &w]));
    }
    let is = (x | 32) == n[i] && (n[i] != b'-' || x == b'-') || kind % 2 == 1 && i < 2;
    let r = take_rec();
    let body = if side == 0 { &r.req_body[0] } else { &r.res_body[0] };
    if is { check_bytes(body, &b, "decompressed"); } else { check_bytes(body, &w, "delivered as it is"); }
}
/// Disabled, or not a compression: unchanged; what the transaction says of it.
fn off() {
    let b = symv(3);
    let w = stored(&b);
    let side = choose(2);
    let mut c = cfg0();
    c.response_decompression_enabled = false;
    let k = choose(5);
    let ce: &[u8] = [&b"gzip"[..], b"deflate", b"none", b"deflate, gzip", b"lzma"][k];
    let _ = take_rec();
    let mut p = parser(c);
    if side == 0 { req_c(&mut p, &cat(&[b"PUT / HTTP/1.1\r\nHost: h\r\nContent-Encoding: ", ce, b"\r\nContent-Length: ", &num(w.len()), b"\r\n\r\n", &w])); }
    else { req_c(&mut p, GET); res_c(&mut p, &cat(&[b"HTTP/1.1 200 OK\r\nContent-Encoding: ", ce, b"\r\nContent-Length: ", &num(w.len()), b"\r\n\r\n", &w])); }
    let r = take_rec();
    check_bytes(if side == 0 { &r.req_body[0] } else { &r.res_body[0] }, &w, "delivered as it is");
    let t = p.tx(0).unwrap();
    let want = [E::GZIP, E::DEFLATE, E::NONE, E::NONE, E::LZMA][k];
    if side == 0 { check(t.request_content_encoding == want && t.request_content_encoding_processing == E::NONE, "encoding noted"); }
    else { check(t.response_content_encoding == want && t.response_content_encoding_processing == E::NONE, "encoding noted"); }
}
/// The bomb limits: an error iff output exceeds both the limit and the ratio.
fn bomb(side: usize) {
    let lim = u16::from_le_bytes(sym::<2>());
    let ratio = u64::from_le_bytes(sym::<8>());
    let mut c = zc();
    c.compression_options.set_bomb_limit(lim as u64);
    c.compression_options.set_bomb_ratio(ratio);
    let _ = take_rec();
    let mut p = parser(c);
    let st = if side == 0 { req(&mut p, &cat(&[b"PUT / HTTP/1.1\r\nHost: h\r\nContent-Encoding: deflate\r\nContent-Length: 7\r\n\r\n", A300])) }
    else { req_c(&mut p, GET); res(&mut p, &cat(&[b"HTTP/1.1 200 OK\r\nContent-Encoding: deflate\r\nContent-Length: 7\r\n\r\n", A300])) };
    let is = lim < 300 && ratio <= 42; // 7 bytes give 300
    check((st == S::ERROR) == is, "refused iff a bomb");
    check(is || st == S::DATA, "accepted otherwise");
    let t = p.tx(0).unwrap();
    check(if side == 0 { t.request_entity_len } else { t.response_entity_len } == 300, "entity length");
    let n = take_peek().ev.len();
    if is {
        check(if side == 0 { req(&mut p, b"x") } else { res(&mut p, b"x") } == S::ERROR, "for good");
        check(take_peek().ev.len() == n, "nothing more is delivered");
    }
}
/// Nothing of one transaction's compression is left for the next.
fn next() {
    let b = symv(2);
    let w = stored(&b);
    let _ = take_rec();
    let mut p = parser(zc());
    req_c(&mut p, GET);
    req_c(&mut p, GET);
    req_c(&mut p, GET);
    let k = choose(w.len() + 1);
    let x = cat(&[b"HTTP/1.1 200 OK\r\nContent-Encoding: deflate\r\nContent-Length: ", &num(k), b"\r\n\r\n", &w[..k]]);
    res_c(&mut p, &x);
    let y = cat(&[b"HTTP/1.1 200 OK\r\nContent-Length: 007\r\n\r\n", &w]);
    res_c(&mut p, &y);
    let z = cat(&[b"HTTP/1.1 200 OK\r\nContent-Encoding: deflate\r\nContent-Length: ", &num(w.len()), b"\r\n\r\n", &w]);
    res_c(&mut p, &z);
    let r = take_rec();
    check_bytes(&r.res_body[0], &b[..if k < 6 { 0 } else { k - 5 }], "as much as there is");
    check_bytes(&r.res_body[1], &w, "not compressed");
    check_bytes(&r.res_body[2], &b, "compressed");
    check(p.tx_size() == 3, "three transactions");
}
#[inline(never)]
fn unbox(p: Box<ConnectionParser>) -> ConnectionParser { *p }
/// The parser is moved between any two calls.
fn moved(side: usize) {
    let _ = take_rec();
    let b = symv(2);
    let w = stored(&b);
    let k = choose(w.len());
    let mut p = Box::new(parser(zc()));
    if side == 0 {
        req_c(&mut p, &cat(&[b"PUT / HTTP/1.1\r\nHost: h\r\nContent-Encoding: deflate\r\nContent-Length: 007\r\n\r\n", &w[..k]]));
    } else {
        req_c(&mut p, GET);
        res_c(&mut p, &cat(&[b"HTTP/1.1 200 OK\r\nContent-Encoding: deflate\r\nContent-Length: 007\r\n\r\n", &w[..k]]));
    }
    let q = unbox(p);
    let mut v = vec![q];
    let p = &mut v[0];
    if side == 0 { req_c(p, &w[k..]); } else { res_c(p, &w[k..]); }
    let r = take_rec();
    check_bytes(if side == 0 { &r.req_body[0] } else { &r.res_body[0] }, &b, "decompressed body");
    let t = p.tx(0).unwrap();
    check(if side == 0 { t.request_entity_len } else { t.response_entity_len } == 2, "entity length");
}
/// The stand-alone decompressor.
fn alone(enc: E, n: usize) {
    static mut OUT: Vec<u8> = Vec::new();
    static mut END: usize = 0;
    unsafe { OUT.clear(); END = 0; }
    let mut d = Decompressor::new_with_callback(enc, Box::new(|x: Option<&[u8]>| unsafe {
        match x { Some(x) => { OUT.extend_from_slice(x); Ok(x.len()) } None => { END += 1; Ok(0) } }
    }), Options::default()).unwrap();
    let b = symv(n);
    let w = match enc { E::GZIP => gz(&stored(&b)), E::ZLIB => zl(&b), E::DEFLATE => stored(&b), _ => b.clone() };
    let k = choose(w.len() + 1);
    check(d.decompress(&w[..k]).is_ok(), "first piece");
    check(d.decompress(&w[k..]).is_ok(), "second piece");
    check(d.finish().is_ok(), "finished");
    check_bytes(unsafe { &*std::ptr::addr_of!(OUT) }, &b, "decompressed");
    check(unsafe { END } == 1, "end signalled once");
}
/// Any bytes at all: no crash.
fn any(n: usize, ce: &[u8], pre: &[u8]) {
    let _ = take_rec();
    let b = symv(n);
    let w = cat(&[pre, &b]);
    let mut p = parser(zc());
    req_c(&mut p, GET);
    let st = res(&mut p, &cat(&[b"HTTP/1.1 200 OK\r\nContent-Encoding: ", ce, b"\r\nContent-Length: ", &num(w.len()), b"\r\n\r\n", &w]));
    check(st == S::DATA || st == S::ERROR, "data or error");
    check(p.tx(0).unwrap().response_message_len == w.len() as u64, "message length");
    check(p.tx(0).unwrap().response_entity_len == take_peek().res_body[0].len() as u64, "entity length is what was delivered");
}
fn pat(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    let mut x = 12345u32;
    for i in 0..n {
        x = x.wrapping_mul(1103515245).wrapping_add(12345) & 0x7fff_ffff;
        v.push(97 + if (i / 64) % 3 != 0 { ((x >> 16) % 20) as u8 } else { (i % 7) as u8 });
    }
    v
}
/// Bodies larger than the decompressor's buffer, whole or in pieces of some size.
fn large(w: &[u8], want: &[u8], ce: &[u8]) {
    let side = choose(2);
    let step = [w.len(), 1000, 8192, 8191, w.len() - 1, 333][choose(6)];
    let mut c = zc();
    c.compression_options.set_lzma_memlimit(1_000_000);
    c.compression_options.set_lzma_layers(Some(1));
    let _ = take_rec();
    let mut p = parser(c);
    let n = w.len().to_string();
    if side == 0 { req_c(&mut p, &cat(&[b"PUT / HTTP/1.1\r\nHost: h\r\nContent-Encoding: ", ce, b"\r\nContent-Length: ", n.as_bytes(), b"\r\n\r\n"])); }
    else { req_c(&mut p, GET); res_c(&mut p, &cat(&[b"HTTP/1.1 200 OK\r\nContent-Encoding: ", ce, b"\r\nContent-Length: ", n.as_bytes(), b"\r\n\r\n"])); }
    for d in w.chunks(step) { check(if side == 0 { req_c(&mut p, d) } else { res_c(&mut p, d) } == S::DATA, "body accepted"); }
    let r = take_rec();
    let t = p.tx(0).unwrap();
    let (b, m, e) = if side == 0 { (&r.req_body[0], t.request_message_len, t.request_entity_len) } else { (&r.res_body[0], t.response_message_len, t.response_entity_len) };
    check(b.len() == want.len() && e == want.len() as u64, "length of the decompressed body");
    check_bytes(b, want, "decompressed body");
    check(m == w.len() as u64, "message length");
}
fn large_stored(n: usize) {
    let mut b = pat(n);
    for i in [0, 8191, 8192, 8193, n - 1] { if i < n { b[i] = sym_u8(); } }
    let w = stored(&b);
    large(&w, &b, b"deflate");
}
/// The default limits: output of a megabyte is no bomb; the ratio counts beyond it.
/// The decoder may keep its output to the end.
fn bomb_lzma(side: usize) {
    let lim = u16::from_le_bytes(sym::<2>());
    let ch = choose(2) == 1;
    let ratio = if ch { 0 } else { u64::from_le_bytes(sym::<8>()) };
    let mut c = zc();
    c.compression_options.set_bomb_limit(lim as u64);
    c.compression_options.set_bomb_ratio(ratio);
    let _ = take_rec();
    let mut p = parser(c);
    let l = if ch { b"Transfer-Encoding: chunked".to_vec() } else { format!("Content-Length: {}", LZ.len()).into_bytes() };
    let b = if ch { cat(&[format!("{:x}\r\n", LZ.len()).as_bytes(), LZ, b"\r\n0\r\n\r\n"]) } else { LZ.to_vec() };
    let st = if side == 0 { req(&mut p, &cat(&[b"PUT / HTTP/1.1\r\nHost: h\r\nContent-Encoding: lzma\r\n", &l, b"\r\n\r\n", &b])) }
    else { req_c(&mut p, GET); res(&mut p, &cat(&[b"HTTP/1.1 200 OK\r\nContent-Encoding: lzma\r\n", &l, b"\r\n\r\n", &b])) };
    let is = (lim as usize) < D.len() && (ratio as u128) * (LZ.len() as u128) < D.len() as u128;
    check((st == S::ERROR) == is, "refused iff a bomb");
    check(is || st == S::DATA, "accepted otherwise");
    let n = take_peek().ev.len();
    if is {
        check(if side == 0 { req(&mut p, b"x") } else { res(&mut p, b"x") } == S::ERROR, "for good");
        check(take_peek().ev.len() == n, "nothing more is delivered");
    }
}
fn bomb_default(side: usize) {
    let a = include_bytes!("data/a100000.deflate");
    let mut c = zc();
    let k = choose(3);
    // 100000 bytes from 115
    match k { 0 => {} 1 => c.compression_options.set_bomb_limit(99_999), _ => c.compression_options.set_bomb_limit(100_000) }
    let ratio = if k == 0 { 0 } else { [0u64, 2048, 869, 870][choose(4)] };
    if ratio != 0 { c.compression_options.set_bomb_ratio(ratio); }
    let _ = take_rec();
    let mut p = parser(c);
    let n = a.len().to_string();
    let st = if side == 0 { req(&mut p, &cat(&[b"PUT / HTTP/1.1\r\nHost: h\r\nContent-Encoding: deflate\r\nContent-Length: ", n.as_bytes(), b"\r\n\r\n", a])) }
    else { req_c(&mut p, GET); res(&mut p, &cat(&[b"HTTP/1.1 200 OK\r\nContent-Encoding: deflate\r\nContent-Length: ", n.as_bytes(), b"\r\n\r\n", a])) };
    let ra = if ratio == 0 { 2048 } else { ratio };
    let is = k == 1 && 100_000 > ra * a.len() as u64;
    check((st == S::ERROR) == is, "refused iff a bomb");
    if !is { check(take_peek().req_body[0].len() + take_peek().res_body[0].len() == 100_000, "delivered otherwise"); }
}
harness! {
    fn h_c25_bomb_lzma_req() { bomb_lzma(0) }
    fn h_c25_bomb_lzma_res() { bomb_lzma(1) }
    fn h_c25_large_st() { large_stored(9000) }
    fn h_c25_large_st2() { large_stored(20000) }
    fn h_c25_large_def() { large(include_bytes!("data/pat30000.deflate"), &pat(30000), b"deflate") }
    fn h_c25_large_gz() { large(&gz(include_bytes!("data/pat30000.deflate")), &pat(30000), b"gzip") }
    fn h_c25_large_lzma() { large(include_bytes!("data/pat12000.lzma"), &pat(12000), b"lzma") }
    fn h_c25_large_lzmad() { large(include_bytes!("data/pat20000.lzma"), &pat(20000), b"lzma") }
    fn h_c25_bombd_q() { bomb_default(0) }
    fn h_c25_bombd_r() { bomb_default(1) }
    fn h_c25_raw() { raw(3) }
    fn h_c25_zlib() { zlib(2) }
    fn h_c25_zlib_x() { zlib(3) }
    fn h_c25_gzip_fields() { gzip_fields() }
    fn h_c25_gzip() { gzip(2, 0) }
    fn h_c25_gzipx() { gzip(2, 0x1e) }
    fn h_c25_fixed() { fixed(1, 2) }
    fn t_c25_fixed() { fixed(3, 2) }
    fn h_c25_concrete() { concrete() }
    fn h_c25_three() { three(0x1e) }
    fn h_c25_chunks() { chunks() }
    fn h_c25_label() { label() }
    fn h_c25_layers() { layers() }
    fn h_c25_layer_limit() { layer_limit() }
    fn h_c25_names_q() { names(0) }
    fn h_c25_names_r() { names(1) }
    fn h_c25_off() { off() }
    fn h_c25_bomb_q() { bomb(0) }
    fn h_c25_bomb_r() { bomb(1) }
    fn h_c25_moved_q() { moved(0) }
    fn h_c25_moved_r() { moved(1) }
    fn h_c25_next() { next() }
    fn h_c25_alone_gz() { alone(E::GZIP, 2) }
    fn h_c25_alone_z() { alone(E::ZLIB, 1) }
    fn h_c25_alone_d() { alone(E::DEFLATE, 2) }
    fn h_c25_alone_n() { alone(E::NONE, 2) }
    fn h_c25_any_d() { any(2, b"deflate", b"") }
    fn h_c25_any_gz() { any(2, b"gzip", b"\x1f\x8b\x08\x1e\0\0\0\0\0\0") }
    fn h_c25_any_g() { any(2, b"gzip", b"") }
    fn t_c25_any_g() { any(3, b"gzip", b"") }
}
