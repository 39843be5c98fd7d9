//! C17: the settings of a configuration: defaults, personalities, setters - and what they do to a request.
use crate::{com::*, refm::*, vp::*};
use htp::bstr::Bstr;
use htp::config::{Config, DecoderConfig, HtpServerPersonality as P, HtpUnwanted as U, HtpUrlEncodingHandling as Hd};
use htp::HtpStatus;
const NF: usize = 38;
const FIELD_LIMIT: usize = 0;
const AUTO: usize = 2;
const PERS_: usize = 3;
const RDEC: usize = 4;
const URLENC: usize = 5;
const AUTH: usize = 6;
const LWS: usize = 7;
const QDEC: usize = 8;
const FLUSH: usize = 9;
const MAXTX: usize = 10;
const DDP: usize = 11;
const DDQ: usize = 12;
const BSL: usize = 13;
const LOW: usize = 14;
const COMP: usize = 15;
const SEP: usize = 16;
const PLUS: usize = 17;
const RNULT: usize = 18;
const SPACE: usize = 19;
const UDEC: usize = 20;
const HANDL: usize = 21;
const ENULT: usize = 22;
const ALL: usize = 23;
const REPL: usize = 24;
const MEM: usize = 25;
const LAYERS: usize = 26;
const BLIM: usize = 27;
const BRAT: usize = 28;
const TLIM: usize = 29;
const TFRQ: usize = 30;
const LLIM: usize = 31;
const SEPU: usize = 32;
const CTLU: usize = 33;
const UU: usize = 34;
const INVU: usize = 35;
const UTF8: usize = 36;
const UTF8U: usize = 37;
fn ol(o: Option<u32>) -> u64 { match o { Some(x) => x as u64, None => u64::MAX } }
fn fields(c: &Config) -> [u64; NF] {
    let d = &c.decoder_cfg;
    let o = &c.compression_options;
    [c.field_limit as u64, c.log_level as u64, c.tx_auto_destroy as u64, c.server_personality as u64, c.response_decompression_enabled as u64, c.parse_urlencoded as u64,
        c.parse_request_auth as u64, c.requestline_leading_whitespace_unwanted as u64, c.request_decompression_enabled as u64, c.flush_incomplete as u64, c.max_tx as u64,
        d.double_decode_normalized_path as u64, d.double_decode_normalized_query as u64, d.backslash_convert_slashes as u64, d.convert_lowercase as u64, d.path_separators_compress as u64,
        d.path_separators_decode as u64, d.plusspace_decode as u64, d.nul_raw_terminates as u64, d.allow_space_uri as u64, d.u_encoding_decode as u64,
        d.url_encoding_invalid_handling as u64, d.nul_encoded_terminates as u64, d.normalized_uri_include_all as u64, d.bestfit_map.replacement_byte as u64,
        o.get_lzma_memlimit() as u64, ol(o.get_lzma_layers()), o.get_bomb_limit(), o.get_bomb_ratio(), o.get_time_limit() as u64, o.get_time_test_freq() as u64, ol(o.get_layer_limit()),
        d.path_separators_encoded_unwanted as u64, d.control_chars_unwanted as u64, d.u_encoding_unwanted as u64, d.url_encoding_invalid_unwanted as u64,
        d.utf8_convert_bestfit as u64, d.utf8_invalid_unwanted as u64]
}
/// The documented defaults.
fn defaults() -> [u64; NF] {
    let mut w = [0u64; NF];
    w[FIELD_LIMIT] = 18000;
    w[1] = htp::log::HtpLogLevel::NOTICE as u64;
    w[PERS_] = P::MINIMAL as u64;
    w[RDEC] = 1;
    w[AUTH] = 1;
    w[MAXTX] = 512;
    w[PLUS] = 1;
    w[HANDL] = Hd::PRESERVE_PERCENT as u64;
    w[REPL] = b'?' as u64;
    w[MEM] = 1 << 20;
    w[LAYERS] = 1;
    w[BLIM] = 1 << 20;
    w[BRAT] = 2048;
    w[TLIM] = 100_000;
    w[TFRQ] = 256;
    w[LLIM] = 2;
    w
}
const P10: [P; 10] = [P::MINIMAL, P::GENERIC, P::IDS, P::IIS_4_0, P::IIS_5_0, P::IIS_5_1, P::IIS_6_0, P::IIS_7_0, P::IIS_7_5, P::APACHE_2];
/// The documented effect of choosing a personality; false = refused.
fn personality(w: &mut [u64; NF], p: P) -> bool {
    let mut s = |l: &[(usize, u64)]| for (k, v) in l { w[*k] = *v; };
    match p {
        P::MINIMAL => {}
        P::GENERIC => s(&[(BSL, 1), (SEP, 1), (COMP, 1)]),
        P::IDS => s(&[(BSL, 1), (SEP, 1), (COMP, 1), (LOW, 1), (UTF8, 1), (UDEC, 1), (LWS, 0)]),
        P::APACHE_2 => s(&[(BSL, 0), (SEP, 0), (COMP, 1), (UDEC, 0), (HANDL, 0), (INVU, 400), (CTLU, 0), (LWS, 400)]),
        P::IIS_5_1 => s(&[(BSL, 1), (SEP, 1), (COMP, 1), (UDEC, 0), (HANDL, 0), (CTLU, 0), (LWS, 0)]),
        P::IIS_6_0 => s(&[(BSL, 1), (SEP, 1), (COMP, 1), (UDEC, 1), (HANDL, 0), (UU, 400), (CTLU, 400), (LWS, 0)]),
        P::IIS_7_0 | P::IIS_7_5 => s(&[(BSL, 1), (SEP, 1), (COMP, 1), (UDEC, 1), (HANDL, 0), (INVU, 400), (CTLU, 400), (LWS, 0)]),
        _ => return false,
    }
    w[PERS_] = p as u64;
    true
}
fn same(c: &Config, w: &[u64; NF], l: &str) {
    let x = fields(c);
    for k in 0..NF { check(x[k] == w[k], l); }
}
fn set_p(c: &mut Config, w: &mut [u64; NF], p: P) {
    let ok = personality(w, p);
    let r = c.set_server_personality(p);
    check(r.is_ok() == ok, "supported personalities are accepted, others refused");
    if !ok { check(r == Err(HtpStatus::ERROR), "refusal is an error"); }
}
const NSET: usize = 28;
/// Calls one setter, with the value given, on the configuration and on the model.
fn set(c: &mut Config, w: &mut [u64; NF], which: usize, b: bool, v: u64) {
    let u = [U::IGNORE, U::CODE_400, U::CODE_404];
    match which {
        0 => { c.set_backslash_convert_slashes(b); w[BSL] = b as u64; }
        1 => { c.set_bestfit_replacement_byte(v as u8); w[REPL] = v & 255; }
        2 => { c.compression_options.set_bomb_limit(v); w[BLIM] = v; }
        3 => { c.compression_options.set_time_limit(v as u32); w[TLIM] = v & 0xffff_ffff; }
        4 => { c.set_convert_lowercase(b); w[LOW] = b as u64; }
        5 => { c.set_field_limit(v as usize); w[FIELD_LIMIT] = v; }
        6 => { c.compression_options.set_lzma_memlimit(v as usize); w[MEM] = v; }
        7 => { let o = if b { Some(v as u32) } else { None }; c.compression_options.set_lzma_layers(o); w[LAYERS] = ol(o); }
        8 => { c.set_nul_encoded_terminates(b); w[ENULT] = b as u64; }
        9 => { c.set_nul_raw_terminates(b); w[RNULT] = b as u64; }
        10 => { c.set_path_separators_compress(b); w[COMP] = b as u64; }
        11 => { c.set_plusspace_decode(b); w[PLUS] = b as u64; }
        12 => { c.set_path_separators_decode(b); w[SEP] = b as u64; }
        13 => { c.set_request_decompression(b); w[QDEC] = b as u64; }
        14 => { let o = if b { Some(v as u32) } else { None }; c.set_decompression_layer_limit(o); w[LLIM] = ol(o); }
        15 => { c.set_allow_space_uri(b); w[SPACE] = b as u64; }
        16 => { c.set_u_encoding_decode(b); w[UDEC] = b as u64; }
        17 => { let k = choose(3); c.set_url_encoding_invalid_handling([Hd::PRESERVE_PERCENT, Hd::REMOVE_PERCENT, Hd::PROCESS_INVALID][k]); w[HANDL] = k as u64; }
        18 => { c.set_double_decode_normalized_query(b); w[DDQ] = b as u64; }
        19 => { c.set_double_decode_normalized_path(b); w[DDP] = b as u64; }
        20 => { c.set_normalized_uri_include_all(b); w[ALL] = b as u64; }
        21 => { c.set_tx_auto_destroy(b); w[AUTO] = b as u64; }
        22 => { c.set_flush_incomplete(b); w[FLUSH] = b as u64; }
        23 => { c.set_parse_urlencoded(b); w[URLENC] = b as u64; }
        24 => { c.set_utf8_convert_bestfit(b); w[UTF8] = b as u64; }
        25 => { let k = choose(4); let x = u[choose(3)]; match k {
            0 => { c.set_u_encoding_unwanted(x); w[UU] = x as u64; }
            1 => { c.set_control_chars_unwanted(x); w[CTLU] = x as u64; }
            2 => { c.set_url_encoding_invalid_unwanted(x); w[INVU] = x as u64; }
            _ => { c.set_requestline_leading_whitespace_unwanted(x); w[LWS] = x as u64; }
        } }
        26 => { c.compression_options.set_bomb_ratio(v); w[BRAT] = v; }
        _ => { c.compression_options.set_time_test_freq(v as u32); w[TFRQ] = v & 0xffff_ffff; }
    }
}
fn unw(v: u64) -> U { match v { 400 => U::CODE_400, 404 => U::CODE_404, _ => U::IGNORE } }
/// The reference decoder's configuration, from the model.
fn model_dec(w: &[u64; NF], base: &DecoderConfig) -> DecoderConfig {
    DecoderConfig {
        double_decode_normalized_path: w[DDP] == 1, double_decode_normalized_query: w[DDQ] == 1, backslash_convert_slashes: w[BSL] == 1, convert_lowercase: w[LOW] == 1,
        path_separators_compress: w[COMP] == 1, path_separators_decode: w[SEP] == 1, plusspace_decode: w[PLUS] == 1, path_separators_encoded_unwanted: unw(w[SEPU]),
        nul_raw_terminates: w[RNULT] == 1, nul_raw_unwanted: U::IGNORE, control_chars_unwanted: unw(w[CTLU]), allow_space_uri: w[SPACE] == 1, u_encoding_decode: w[UDEC] == 1,
        u_encoding_unwanted: unw(w[UU]), url_encoding_invalid_handling: [Hd::PRESERVE_PERCENT, Hd::REMOVE_PERCENT, Hd::PROCESS_INVALID][w[HANDL] as usize],
        url_encoding_invalid_unwanted: unw(w[INVU]), nul_encoded_terminates: w[ENULT] == 1, nul_encoded_unwanted: U::IGNORE, normalized_uri_include_all: w[ALL] == 1,
        utf8_invalid_unwanted: U::IGNORE, utf8_convert_bestfit: w[UTF8] == 1, bestfit_map: base.bestfit_map,
    }
}
/// A request under a personality: path, parameters, expected status, method.
fn behave(pi: usize, pre: &[u8], path: &[u8], q: &[u8]) {
    for x in path { assume(*x != b'?' && *x != b'#' && *x > b' ' && *x != 0x7f && *x != b':'); }
    for x in q { assume(*x != b'#' && *x > b' ' && *x != b'&' && *x != b'='); }
    let mut c = Config::default();
    let mut w = defaults();
    set_p(&mut c, &mut w, P10[pi]);
    hook_all(&mut c);
    no_bestfit(&mut c);
    c.set_parse_urlencoded(true);
    c.parameter_processor = Some(k_param);
    let dc = model_dec(&w, &c.decoder_cfg);
    let d = dec_path(path, &dc);
    let (o, _) = ref_utf8(&d.out, dc.bestfit_map.replacement_byte);
    let want = ref_dots(if dc.utf8_convert_bestfit { &o } else { &d.out });
    let mut p = parser(c);
    req(&mut p, &cat(&[pre, b"GET ", path, b"?p=", q, b" HTTP/1.1\r\nHost: a\r\n\r\n"]));
    let t = p.tx(0).unwrap();
    let u = t.parsed_uri.as_ref().unwrap();
    obs_bytes(ob(&u.path).unwrap_or(b""));
    obs(t.response_status_expected_number as u64);
    check_obytes(ob(&u.path), Some(&want), "the path is decoded as the personality says");
    let lw = !pre.is_empty() && w[LWS] != 0;
    check_obytes(ob(&t.request_method), Some(if lw { &b" GET"[..] } else { &b"GET"[..] }), "leading white space as the personality says");
    let st = if d.st != U::IGNORE { d.st } else if lw { unw(w[LWS]) } else { U::IGNORE };
    check(t.response_status_expected_number == st, "the expected status is the personality's");
    if !q.is_empty() {
        let ps = take_params();
        check(ps.len() == 1, "one parameter");
        check_bytes(ps[0].0.as_slice(), b"p", "parameter name");
        check_bytes(ps[0].1.as_slice(), &dec_params(q, &dc).out, "the parameter is decoded as the personality says");
    }
}
harness! {
    fn h_c17_default() { same(&Config::default(), &defaults(), "default configuration"); }
    fn h_c17_pers2() {
        let (mut c, mut w) = (Config::default(), defaults());
        set_p(&mut c, &mut w, P10[choose(10)]);
        same(&c, &w, "the personality sets what it documents and nothing else");
        set_p(&mut c, &mut w, P10[choose(10)]);
        same(&c, &w, "a second personality overlays the first");
    }
    fn h_c17_setters() {
        let (mut c, mut w) = (Config::default(), defaults());
        let v = u64::from_le_bytes(sym::<8>());
        set(&mut c, &mut w, choose(NSET), choose(2) == 1, v);
        same(&c, &w, "a setter sets its setting and no other");
        set_p(&mut c, &mut w, P10[choose(10)]);
        same(&c, &w, "a personality leaves other settings alone");
    }
    fn h_c17_setters2() {
        let (mut c, mut w) = (Config::default(), defaults());
        set_p(&mut c, &mut w, P10[choose(10)]);
        let (v, x) = (u64::from_le_bytes(sym::<8>()), u64::from_le_bytes(sym::<8>()));
        set(&mut c, &mut w, choose(NSET), choose(2) == 1, v);
        set(&mut c, &mut w, choose(NSET), choose(2) == 1, x);
        same(&c, &w, "setters after a personality");
    }
    fn h_c17_path() { let s: [u8; 2] = sym(); behave(choose(10), b"", &cat(&[b"/A/%", &s, b"\\B"]), b""); }
    fn h_c17_path_raw() { let s: [u8; 3] = sym(); behave(choose(10), b"", &cat(&[b"/", &s]), b""); }
    fn h_c17_path_u() { let s: [u8; 2] = sym(); behave(choose(10), b"", &cat(&[b"/%u00", &s]), b""); }
    fn h_c17_lws() { let s: [u8; 2] = sym(); behave(choose(10), b" ", &cat(&[b"/%", &s]), b""); }
    fn h_c17_param() { let s: [u8; 3] = sym(); behave(choose(10), b"", b"/", &s); }
    fn h_c17_param_u() { let s: [u8; 2] = sym(); behave(choose(10), b"", b"/", &cat(&[b"%u00", &s])); }
}
