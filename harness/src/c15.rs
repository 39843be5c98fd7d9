//! C15: URL decoding of parameters, query and path components equals a reference decoder for every configuration.
use crate::{com::*, refm::*, vp::*};
use crate::bestfit::*;
use htp::bstr::Bstr;
use htp::config::{Config, DecoderConfig, HtpUnwanted as U, HtpUrlEncodingHandling as Hd};
use htp::urlencoded::{decode_uri_inplace, decode_uri_with_flags, path_decode_uri_inplace, Parser};
use htp::util::HtpFlags as F;
fn b(n: usize, k: u32) -> bool { n >> k & 1 == 1 }
fn handling(i: usize) -> Hd { match i { 0 => Hd::PRESERVE_PERCENT, 1 => Hd::REMOVE_PERCENT, _ => Hd::PROCESS_INVALID } }
/// A decoder configuration; `m` bits: u-decode, encoded NUL terminates, raw NUL terminates, plus.
fn dcfg(m: usize, h: usize, unw: bool) -> Config {
    let mut c = Config::default();
    no_bestfit(&mut c);
    c.set_u_encoding_decode(b(m, 0));
    c.set_nul_encoded_terminates(b(m, 1));
    c.set_nul_raw_terminates(b(m, 2));
    c.set_plusspace_decode(b(m, 3));
    c.set_url_encoding_invalid_handling(handling(h));
    if unw {
        c.set_u_encoding_unwanted(U::CODE_404);
        c.set_url_encoding_invalid_unwanted(U::CODE_400);
        c.decoder_cfg.nul_encoded_unwanted = U::CODE_404;
        c.decoder_cfg.nul_raw_unwanted = U::CODE_400;
    }
    c
}
fn pflags(f: u64) -> u64 {
    (if f & INV != 0 { F::PATH_INVALID_ENCODING } else { 0 }) | (if f & ENUL != 0 { F::PATH_ENCODED_NUL } else { 0 }) | (if f & RNUL != 0 { F::PATH_RAW_NUL } else { 0 })
}
fn uflags(f: u64) -> u64 {
    (if f & INV != 0 { F::URLEN_INVALID_ENCODING } else { 0 }) | (if f & ENUL != 0 { F::URLEN_ENCODED_NUL } else { 0 }) | (if f & RNUL != 0 { F::URLEN_RAW_NUL } else { 0 })
        | (if f & OVER != 0 { F::URLEN_OVERLONG_U } else { 0 }) | (if f & HALF != 0 { F::URLEN_HALF_FULL_RANGE } else { 0 })
}
fn ppflags(f: u64) -> u64 {
    (if f & INV != 0 { F::PATH_INVALID_ENCODING } else { 0 }) | (if f & ENUL != 0 { F::PATH_ENCODED_NUL } else { 0 }) | (if f & OVER != 0 { F::PATH_OVERLONG_U } else { 0 })
        | (if f & HALF != 0 { F::PATH_HALF_FULL_RANGE } else { 0 }) | (if f & ESEP != 0 { F::PATH_ENCODED_SEPARATOR } else { 0 })
}
fn params(s: &[u8], c: &Config) {
    let r = dec_params(s, &c.decoder_cfg);
    let mut fl = 0;
    let o = decode_uri_with_flags(&c.decoder_cfg, &mut fl, s);
    check(o.is_ok(), "decode_uri_with_flags succeeds");
    if let Ok(o) = o { obs_bytes(o.as_slice()); check_bytes(o.as_slice(), &r.out, "decoded value"); }
    obs(fl);
    check(fl == pflags(r.fl), "decode flags");
    let mut x = Bstr::from(s);
    check(decode_uri_inplace(&c.decoder_cfg, &mut x).is_ok(), "decode_uri_inplace succeeds");
    check_bytes(x.as_slice(), &r.out, "decoded value in place");
}
/// through the parameter parser: name=value, flags and expected status
fn param_parser(s: &[u8], c: &Config) {
    for x in s { assume(*x != b'&' && *x != b'='); }
    let r = dec_params(s, &c.decoder_cfg);
    let mut p = Parser::new(c.decoder_cfg);
    p.parse_complete(&cat(&[b"k=", s]));
    check(p.params.size() == 1, "one parameter");
    if let Some((n, v)) = p.params.elements.first() {
        check_bytes(n.as_slice(), b"k", "parameter name");
        obs_bytes(v.as_slice());
        check_bytes(v.as_slice(), &r.out, "parameter value");
    }
    obs(p.flags);
    check(p.flags == uflags(r.fl), "parameter flags");
    check(p.response_status_expected_number == r.st, "parameter expected status");
}
fn path(s: &[u8], c: &Config) {
    let r = dec_path(s, &c.decoder_cfg);
    let mut x = Bstr::from(s);
    let (mut fl, mut st) = (0, U::IGNORE);
    path_decode_uri_inplace(&c.decoder_cfg, &mut fl, &mut st, &mut x);
    obs_bytes(x.as_slice());
    obs(fl);
    obs(st as u64);
    check_bytes(x.as_slice(), &r.out, "decoded path");
    check(fl == ppflags(r.fl), "path flags");
    check(st == r.st, "path expected status");
}
/// path configuration: bits: u-decode, enc NUL, raw NUL, backslash, lowercase, compress, separators
fn pcfg(m: usize, h: usize, unw: bool) -> Config {
    let mut c = dcfg(m & 7, h, unw);
    c.set_backslash_convert_slashes(b(m, 3));
    c.set_convert_lowercase(b(m, 4));
    c.set_path_separators_compress(b(m, 5));
    c.set_path_separators_decode(b(m, 6));
    if unw { c.set_control_chars_unwanted(U::CODE_400); }
    c
}
/// Best-fit conversion with the built-in windows-1252 map: all of U+FFxx, and samples elsewhere.
fn hexs(v: u8, up: bool) -> [u8; 2] {
    let h = if up { b"0123456789ABCDEF" } else { b"0123456789abcdef" };
    [h[(v >> 4) as usize], h[(v & 15) as usize]]
}
fn bestfit(hi: u8, lo: u8, w: u8) {
    let mut c = Config::default();
    c.set_u_encoding_decode(true);
    let d = cat(&[b"x%u", &hexs(hi, false), &hexs(lo, true)]);
    let mut fl = 0;
    let o = decode_uri_with_flags(&c.decoder_cfg, &mut fl, &d);
    check_bytes(o.unwrap().as_slice(), &[b'x', w], "best-fit value");
    let mut p = Parser::new(c.decoder_cfg);
    p.parse_complete(&d);
    check(p.flags == if hi == 0xff && lo <= 0xef { F::URLEN_HALF_FULL_RANGE } else { 0 }, "half/full width parameter flag");
    let mut x = Bstr::from(d.as_slice());
    let (mut fl, mut st) = (0, U::IGNORE);
    c.decoder_cfg.backslash_convert_slashes = true;
    path_decode_uri_inplace(&c.decoder_cfg, &mut fl, &mut st, &mut x);
    check_bytes(x.as_slice(), &[b'x', if w == b'\\' { b'/' } else { w }], "best-fit path value");
    check(fl == (if hi == 0xff { F::PATH_HALF_FULL_RANGE } else { 0 }) | (if w == b'/' || w == b'\\' { F::PATH_ENCODED_SEPARATOR } else { 0 }), "half/full width path flags");
}
harness! {
    fn h_c15_bestfit() {
        let t: [(u8, u8, u8); 12] = [(1, 0, b'A'), (0x20, 0x10, b'-'), (0x12, 0x34, b'?'), (0x22, 0x15, b'/'), (0x21, 0x2a, b'K'), (0x20, 0x35, b'`'), (3, 0x94, b'?'), (2, 0xb9, b'\''), (0x20, 0x32, b'\''), (0x20, 0x44, b'/'), (0x22, 0x16, b'\\'), (0xfe, 0xff, b'?')];
        let (a, b, w) = t[choose(12)];
        bestfit(a, b, w);
    }
    fn h_c15_bestfit_all() {
        obs(Config::default().decoder_cfg.bestfit_map.get(1) as u64);
        let (h, l) = (PAGES[choose(PAGES.len())], concr(sym_u8() as u64) as u8);
        bestfit(h, l, bf((h as u16) << 8 | l as u16, b'?'));
    }
    fn h_c15_bestfit_ff() { obs(Config::default().decoder_cfg.bestfit_map.get(1) as u64); let l = concr(sym_u8() as u64) as u8; bestfit(0xff, l, if l >= 1 && l <= 0x5e { l + 0x20 } else { b'?' }); }
    fn h_c15_p3() { let s: [u8; 3] = sym(); params(&s, &dcfg(choose(16), choose(3), true)); }
    fn h_c15_p_hex() { let s: [u8; 3] = sym(); params(&cat(&[b"a%", &s, b"b"]), &dcfg(choose(16), choose(3), false)); }
    fn h_c15_p_end() { let s: [u8; 1] = sym(); params(&cat(&[b"+%", &s]), &dcfg(choose(16), choose(3), false)); }
    fn h_c15_p_u() { let s: [u8; 4] = sym(); params(&cat(&[b"%u", &s, b"4"]), &dcfg(1 | choose(4) << 1, choose(3), false)); }
    fn h_c15_p_ushort() { let s: [u8; 2] = sym(); params(&cat(&[b"a%U0", &s]), &dcfg(1 | choose(2) << 1, choose(3), false)); }
    fn h_c15_q3() { let s: [u8; 3] = sym(); param_parser(&s, &dcfg(choose(16), choose(3), true)); }
    fn h_c15_q_u() { let s: [u8; 3] = sym(); param_parser(&cat(&[b"%u", &s, b"0x"]), &dcfg(1 | choose(2) << 1, choose(3), choose(2) == 1)); }
    fn h_c15_path3() { let s: [u8; 3] = sym(); path(&s, &pcfg(choose(128), choose(3), choose(2) == 1)); }
    fn h_c15_path_hex() { let s: [u8; 2] = sym(); path(&cat(&[b"/%", &s, b"/B"]), &pcfg(choose(128), choose(3), choose(2) == 1)); }
    fn h_c15_path_hex2() { let s: [u8; 2] = sym(); let t: [u8; 2] = sym(); path(&cat(&[b"%", &s, b"%", &t]), &pcfg(1 | choose(2) << 3 | choose(4) << 5, choose(2), true)); }
    fn h_c15_path_u() { let s: [u8; 4] = sym(); path(&cat(&[b"%u", &s]), &pcfg(1 | choose(2) << 1 | choose(2) << 3, choose(3), choose(2) == 1)); }
    fn h_c15_path_ushort() { let s: [u8; 2] = sym(); path(&cat(&[b"a%U0", &s]), &pcfg(1, choose(3), choose(2) == 1)); }
    fn h_c15_p4() { let s: [u8; 4] = sym(); params(&s, &dcfg(choose(16), choose(3), true)); }
    fn h_c15_path4() { let s: [u8; 4] = sym(); path(&s, &pcfg(choose(128), choose(3), choose(2) == 1)); }
    fn h_c15_u6() { let s: [u8; 6] = sym(); params(&cat(&[b"%u", &s]), &dcfg(1, choose(3), true)); }
    fn h_c15_p5_x() { let s: [u8; 5] = sym(); params(&s, &dcfg(choose(16), choose(3), true)); }
    fn t_c15_u8() { let s: [u8; 8] = sym(); params(&cat(&[b"%u", &s]), &dcfg(1 | choose(2) << 1, choose(3), true)); }
    fn t_c15_path5() { let s: [u8; 5] = sym(); path(&s, &pcfg(choose(128), choose(3), true)); }
    fn t_c15_pathu6() { let s: [u8; 6] = sym(); path(&cat(&[b"%u", &s]), &pcfg(1 | choose(2) << 1 | choose(2) << 3 | choose(2) << 5, choose(3), choose(2) == 1)); }
}
