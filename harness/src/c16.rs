//! C16: path normalization: decode, UTF-8 validation/conversion and dot-segment removal.
use crate::{com::*, refm::*, vp::*};
use crate::bestfit::*;
use htp::bstr::Bstr;
use htp::config::{Config, DecoderConfig, HtpServerPersonality as P, HtpUnwanted as U};
use htp::uri::Uri;
use htp::util::HtpFlags as F;
fn norm(s: &[u8], c: &Config) -> (Option<Bstr>, u64, U) {
    let mut u = Uri::with_config(c.decoder_cfg);
    u.path = Some(Bstr::from(s));
    let (mut fl, mut st) = (0, U::IGNORE);
    let r = u.normalized_path(&mut fl, &mut st);
    (r, fl, st)
}
fn base() -> Config { let mut c = Config::default(); no_bestfit(&mut c); c }
/// Plain (unencoded, ASCII) paths: dot segments.
fn dots(s: &[u8]) {
    for x in s { assume(*x != b'%' && *x < 0x80); }
    let (r, fl, _) = norm(s, &base());
    check(r.is_some(), "normalized path present");
    let r = r.unwrap();
    obs_bytes(r.as_slice());
    check_bytes(r.as_slice(), &ref_dots(s), "dot segments removed");
    check(fl == 0, "plain path raises no flag");
    check(r.len() <= s.len(), "normalization never grows the path");
    for seg in r.as_slice().split(|c| *c == b'/') {
        check(!(seg.len() == 1 && seg[0] == b'.') && !(seg.len() == 2 && seg[0] == b'.' && seg[1] == b'.'), "no dot segment remains");
    }
}
fn utf8(s: &[u8], pre: &[u8], conv: bool) {
    for x in s { assume(*x != b'%' && *x != b'.' && *x != b'/'); }
    let mut c = base();
    c.set_utf8_convert_bestfit(conv);
    c.decoder_cfg.utf8_invalid_unwanted = U::CODE_400;
    let d = cat(&[pre, s]);
    let (o, f) = ref_utf8(&d, c.decoder_cfg.bestfit_map.replacement_byte);
    // overlong forms of '.' and '/' take part in dot-segment removal
    let want = if conv { ref_dots(&o) } else { ref_dots(&d) };
    let (r, fl, st) = norm(&d, &c);
    let r = r.unwrap();
    obs_bytes(r.as_slice());
    obs(fl);
    check(fl == f, "UTF-8 flags");
    check_bytes(r.as_slice(), &want, "UTF-8 conversion");
    check(st == if f & F::PATH_UTF8_INVALID != 0 { U::CODE_400 } else { U::IGNORE }, "expected status for invalid UTF-8");
}
/// Encoded characters are decoded before dot segments are removed.
fn enc(s: &[u8], c: &Config) {
    let d = dec_path(s, &c.decoder_cfg);
    let (o, f) = ref_utf8(&d.out, c.decoder_cfg.bestfit_map.replacement_byte);
    let st0 = d.st;
    let x = if c.decoder_cfg.utf8_convert_bestfit { o } else { d.out };
    let (r, fl, st) = norm(s, c);
    let r = r.unwrap();
    obs_bytes(r.as_slice());
    obs(fl);
    check_bytes(r.as_slice(), &ref_dots(&x), "decode, then UTF-8, then dot segments");
    let bad = f & F::PATH_UTF8_INVALID != 0 && c.decoder_cfg.utf8_invalid_unwanted != U::IGNORE;
    check(st == if bad { c.decoder_cfg.utf8_invalid_unwanted } else { st0 }, "expected status of the path");
    check(fl & (F::PATH_UTF8_VALID | F::PATH_UTF8_INVALID | F::PATH_UTF8_OVERLONG) == f & (F::PATH_UTF8_VALID | F::PATH_UTF8_INVALID | F::PATH_UTF8_OVERLONG), "UTF-8 flags of the decoded path");
}
/// The transaction's parsed URI carries the normalized path of the raw one.
fn tx(pers: P, path: &[u8]) {
    for x in path { assume(*x != b'?' && *x != b'#' && *x > b' ' && *x != 0x7f && *x != b':'); }
    let c = cfg(pers);
    let dc = c.decoder_cfg;
    let d = dec_path(path, &dc);
    let (o, _) = ref_utf8(&d.out, dc.bestfit_map.replacement_byte);
    let want = ref_dots(if dc.utf8_convert_bestfit { &o } else { &d.out });
    let mut p = parser(c);
    req(&mut p, &cat(&[b"GET ", path, b" HTTP/1.1\r\nHost: a\r\n\r\n"]));
    let t = p.tx(0).unwrap();
    let raw = t.parsed_uri_raw.as_ref().unwrap();
    check_obytes(ob(&raw.path), Some(path), "raw path kept");
    let u = t.parsed_uri.as_ref().unwrap();
    obs_bytes(ob(&u.path).unwrap_or(b""));
    check_obytes(ob(&u.path), Some(&want), "transaction path normalized");
}
/// Full-width characters in UTF-8, with the built-in best-fit map.
fn wide(cp: u32) {
    let mut c = Config::default();
    c.set_utf8_convert_bestfit(true);
    let e = if cp < 0x800 { vec![0xc0 | (cp >> 6) as u8, 0x80 | (cp & 63) as u8] } else { vec![0xe0 | (cp >> 12) as u8, 0x80 | (cp >> 6 & 63) as u8, 0x80 | (cp & 63) as u8] };
    let d = cat(&[b"/a", &e, b"b"]);
    let w = bf(cp as u16, b'?');
    let (r, fl, _) = norm(&d, &c);
    check_bytes(r.unwrap().as_slice(), &ref_dots(&[b'/', b'a', w, b'b']), "full-width character converted");
    check(fl == F::PATH_UTF8_VALID | if cp >= 0xff00 && cp <= 0xffef { F::PATH_HALF_FULL_RANGE } else { 0 }, "full-width flags");
}
harness! {
    fn h_c16_wide() { wide(0xff00 + concr(sym_u8() as u64) as u32); }
    fn h_c16_bestfit_all() { obs(Config::default().decoder_cfg.bestfit_map.get(1) as u64); let h = PAGES[choose(PAGES.len())]; wide((h as u32) << 8 | concr(sym_u8() as u64) as u32); }
    fn h_c16_dots6() { let s: [u8; 6] = sym(); dots(&s); }
    fn h_c16_dots_abs() { let s: [u8; 6] = sym(); dots(&cat(&[b"/", &s])); }
    fn h_c16_dots_mid() { let s: [u8; 4] = sym(); dots(&cat(&[b"/a/../b/", &s, b"/..x/./c"])); }
    fn h_c16_utf8_2() { let s: [u8; 2] = sym(); utf8(&s, b"/a", choose(2) == 1); }
    fn h_c16_utf8_3() { let s: [u8; 3] = sym(); utf8(&s, b"/", choose(2) == 1); }
    fn h_c16_utf8_4() { let s: [u8; 4] = sym(); utf8(&s, b"", choose(2) == 1); }
    fn h_c16_utf8_f() { let s: [u8; 4] = sym(); assume(s[0] >= 0xe0); utf8(&s, b"a", true); }
    fn h_c16_enc() { let s: [u8; 2] = sym(); let mut c = base(); c.set_utf8_convert_bestfit(choose(2) == 1); c.set_path_separators_decode(choose(2) == 1); enc(&cat(&[b"/a/%", &s, b"%2E/b"]), &c); }
    fn h_c16_status() {
        let s: [u8; 3] = sym();
        let mut c = base();
        let (a, b) = [(U::CODE_404, U::CODE_400), (U::CODE_400, U::CODE_404), (U::CODE_404, U::IGNORE), (U::IGNORE, U::CODE_400)][choose(4)];
        c.set_url_encoding_invalid_unwanted(a);
        c.set_control_chars_unwanted(a);
        c.decoder_cfg.utf8_invalid_unwanted = b;
        enc(&cat(&[b"/", &s[..1], b"%", &s[1..], b"b"]), &c);
    }
    fn h_c16_enc2() { let s: [u8; 1] = sym(); let t: [u8; 2] = sym(); let mut c = base(); c.set_utf8_convert_bestfit(true); enc(&cat(&[b"/%c", &s, b"%", &t]), &c); }
    fn h_c16_tx_min() { let s: [u8; 3] = sym(); tx(P::MINIMAL, &cat(&[b"/a/", &s])); }
    fn h_c16_tx_ids() { let s: [u8; 3] = sym(); tx(P::IDS, &cat(&[b"/a/", &s])); }
    fn h_c16_tx_apache() { let s: [u8; 2] = sym(); tx(P::APACHE_2, &cat(&[b"/a//%", &s, b"/../.."])); }
    fn h_c16_tx_iis() { let s: [u8; 2] = sym(); tx(P::IIS_6_0, &cat(&[b"/A\\%u00", &s, b"/.."])); }
    fn h_c16_dots8() { let s: [u8; 8] = sym(); dots(&s); }
    fn t_c16_utf8_6() { let s: [u8; 6] = sym(); utf8(&s, b"", choose(2) == 1); }
    fn h_c16_tx_ids4() { let s: [u8; 4] = sym(); tx(P::IDS, &cat(&[b"/a/", &s])); }
    fn h_c16_dots12_x() { let s: [u8; 12] = sym(); dots(&s); }
    fn t_c16_tx_ids5() { let s: [u8; 5] = sym(); tx(P::IDS, &cat(&[b"/a", &s])); }
    fn h_c16_tx_iis4_x() { let s: [u8; 4] = sym(); tx(P::IIS_6_0, &cat(&[b"/A%u", &s, b"/.."])); }
}
