//! Reference models shared by several properties.
use htp::config::{DecoderConfig, HtpUnwanted as U, HtpUrlEncodingHandling as Hd};
/// A reference decoder's result.
pub struct Dec { pub out: Vec<u8>, pub fl: u64, pub st: U }
fn hexv(c: u8) -> u8 { if c >= b'A' { (c & 0xdf).wrapping_sub(b'A').wrapping_add(10) } else { c.wrapping_sub(b'0') } }
fn two(a: u8, b: u8) -> u8 { (hexv(a) << 4).wrapping_add(hexv(b)) }
fn hexd(b: &[u8]) -> bool { for c in b { if !c.is_ascii_hexdigit() { return false; } } true }
fn is_u(c: u8) -> bool { c == b'u' || c == b'U' }
pub const INV: u64 = 1;
pub const ENUL: u64 = 2;
pub const OVER: u64 = 4;
pub const HALF: u64 = 8;
pub const RNUL: u64 = 16;
pub const ESEP: u64 = 32;
/// What a percent sign at s[0] stands for: (decoded byte or None = literal percent / removed, bytes after '%', flags, status)
struct Pct { byte: Option<u8>, drop: bool, used: usize, fl: u64, st: [U; 2] }
fn pct(s: &[u8], c: &DecoderConfig, path: bool) -> Pct {
    let ign = U::IGNORE;
    let keep = |fl, a, b| Pct { byte: None, drop: c.url_encoding_invalid_handling == Hd::REMOVE_PERCENT && fl != 0, used: 0, fl, st: [a, b] };
    let proc_ = c.url_encoding_invalid_handling == Hd::PROCESS_INVALID;
    let inv = c.url_encoding_invalid_unwanted;
    if !s.is_empty() && is_u(s[0]) {
        if !c.u_encoding_decode { return keep(0, ign, ign); }
        if s.len() < 5 { return keep(INV, inv, ign); }
        let ok = hexd(&s[1..5]);
        if !ok && !proc_ {
            let st = if path { inv } else if inv != ign { inv } else { c.u_encoding_unwanted };
            return keep(INV, st, ign);
        }
        let (hi, lo) = (two(s[1], s[2]), two(s[3], s[4]));
        let mut fl = if ok { 0 } else { INV };
        let byte;
        let mut st = if ok { c.u_encoding_unwanted } else { inv };
        if !ok && !path && inv == ign { st = c.u_encoding_unwanted; }
        if hi == 0 { fl |= OVER; byte = lo; } else {
            if hi == 0xff && (path || lo <= 0xef) { fl |= HALF; }
            if path && c.u_encoding_unwanted != ign { st = c.u_encoding_unwanted; }
            byte = c.bestfit_map.replacement_byte;
        }
        return Pct { byte: Some(byte), drop: false, used: 5, fl, st: [st, ign] };
    }
    if s.len() >= 2 && hexd(&s[..2]) { return Pct { byte: Some(two(s[0], s[1])), drop: false, used: 2, fl: 0, st: [ign, ign] }; }
    if s.len() >= 2 && proc_ { return Pct { byte: Some(two(s[0], s[1])), drop: false, used: 2, fl: INV, st: [inv, ign] }; }
    keep(INV, inv, ign)
}
/// Parameters, query, user info.
pub fn dec_params(s: &[u8], c: &DecoderConfig) -> Dec {
    let mut d = Dec { out: Vec::new(), fl: 0, st: U::IGNORE };
    let mut i = 0;
    while i < s.len() {
        let b = s[i];
        i += 1;
        if b == b'%' {
            let p = pct(&s[i..], c, false);
            d.fl |= p.fl;
            i += p.used;
            let mut st = p.st[0];
            if p.byte == Some(0) {
                d.fl |= ENUL;
                if c.nul_encoded_unwanted != U::IGNORE { st = c.nul_encoded_unwanted; }
                if st != U::IGNORE { d.st = st; }
                if c.nul_encoded_terminates { return d; }
                d.out.push(0);
                continue;
            }
            if st != U::IGNORE { d.st = st; }
            match p.byte { Some(x) => d.out.push(x), None => if !p.drop { d.out.push(b'%') } }
        } else if b == b'+' {
            d.out.push(if c.plusspace_decode { b' ' } else { b'+' });
        } else if b == 0 {
            d.fl |= RNUL;
            if c.nul_raw_unwanted != U::IGNORE { d.st = c.nul_raw_unwanted; }
            if c.nul_raw_terminates { return d; }
            d.out.push(0);
        } else {
            d.out.push(b);
        }
    }
    d
}
/// Path.
pub fn dec_path(s: &[u8], c: &DecoderConfig) -> Dec {
    let mut d = Dec { out: Vec::new(), fl: 0, st: U::IGNORE };
    let mut i = 0;
    while i < s.len() {
        let b = s[i];
        i += 1;
        let byte;
        if b == b'%' {
            let p = pct(&s[i..], c, true);
            d.fl |= p.fl;
            if p.st[0] != U::IGNORE { d.st = p.st[0]; }
            match p.byte {
                None => { if p.drop { continue; } byte = b'%'; }
                Some(x) => {
                    let u = p.used == 5;
                    let sep = x == b'/' || (c.backslash_convert_slashes && x == b'\\');
                    // invalid two-byte encodings are not classified further
                    let classify = u || p.fl & INV == 0;
                    if classify && x == 0 && (p.fl & INV == 0) {
                        d.fl |= ENUL;
                        if c.nul_encoded_terminates { if c.nul_encoded_unwanted != U::IGNORE { d.st = c.nul_encoded_unwanted; } return d; }
                        if u && c.nul_encoded_unwanted != U::IGNORE { d.st = c.nul_encoded_unwanted; }
                    }
                    if classify && sep { d.fl |= ESEP; }
                    if sep && !u && classify && !c.path_separators_decode { byte = b'%'; } else { byte = x; i += p.used; }
                }
            }
        } else if b == 0 && c.nul_raw_terminates {
            if c.nul_raw_unwanted != U::IGNORE { d.st = c.nul_raw_unwanted; }
            return d;
        } else {
            byte = b;
        }
        if byte < 0x20 && c.control_chars_unwanted != U::IGNORE { d.st = c.control_chars_unwanted; }
        let mut o = byte;
        if o == b'\\' && c.backslash_convert_slashes { o = b'/'; }
        if c.convert_lowercase && o >= b'A' && o <= b'Z' { o += 32; }
        if o == b'/' && c.path_separators_compress && d.out.last() == Some(&b'/') { continue; }
        d.out.push(o);
    }
    d
}
use htp::util::HtpFlags as F;
/// Dot-segment removal: "." segments vanish, ".." removes the segment before it, never the root.
pub fn ref_dots(s: &[u8]) -> Vec<u8> {
    // stack of (start, end)
    let mut st: Vec<(usize, usize)> = Vec::new();
    let mut a = 0;
    loop {
        let mut e = a;
        while e < s.len() && s[e] != b'/' { e += 1; }
        let n = e - a;
        if n == 1 && s[a] == b'.' {
        } else if n == 2 && s[a] == b'.' && s[a + 1] == b'.' {
            let root = st.len() == 1 && st[0].0 == st[0].1;
            if !root { st.pop(); }
        } else {
            st.push((a, e));
        }
        if e >= s.len() { break; }
        a = e + 1;
    }
    let mut o = Vec::new();
    for (i, (x, y)) in st.iter().enumerate() {
        if i > 0 { o.push(b'/'); }
        o.extend_from_slice(&s[*x..*y]);
    }
    o
}
/// UTF-8 (overlong forms decoded and flagged): converted bytes and flags.
pub fn ref_utf8(s: &[u8], rep: u8) -> (Vec<u8>, u64) {
    let (mut o, mut fl, mut seen) = (Vec::new(), 0u64, false);
    let mut i = 0;
    'outer: while i < s.len() {
        let b = s[i];
        if b < 0x80 { o.push(b); i += 1; continue; }
        let need = if b < 0xc0 { 0 } else if b < 0xe0 { 1 } else if b < 0xf0 { 2 } else if b <= 0xf4 { 3 } else { 0 };
        if need == 0 { o.push(rep); fl |= F::PATH_UTF8_INVALID; i += 1; continue; }
        let mut cp: u32 = match need { 1 => (b & 0x1f) as u32, 2 => (b & 0xf) as u32, _ => (b & 7) as u32 };
        for k in 1..=need {
            if i + k >= s.len() {
                // cut short by the end of the path
                for _ in 1..k { o.push(rep); }
                break 'outer;
            }
            let c = s[i + k];
            let mut ok = c >= 0x80 && c < 0xc0;
            if k == 1 && b == 0xed && c >= 0xa0 { ok = false; }
            if k == 1 && b == 0xf4 && c >= 0x90 { ok = false; }
            if !ok { o.push(rep); fl |= F::PATH_UTF8_INVALID; i += k; continue 'outer; }
            cp = cp << 6 | (c & 0x3f) as u32;
        }
        seen = true;
        if (need == 1 && cp < 0x80) || (need == 2 && cp < 0x800) || (need == 3 && cp < 0x10000) { fl |= F::PATH_UTF8_OVERLONG; }
        if cp >= 0xff00 && cp <= 0xffef { fl |= F::PATH_HALF_FULL_RANGE; }
        o.push(if cp < 0x100 { cp as u8 } else { rep });
        i += need + 1;
    }
    if seen && fl & F::PATH_UTF8_INVALID == 0 { fl |= F::PATH_UTF8_VALID; }
    (o, fl)
}
