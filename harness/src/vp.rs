//! Intrinsics: symbolic input, assumptions, assertions, observations.
#[link(name = "vprt", kind = "static")]
extern "C" {
    fn vp_sym(p: *mut u8, n: usize);
    fn vp_assume(c: u32);
    fn vp_check(c: u32, l: *const u8, n: usize);
    fn vp_obs(v: u64);
    fn vp_reach(l: *const u8, n: usize);
    fn vp_concr(v: u64) -> u64;
    fn vp_eq(a: *const u8, b: *const u8, n: usize) -> u32;
    #[allow(dead_code)]
    fn vp_dump(v: u64);
    pub fn vp_native(h: extern "C" fn()) -> i32;
}
pub fn sym<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { vp_sym(b.as_mut_ptr(), N) };
    b
}
pub fn symv(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    unsafe { vp_sym(b.as_mut_ptr(), n) };
    b
}
pub fn sym_u8() -> u8 {
    sym::<1>()[0]
}
pub fn assume(c: bool) {
    unsafe { vp_assume(c as u32) }
}
pub fn check(c: bool, l: &str) {
    unsafe { vp_check(c as u32, l.as_ptr(), l.len()) }
}
pub fn check_u32(c: u32, l: &str) {
    unsafe { vp_check(c, l.as_ptr(), l.len()) }
}
pub fn obs(v: u64) {
    unsafe { vp_obs(v) }
}
pub fn obs_bytes(b: &[u8]) {
    obs(b.len() as u64);
    for x in b {
        obs(*x as u64);
    }
}
pub fn reach(l: &str) {
    unsafe { vp_reach(l.as_ptr(), l.len()) }
}
/// Fork over every feasible value.
pub fn concr(v: u64) -> u64 {
    unsafe { vp_concr(v) }
}
/// A nondeterministic choice in 0..n (every value is explored).
pub fn choose(n: usize) -> usize {
    let b = sym_u8();
    unsafe { vp_assume(((b as usize) < n) as u32) };
    unsafe { vp_concr(b as u64) as usize }
}
/// Byte equality without forking.
pub fn eqb(a: &[u8], b: &[u8]) -> u32 {
    if a.len() != b.len() {
        return 0;
    }
    unsafe { vp_eq(a.as_ptr(), b.as_ptr(), a.len()) }
}
pub fn check_bytes(a: &[u8], b: &[u8], l: &str) {
    check(a.len() == b.len(), l);
    if a.len() == b.len() {
        check_u32(eqb(a, b), l);
    }
}
pub fn check_obytes(a: Option<&[u8]>, b: Option<&[u8]>, l: &str) {
    check(a.is_some() == b.is_some(), l);
    if let (Some(a), Some(b)) = (a, b) {
        check_bytes(a, b, l);
    }
}
/// Restrict a byte to a set, without forking (the set is a lookup table).
pub fn assume_tab(b: u8, t: &[u8; 256]) {
    unsafe { vp_assume(t[b as usize] as u32) }
}
pub const fn tab(s: &[u8]) -> [u8; 256] {
    let mut t = [0u8; 256];
    let mut i = 0;
    while i < s.len() {
        t[s[i] as usize] = 1;
        i += 1;
    }
    t
}
pub const fn not_tab(s: &[u8]) -> [u8; 256] {
    let mut t = [1u8; 256];
    let mut i = 0;
    while i < s.len() {
        t[s[i] as usize] = 0;
        i += 1;
    }
    t
}
