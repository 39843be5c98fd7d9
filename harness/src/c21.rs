//! C21: byte strings and tables compare, search and look up as documented.
use crate::{com::*, vp::*};
use core::cmp::Ordering as O;
use htp::bstr::Bstr;
use htp::table::Table;
use htp::transaction::{Header, Headers};
fn low(c: u8) -> u8 { if c >= b'A' && c <= b'Z' { c + 32 } else { c } }
fn lows(s: &[u8]) -> Vec<u8> { s.iter().map(|c| low(*c)).collect() }
fn nozero(s: &[u8]) -> Vec<u8> { let mut v = Vec::new(); for c in s { if *c != 0 { v.push(*c); } } v }
fn order(a: &[u8], b: &[u8]) -> O {
    let mut i = 0;
    loop {
        if i == a.len() && i == b.len() { return O::Equal; }
        if i == a.len() { return O::Less; }
        if i == b.len() { return O::Greater; }
        if a[i] < b[i] { return O::Less; }
        if a[i] > b[i] { return O::Greater; }
        i += 1;
    }
}
fn cmp(na: usize, nb: usize) {
    let (a, b) = (symv(na), symv(nb));
    let x = Bstr::from(a.as_slice());
    check(x.cmp_slice(&b) == order(&a, &b), "cmp_slice is the byte order");
    check(x.eq_slice(&b) == (order(&a, &b) == O::Equal), "eq_slice");
}
fn cmp_nocase(na: usize, nb: usize) {
    let (a, b) = (symv(na), symv(nb));
    let x = Bstr::from(a.as_slice());
    let w = order(&lows(&a), &lows(&b));
    check(x.cmp_nocase(&b) == w, "cmp_nocase is the byte order of the lowercased strings");
    check(x.eq_nocase(&b) == (w == O::Equal), "eq_nocase");
}
fn cmp_nozero(na: usize, nb: usize) {
    let (a, b) = (symv(na), symv(nb));
    let x = Bstr::from(a.as_slice());
    let w = order(&lows(&nozero(&a)), &lows(&b));
    check(x.cmp_nocase_nozero(&b) == w, "cmp_nocase_nozero ignores zeros on the left");
    check(x.eq_nocase_nozero(&b) == (w == O::Equal), "eq_nocase_nozero");
}
fn wsp(c: u8) -> bool { c == b' ' || c == 9 || c == 10 || c == 12 || c == 13 }
fn trim(mut s: &[u8]) -> &[u8] {
    while !s.is_empty() && wsp(s[0]) { s = &s[1..]; }
    while !s.is_empty() && wsp(s[s.len() - 1]) { s = &s[..s.len() - 1]; }
    s
}
fn cmp_trim(na: usize, nb: usize) {
    let (a, b) = (symv(na), symv(nb));
    // vertical tab and non-ASCII blanks: whether they count as white space is not claimed
    for c in &a { assume(*c < 128 && *c != 11); }
    let x = Bstr::from(a.as_slice());
    check(x.cmp_nocase_trimmed(&b) == order(&lows(trim(&a)), &lows(&b)), "cmp_nocase_trimmed");
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    if n.len() > h.len() { return None; }
    for i in 0..h.len() + 1 - n.len() { if eqb(&h[i..i + n.len()], n) != 0 { return Some(i); } }
    None
}
fn index(na: usize, nb: usize) {
    let (a, b) = (symv(na), symv(nb));
    let x = Bstr::from(a.as_slice());
    check(x.index_of_nocase(&b) == find(&lows(&a), &lows(&b)), "index_of_nocase is the first occurrence");
    check(x.starts_with(&b) == (na >= nb && eqb(&a[..nb], &b) != 0), "starts_with");
    check(x.starts_with_nocase(&b) == (na >= nb && eqb(&lows(&a)[..nb], &lows(&b)) != 0), "starts_with_nocase");
}
fn index_nozero(na: usize, nb: usize) {
    let (a, b) = (symv(na), symv(nb));
    for c in &b { assume(*c != 0); }
    let x = Bstr::from(a.as_slice());
    let w = find(&lows(&nozero(&a)), &lows(&b)).map(|k| {
        // the k-th byte that is not a zero
        let (mut i, mut k) = (0, k);
        loop { if a[i] != 0 { if k == 0 { return i; } k -= 1; } i += 1; }
    });
    check(x.index_of_nocase_nozero(&b) == w, "index_of_nocase_nozero is the first occurrence");
}
fn index_small(n: usize, needle: &[u8]) {
    // the haystack is made of the needle's letters, so that partial matches abound
    let a = symv(n);
    const L: [u8; 256] = tab(b"aAbB\0");
    for c in &a { assume_tab(*c, &L); }
    let x = Bstr::from(a.as_slice());
    check(x.index_of_nocase(needle) == find(&lows(&a), needle), "index_of_nocase with partial matches");
    check(x.index_of_nocase_nozero(needle).is_some() == find(&lows(&nozero(&a)), needle).is_some(), "index_of_nocase_nozero with partial matches");
}
fn add() {
    let (a, b) = (symv(3), symv(4));
    let mut x = Bstr::from(a.as_slice());
    x.add(&b);
    check_bytes(x.as_slice(), &cat(&[&a, &b]), "add appends");
    let cap = choose(9);
    let mut y = Bstr::with_capacity(cap);
    let c = y.capacity();
    y.add_noex(&a);
    y.add_noex(&b);
    let w = cat(&[&a, &b]);
    check(y.capacity() == c, "add_noex never grows");
    check_bytes(y.as_slice(), &w[..if w.len() < c { w.len() } else { c }], "add_noex appends what fits");
}
fn split() {
    let a = symv(4);
    let x = Bstr::from(a.as_slice());
    let got = x.split_str_collect(",");
    let mut n = 0;
    let mut at = 0;
    let mut want: Vec<&[u8]> = Vec::new();
    for i in 0..a.len() { if a[i] == b',' { want.push(&a[at..i]); at = i + 1; n += 1; } }
    want.push(&a[at..]);
    check(got.len() == n + 1, "split: number of parts");
    for i in 0..want.len() { check_bytes(got[i], want[i], "split: part"); }
}
fn table() {
    // three entries with symbolic two-letter keys, a symbolic query
    let mut t: Table<u8> = Table::with_capacity(choose(3));
    let k: [[u8; 2]; 3] = [sym(), sym(), sym()];
    let q: [u8; 2] = sym();
    let mut h = Headers::with_capacity(1);
    for i in 0..3 {
        for c in k[i] { assume(c > 32 && c < 127); }
        t.add(Bstr::from(&k[i][..]), i as u8);
        h.elements.push(Header::new(Bstr::from(&k[i][..]), Bstr::from(&[b'0' + i as u8][..])));
    }
    for c in q { assume(c > 32 && c < 127); }
    let mut w = None;
    for i in 0..3 { if w.is_none() && low(k[i][0]) == low(q[0]) && low(k[i][1]) == low(q[1]) { w = Some(i as u8); } }
    check(t.size() == 3 && h.size() == 3, "size");
    check(t.get_nocase(q).map(|e| e.1) == w, "first entry with the key, whatever its case");
    check(h.get_nocase(q).map(|e| e.value.as_slice()[0] - b'0') == w, "first header with the name");
    check(h.get_nocase_nozero(q).map(|e| e.value.as_slice()[0] - b'0') == w, "first header with the name, zeros ignored");
    check(h.get_nocase_mut(q).map(|e| e.value.as_slice()[0] - b'0') == w, "first header with the name (mut)");
    check(h.get_nocase_nozero_mut(q).map(|e| e.value.as_slice()[0] - b'0') == w, "first header with the name, zeros ignored (mut)");
    for i in 0..3 {
        check(t.get(i).map(|e| e.1) == Some(i as u8) && t[i].1 == i as u8, "entries keep their order");
        check(t.get_mut(i).map(|e| e.1) == Some(i as u8), "entries keep their order (mut)");
    }
    check(t.get(3).is_none(), "nothing beyond the end");
    let mut n = 0u8;
    for e in &t { check(e.1 == n, "iteration order"); n += 1; }
    check(n == 3, "iteration covers all");
}
fn zeros() {
    // a name with zeros and blanks sprinkled in is found, and only then
    let k: [u8; 4] = sym();
    for c in k { assume(c < 128 && c != 11 && !(c >= 28 && c <= 31)); }
    let mut h = Headers::with_capacity(1);
    h.elements.push(Header::new(Bstr::from(&k[..]), Bstr::from("v")));
    let w = order(&lows(&nozero(trim(&k))), b"ab") == O::Equal;
    check(h.get_nocase_nozero("AB").is_some() == w, "name with zeros");
}
harness! {
    fn h_c21_cmp() { cmp(3, 3); cmp(2, 3); cmp(3, 2); cmp(0, 1); cmp(1, 0) }
    fn h_c21_cmp_nocase() { cmp_nocase(3, 3) }
    fn h_c21_cmp_nocase_len() { cmp_nocase(2, 3); cmp_nocase(3, 2) }
    fn h_c21_cmp_nozero() { cmp_nozero(3, 2) }
    fn h_c21_cmp_nozero3() { cmp_nozero(3, 3) }
    fn h_c21_cmp_trim() { cmp_trim(4, 2) }
    fn h_c21_index() { index(4, 2) }
    fn h_c21_index_len() { index(2, 3); index(3, 3) }
    fn h_c21_index_nozero() { index_nozero(4, 2) }
    fn h_c21_index_ab() { index_small(5, b"aab") }
    fn h_c21_index_abab() { index_small(6, b"abab") }
    fn h_c21_index_empty() {
        let x = Bstr::from(symv(2).as_slice());
        check(x.index_of_nocase("").is_none() && x.index_of_nocase_nozero("").is_none(), "an empty needle is not found");
        check(Bstr::new().index_of_nocase("a").is_none(), "nothing in an empty string");
    }
    fn h_c21_add() { add() }
    fn h_c21_split() { split() }
    fn h_c21_table() { table() }
    fn h_c21_zeros() { zeros() }
    fn h_c21_cmp_nocase_x() { cmp_nocase(5, 5) }
    fn h_c21_cmp_nozero_x() { cmp_nozero(5, 3) }
    fn h_c21_index_x() { index(6, 3) }
    fn h_c21_index_nozero_x() { index_nozero(6, 3) }
    fn h_c21_index_ab_x() { index_small(8, b"aab") }
    fn h_c21_cmp_trim_x() { cmp_trim(5, 3) }
}
