#![allow(static_mut_refs, dead_code, unused_imports, unused_macros)]
#![allow(clippy::all)]
mod vp;
#[macro_use]
mod com;
mod bestfit;
mod refm;
type H = &'static [(&'static str, extern "C" fn())];
macro_rules! mods { ($($m:ident $f:literal),* $(,)?) => {
    $(#[cfg(feature = $f)] mod $m;)*
    fn table() -> Vec<(&'static str, extern "C" fn())> {
        let mut v: Vec<(&'static str, extern "C" fn())> = Vec::new();
        $(#[cfg(feature = $f)] v.extend_from_slice($m::H);)*
        v
    }
} }
mods! { c01 "c01", c02 "c02", c03 "c03", c04 "c04", c05 "c05", c06 "c06", c07 "c07", c08 "c08", c09 "c09", c10 "c10", c11 "c11", c12 "c12", c13 "c13", c14 "c14", c15 "c15", c16 "c16", c17 "c17", c18 "c18", c19 "c19", c20 "c20", c21 "c21", c22 "c22", c23 "c23", c24 "c24", c25 "c25", c26 "c26", c27 "c27", c28 "c28", c29 "c29", c30 "c30", c31 "c31", c32 "c32", c33 "c33" }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t = table();
    if a.len() < 2 {
        for (n, _) in &t { println!("{}", n); }
        return;
    }
    for (n, f) in &t {
        if *n == a[1] {
            std::process::exit(unsafe { vp::vp_native(*f) });
        }
    }
    eprintln!("no harness {}", a[1]);
    std::process::exit(3);
}
