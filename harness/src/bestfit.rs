//! The Windows-1252 best-fit table (Unicode code point, byte), as published.
pub static BESTFIT: [(u16, u8); 390] = [
    (0x100, 0x41), (0x101, 0x61), (0x102, 0x41), (0x103, 0x61), (0x104, 0x41), (0x105, 0x61), (0x106, 0x43), (0x107, 0x63), (0x108, 0x43), (0x109, 0x63), (0x10a, 0x43), (0x10b, 0x63),
    (0x10c, 0x43), (0x10d, 0x63), (0x10e, 0x44), (0x10f, 0x64), (0x111, 0x64), (0x112, 0x45), (0x113, 0x65), (0x114, 0x45), (0x115, 0x65), (0x116, 0x45), (0x117, 0x65), (0x118, 0x45),
    (0x119, 0x65), (0x11a, 0x45), (0x11b, 0x65), (0x11c, 0x47), (0x11d, 0x67), (0x11e, 0x47), (0x11f, 0x67), (0x120, 0x47), (0x121, 0x67), (0x122, 0x47), (0x123, 0x67), (0x124, 0x48),
    (0x125, 0x68), (0x126, 0x48), (0x127, 0x68), (0x128, 0x49), (0x129, 0x69), (0x12a, 0x49), (0x12b, 0x69), (0x12c, 0x49), (0x12d, 0x69), (0x12e, 0x49), (0x12f, 0x69), (0x130, 0x49),
    (0x131, 0x69), (0x134, 0x4a), (0x135, 0x6a), (0x136, 0x4b), (0x137, 0x6b), (0x139, 0x4c), (0x13a, 0x6c), (0x13b, 0x4c), (0x13c, 0x6c), (0x13d, 0x4c), (0x13e, 0x6c), (0x141, 0x4c),
    (0x142, 0x6c), (0x143, 0x4e), (0x144, 0x6e), (0x145, 0x4e), (0x146, 0x6e), (0x147, 0x4e), (0x148, 0x6e), (0x14c, 0x4f), (0x14d, 0x6f), (0x14e, 0x4f), (0x14f, 0x6f), (0x150, 0x4f),
    (0x151, 0x6f), (0x154, 0x52), (0x155, 0x72), (0x156, 0x52), (0x157, 0x72), (0x158, 0x52), (0x159, 0x72), (0x15a, 0x53), (0x15b, 0x73), (0x15c, 0x53), (0x15d, 0x73), (0x15e, 0x53),
    (0x15f, 0x73), (0x162, 0x54), (0x163, 0x74), (0x164, 0x54), (0x165, 0x74), (0x166, 0x54), (0x167, 0x74), (0x168, 0x55), (0x169, 0x75), (0x16a, 0x55), (0x16b, 0x75), (0x16c, 0x55),
    (0x16d, 0x75), (0x16e, 0x55), (0x16f, 0x75), (0x170, 0x55), (0x171, 0x75), (0x172, 0x55), (0x173, 0x75), (0x174, 0x57), (0x175, 0x77), (0x176, 0x59), (0x177, 0x79), (0x179, 0x5a),
    (0x17b, 0x5a), (0x17c, 0x7a), (0x180, 0x62), (0x197, 0x49), (0x19a, 0x6c), (0x19f, 0x4f), (0x1a0, 0x4f), (0x1a1, 0x6f), (0x1ab, 0x74), (0x1ae, 0x54), (0x1af, 0x55), (0x1b0, 0x75),
    (0x1b6, 0x7a), (0x1c0, 0x7c), (0x1c3, 0x21), (0x1cd, 0x41), (0x1ce, 0x61), (0x1cf, 0x49), (0x1d0, 0x69), (0x1d1, 0x4f), (0x1d2, 0x6f), (0x1d3, 0x55), (0x1d4, 0x75), (0x1d5, 0x55),
    (0x1d6, 0x75), (0x1d7, 0x55), (0x1d8, 0x75), (0x1d9, 0x55), (0x1da, 0x75), (0x1db, 0x55), (0x1dc, 0x75), (0x1de, 0x41), (0x1df, 0x61), (0x1e4, 0x47), (0x1e5, 0x67), (0x1e6, 0x47),
    (0x1e7, 0x67), (0x1e8, 0x4b), (0x1e9, 0x6b), (0x1ea, 0x4f), (0x1eb, 0x6f), (0x1ec, 0x4f), (0x1ed, 0x6f), (0x1f0, 0x6a), (0x261, 0x67), (0x2b9, 0x27), (0x2ba, 0x22), (0x2bc, 0x27),
    (0x2c4, 0x5e), (0x2c8, 0x27), (0x2cb, 0x60), (0x2cd, 0x5f), (0x300, 0x60), (0x302, 0x5e), (0x303, 0x7e), (0x30e, 0x22), (0x331, 0x5f), (0x332, 0x5f), (0x37e, 0x3b), (0x393, 0x47),
    (0x398, 0x54), (0x3a3, 0x53), (0x3a6, 0x46), (0x3a9, 0x4f), (0x3b1, 0x61), (0x3b4, 0x64), (0x3b5, 0x65), (0x3c0, 0x70), (0x3c3, 0x73), (0x3c4, 0x74), (0x3c6, 0x66), (0x4bb, 0x68),
    (0x589, 0x3a), (0x66a, 0x25), (0x2000, 0x20), (0x2001, 0x20), (0x2002, 0x20), (0x2003, 0x20), (0x2004, 0x20), (0x2005, 0x20), (0x2006, 0x20), (0x2010, 0x2d), (0x2011, 0x2d), (0x2017, 0x3d),
    (0x2032, 0x27), (0x2035, 0x60), (0x2044, 0x2f), (0x2074, 0x34), (0x2075, 0x35), (0x2076, 0x36), (0x2077, 0x37), (0x2078, 0x38), (0x207f, 0x6e), (0x2080, 0x30), (0x2081, 0x31), (0x2082, 0x32),
    (0x2083, 0x33), (0x2084, 0x34), (0x2085, 0x35), (0x2086, 0x36), (0x2087, 0x37), (0x2088, 0x38), (0x2089, 0x39), (0x20a7, 0x50), (0x2102, 0x43), (0x2107, 0x45), (0x210a, 0x67), (0x210b, 0x48),
    (0x210c, 0x48), (0x210d, 0x48), (0x210e, 0x68), (0x2110, 0x49), (0x2111, 0x49), (0x2112, 0x4c), (0x2113, 0x6c), (0x2115, 0x4e), (0x2118, 0x50), (0x2119, 0x50), (0x211a, 0x51), (0x211b, 0x52),
    (0x211c, 0x52), (0x211d, 0x52), (0x2124, 0x5a), (0x2128, 0x5a), (0x212a, 0x4b), (0x212c, 0x42), (0x212d, 0x43), (0x212e, 0x65), (0x212f, 0x65), (0x2130, 0x45), (0x2131, 0x46), (0x2133, 0x4d),
    (0x2134, 0x6f), (0x2212, 0x2d), (0x2215, 0x2f), (0x2216, 0x5c), (0x2217, 0x2a), (0x221a, 0x76), (0x221e, 0x38), (0x2223, 0x7c), (0x2229, 0x6e), (0x2236, 0x3a), (0x223c, 0x7e), (0x2261, 0x3d),
    (0x2264, 0x3d), (0x2265, 0x3d), (0x2303, 0x5e), (0x2320, 0x28), (0x2321, 0x29), (0x2329, 0x3c), (0x232a, 0x3e), (0x2500, 0x2d), (0x250c, 0x2b), (0x2510, 0x2b), (0x2514, 0x2b), (0x2518, 0x2b),
    (0x251c, 0x2b), (0x252c, 0x2d), (0x2534, 0x2d), (0x253c, 0x2b), (0x2550, 0x2d), (0x2552, 0x2b), (0x2553, 0x2b), (0x2554, 0x2b), (0x2555, 0x2b), (0x2556, 0x2b), (0x2557, 0x2b), (0x2558, 0x2b),
    (0x2559, 0x2b), (0x255a, 0x2b), (0x255b, 0x2b), (0x255c, 0x2b), (0x255d, 0x2b), (0x2564, 0x2d), (0x2565, 0x2d), (0x2566, 0x2d), (0x2567, 0x2d), (0x2568, 0x2d), (0x2569, 0x2d), (0x256a, 0x2b),
    (0x256b, 0x2b), (0x256c, 0x2b), (0x2584, 0x5f), (0x2758, 0x7c), (0x3000, 0x20), (0x3008, 0x3c), (0x3009, 0x3e), (0x301a, 0x5b), (0x301b, 0x5d), (0xff01, 0x21), (0xff02, 0x22), (0xff03, 0x23),
    (0xff04, 0x24), (0xff05, 0x25), (0xff06, 0x26), (0xff07, 0x27), (0xff08, 0x28), (0xff09, 0x29), (0xff0a, 0x2a), (0xff0b, 0x2b), (0xff0c, 0x2c), (0xff0d, 0x2d), (0xff0e, 0x2e), (0xff0f, 0x2f),
    (0xff10, 0x30), (0xff11, 0x31), (0xff12, 0x32), (0xff13, 0x33), (0xff14, 0x34), (0xff15, 0x35), (0xff16, 0x36), (0xff17, 0x37), (0xff18, 0x38), (0xff19, 0x39), (0xff1a, 0x3a), (0xff1b, 0x3b),
    (0xff1c, 0x3c), (0xff1d, 0x3d), (0xff1e, 0x3e), (0xff20, 0x40), (0xff21, 0x41), (0xff22, 0x42), (0xff23, 0x43), (0xff24, 0x44), (0xff25, 0x45), (0xff26, 0x46), (0xff27, 0x47), (0xff28, 0x48),
    (0xff29, 0x49), (0xff2a, 0x4a), (0xff2b, 0x4b), (0xff2c, 0x4c), (0xff2d, 0x4d), (0xff2e, 0x4e), (0xff2f, 0x4f), (0xff30, 0x50), (0xff31, 0x51), (0xff32, 0x52), (0xff33, 0x53), (0xff34, 0x54),
    (0xff35, 0x55), (0xff36, 0x56), (0xff37, 0x57), (0xff38, 0x58), (0xff39, 0x59), (0xff3a, 0x5a), (0xff3b, 0x5b), (0xff3c, 0x5c), (0xff3d, 0x5d), (0xff3e, 0x5e), (0xff3f, 0x5f), (0xff40, 0x60),
    (0xff41, 0x61), (0xff42, 0x62), (0xff43, 0x63), (0xff44, 0x64), (0xff45, 0x65), (0xff46, 0x66), (0xff47, 0x67), (0xff48, 0x68), (0xff49, 0x69), (0xff4a, 0x6a), (0xff4b, 0x6b), (0xff4c, 0x6c),
    (0xff4d, 0x6d), (0xff4e, 0x6e), (0xff4f, 0x6f), (0xff50, 0x70), (0xff51, 0x71), (0xff52, 0x72), (0xff53, 0x73), (0xff54, 0x74), (0xff55, 0x75), (0xff56, 0x76), (0xff57, 0x77), (0xff58, 0x78),
    (0xff59, 0x79), (0xff5a, 0x7a), (0xff5b, 0x7b), (0xff5c, 0x7c), (0xff5d, 0x7d), (0xff5e, 0x7e),
];
pub fn bf(cp: u16, rep: u8) -> u8 {
    let (mut a, mut b) = (0, BESTFIT.len());
    while a < b {
        let m = (a + b) / 2;
        if BESTFIT[m].0 == cp { return BESTFIT[m].1; }
        if BESTFIT[m].0 < cp { a = m + 1; } else { b = m; }
    }
    rep
}
/// The pages (high bytes) with entries, and two without.
pub static PAGES: [u8; 16] = [0x1, 0x2, 0x3, 0x4, 0x5, 0x6, 0x20, 0x21, 0x22, 0x23, 0x25, 0x27, 0x30, 0xff, 0x12, 0xfe];
