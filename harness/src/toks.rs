//! Random numbers, and characters and byte strings that matter to the encodings. No operating system, no reference data.
use crate::codecs::Fam;
#[allow(unused_imports)]
use crate::prelude::*;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
    #[inline]
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    #[allow(dead_code)]
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub fn enc_list(v: &[u32]) -> Vec<Vec<u8>> {
    v.iter().filter_map(|&u| char::from_u32(u)).map(|c| c.to_string().into_bytes()).collect()
}
pub fn hexes(s: &str) -> Vec<Vec<u8>> {
    s.split_whitespace()
        .map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect())
        .collect()
}

/// Units and pieces of units of an encoding.
pub fn base_dec(fam: Fam) -> Vec<Vec<u8>> {
    match fam {
        Fam::Utf8 => hexes(
            "41 00 7f 0a c280 dfbf e0a080 e28282 e282ac ed9fbf ee8080 efbbbf efbfbd efbfbf f0908080 f09f9880 f48fbfbf \
             80 bf c0 c1 f5 f8 ff c2 e2 e0 ed f0 f4 e282 e09f eda080 f08080 f0908f f09f98 f49080 cc84 c38a",
        ),
        Fam::Utf16 { be } => {
            let mut v: Vec<Vec<u8>> = [
                0x41u16, 0, 0x7F, 0x80, 0xFF, 0x7FF, 0x800, 0x20AC, 0x41DC, 0xD741, 0xD7FF, 0xD800, 0xD83D, 0xDBFF, 0xDC00, 0xDE00, 0xDFFF,
                0xE000, 0xFEFF, 0xFFFE, 0xFFFD, 0xFFFF,
            ]
            .iter()
            .map(|u| if be { u.to_be_bytes().to_vec() } else { u.to_le_bytes().to_vec() })
            .collect();
            v.extend(hexes("41 d8 dc 00"));
            v
        }
        Fam::Utf32 { be } => {
            let mut v: Vec<Vec<u8>> = [
                0x41u32, 0, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF,
                0x110000, 0xFFFF_FFFF, 0xFFFE_0000, 0x0100_0041, 0xD800_0000, 0x0010_D800,
            ]
            .iter()
            .map(|u| if be { u.to_be_bytes().to_vec() } else { u.to_le_bytes().to_vec() })
            .collect();
            v.extend(hexes("41 0041 000000 ff"));
            v
        }
        Fam::Big5 => hexes(
            "41 00 7f 40 0a 80 ff 81 87 88 a4 fe 8862 8864 88a3 88a5 8866 8840 8859 8740 8141 a440 a4fe a140 a47f a480 a4a0 a4ff a420 \
             a4a1 f9d5 f9fe fefe fe40 c6a1 f9e9 8ecd aacc a1 87be 8bc3 9ff4",
        ),
        Fam::Sjis => hexes(
            "41 00 7f 40 5c 7e 0a 80 a0 fd ff fe 81 9f e0 fc ef a1 df b1 8140 815f 8160 8191 817f 8180 81fc 81ff 8120 889f 8740 879c ed40 \
             eefc f040 f9fc fa40 fa54 fc4b fc4c fcfc eb9f 9ffc e040 8194",
        ),
        Fam::Single(_) => (0..=255u8).filter(|b| *b >= 0x80 || b % 31 == 3).map(|b| [b].to_vec()).collect(),
    }
}
/// Characters that matter to an encoding.
pub fn base_enc(fam: Fam) -> Vec<Vec<u8>> {
    let base = [0x41u32, 0, 0x7F, 0x0A, 0x80, 0xA5, 0x3A9, 0x7FF, 0x800, 0x20AC, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF];
    let mut v = match fam {
        Fam::Utf8 | Fam::Utf16 { .. } | Fam::Utf32 { .. } => [
            &base[..],
            &[0x81, 0xFF, 0x100, 0xCA, 0x304, 0x3042, 0x4E00, 0xAC00, 0xFFFE, 0x1FFFF, 0xFFFF0, 0xD55C, 0x200D, 0x1F1E6],
        ]
        .concat(),
        Fam::Big5 => [
            &[0x41u32, 0, 0x7F, 0x0A, 0x80, 0xA5, 0x3A9, 0x7FF, 0x20AC, 0xE000, 0xFEFF, 0xFFFD, 0x10000, 0x1F600][..],
            &[0xCA, 0xEA, 0x304, 0x30C, 0x301, 0xC9, 0x2550, 0x255E, 0x2561, 0x256A, 0x5341, 0x5345, 0x4E00, 0x3000, 0x43F0, 0x200CC, 0x2A3A9, 0x9FA0, 0x2003E, 0xE5],
        ]
        .concat(),
        Fam::Sjis => [
            &[0x41u32, 0, 0x7F, 0x0A, 0x5C, 0x7E, 0x80, 0xA5, 0x203E, 0x2212, 0xFF0D, 0x3A9, 0x20AC][..],
            &[0xFF61, 0xFF71, 0xFF9F, 0xFFA0, 0xFF60, 0x3000, 0xFF3C, 0x4E00, 0x4E9C, 0xE000, 0xE757, 0xE758, 0x2252, 0xFFE2, 0x7E8A, 0x2170, 0x9ED1, 0xFFFD, 0x10000, 0x1F600, 0x81, 0xFEFF],
        ]
        .concat(),
        Fam::Single(_) => [
            &base[..],
            &[0x9F, 0xA0, 0xE9, 0xFF, 0x104, 0x152, 0x192, 0x1A0, 0x2C7, 0x300, 0x384, 0x3C9, 0x401, 0x44F, 0x490, 0x5D0, 0x5EA, 0x60C, 0x645, 0x6D2],
            &[0xE01, 0xE5B, 0x1E02, 0x200E, 0x2013, 0x2022, 0x20AA, 0x20AB, 0x2116, 0x2122, 0x2219, 0x221A, 0x2500, 0x256C, 0x2588, 0xF8FF, 0xFB02],
        ]
        .concat(),
    };
    v.sort();
    v.dedup();
    enc_list(&v)
}
