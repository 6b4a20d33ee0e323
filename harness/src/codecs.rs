//! The 38 encodings of the library behind one call signature.
#[allow(unused_imports)]
use crate::prelude::*;
use text_encoding::{single_byte::*, *};

pub type EncFn = for<'a> fn(&str, &'a mut [u8], bool) -> EncodeResult<'a>;
pub type DecFn = for<'a> fn(&[u8], &'a mut [u8], bool) -> DecodeResult<'a>;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Fam {
    Utf8,
    Utf16 { be: bool },
    Utf32 { be: bool },
    Big5,
    Sjis,
    /// Index into the model's single-byte tables.
    Single(usize),
}

pub struct Codec {
    pub name: &'static str,
    pub fam: Fam,
    pub enc: EncFn,
    pub dec: DecFn,
    /// Whether decode / encode take the end-of-input flag.
    pub dec_end: bool,
    pub enc_end: bool,
}

macro_rules! multi {
    ($m:ident, $fam:expr) => {{
        fn e<'a>(i: &str, o: &'a mut [u8], _end: bool) -> EncodeResult<'a> {
            $m::encode_from_str(i, o)
        }
        Codec { name: stringify!($m), fam: $fam, enc: e, dec: $m::decode_to_str, dec_end: true, enc_end: false }
    }};
}

macro_rules! singles {
    ($v:ident, $($m:ident),*) => {{
        let mut k = 0;
        $({
            fn e<'a>(i: &str, o: &'a mut [u8], _end: bool) -> EncodeResult<'a> { $m::encode_from_str(i, o) }
            fn d<'a>(i: &[u8], o: &'a mut [u8], _end: bool) -> DecodeResult<'a> { $m::decode_to_str(i, o) }
            $v.push(Codec { name: stringify!($m), fam: Fam::Single(k), enc: e, dec: d, dec_end: false, enc_end: false });
            k += 1;
        })*
        let _ = k;
    }};
}

pub fn all() -> Vec<Codec> {
    let mut v = vec![
        multi!(utf8, Fam::Utf8),
        multi!(utf16_be, Fam::Utf16 { be: true }),
        multi!(utf16_le, Fam::Utf16 { be: false }),
        multi!(utf32_be, Fam::Utf32 { be: true }),
        multi!(utf32_le, Fam::Utf32 { be: false }),
        Codec {
            name: "big5_whatwg",
            fam: Fam::Big5,
            enc: big5_whatwg::encode_from_str,
            dec: big5_whatwg::decode_to_str,
            dec_end: true,
            enc_end: true,
        },
        multi!(shiftjis_whatwg, Fam::Sjis),
    ];
    singles!(
        v, ascii, ibm_866, iso_8859_1, iso_8859_2, iso_8859_3, iso_8859_4, iso_8859_5, iso_8859_6, iso_8859_7,
        iso_8859_8, iso_8859_9, iso_8859_10, iso_8859_11, iso_8859_13, iso_8859_14, iso_8859_15, iso_8859_16,
        koi8_r, koi8_u, mac_roman, mac_cyrillic, windows_874, windows_1250, windows_1251, windows_1252,
        windows_1253, windows_1254, windows_1255, windows_1256, windows_1257, windows_1258
    );
    v
}
