//! Executable specification: what one encode or decode call must do, written from the standards
//! (Unicode table 3-7, UTF-16, UTF-32, the WHATWG Encoding Standard, the published single-byte tables)
//! and the crate-level documentation, without looking at how the library does it.
use crate::codecs::{Codec, Fam};
use std::collections::HashMap;

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub enum Dir {
    Enc,
    Dec,
}

pub struct Single {
    pub dec: [u32; 256], // 0xFFFFFFFF: undefined
    pub enc: Vec<u16>,   // by BMP code point; 0xFFFF: unencodable
    pub chars: Vec<char>,
}

pub struct Model {
    pub single: Vec<Single>,
    pub big5_dec: Vec<u32>, // by pointer, 0: hole
    pub big5_enc: Vec<u16>, // by code point < 0x30000, 0: unencodable
    pub big5_chars: Vec<char>,
    pub sjis_dec: Vec<u32>,
    pub sjis_enc: Vec<u16>,
    pub sjis_chars: Vec<char>,
    /// Known findings of C07: code point -> (bytes emitted today, bytes the standard asks for).
    pub big5_known: HashMap<u32, (u16, u16)>,
}

const NONE: u32 = 0xFFFF_FFFF;

fn big5_bytes(p: u32) -> u16 {
    let (l, t) = (p / 157 + 0x81, p % 157);
    ((l << 8) | (t + if t < 0x3F { 0x40 } else { 0x62 })) as u16
}
fn sjis_bytes(p: u32) -> u16 {
    let (l, t) = (p / 188, p % 188);
    let l = l + if l < 0x1F { 0x81 } else { 0xC1 };
    ((l << 8) | (t + if t < 0x3F { 0x40 } else { 0x41 })) as u16
}

fn parse_index(s: &str) -> Vec<(u32, u32)> {
    s.lines()
        .map(|l| {
            let (a, b) = l.split_once(' ').unwrap();
            (a.parse().unwrap(), u32::from_str_radix(b, 16).unwrap())
        })
        .collect()
}

impl Model {
    pub fn new() -> Model {
        let mut m = Model {
            single: vec![],
            big5_dec: vec![0; 126 * 157],
            big5_enc: vec![0; 0x30000],
            big5_chars: vec![],
            sjis_dec: vec![0; 60 * 188],
            sjis_enc: vec![0; 0x10000],
            sjis_chars: vec![],
            big5_known: HashMap::new(),
        };
        // Single-byte tables.
        let mut cur = "";
        for l in include_str!("../../reference/single_byte.txt").lines() {
            let mut p = l.split(' ');
            let name = p.next().unwrap();
            let b = usize::from_str_radix(p.next().unwrap(), 16).unwrap();
            let c = u32::from_str_radix(p.next().unwrap(), 16).unwrap();
            if name != cur {
                cur = name;
                m.single.push(Single { dec: [NONE; 256], enc: vec![0xFFFF; 0x10000], chars: vec![] });
            }
            let s = m.single.last_mut().unwrap();
            s.dec[b] = c;
            s.enc[c as usize] = b as u16;
            s.chars.push(char::from_u32(c).unwrap());
        }
        // Big5. WHATWG: encode from the index without pointers below (0xA1 - 0x81) * 157 (the Hong Kong
        // supplement), last pointer for six code points, first for the others. This crate also encodes
        // what only the supplement has, instead of reporting it as unencodable (its unit tests ask for it).
        let idx = parse_index(include_str!("../../reference/index_big5.txt"));
        let std_start = (0xA1 - 0x81) * 157;
        for &(p, c) in &idx {
            m.big5_dec[p as usize] = c;
        }
        for pass in 0..2 {
            for &(p, c) in &idx {
                if (pass == 0) != (p >= std_start) {
                    continue;
                }
                let last = pass == 0 && [0x2550, 0x255E, 0x2561, 0x256A, 0x5341, 0x5345].contains(&c);
                let e = &mut m.big5_enc[c as usize];
                if *e == 0 || last {
                    *e = big5_bytes(p);
                }
            }
        }
        for c in 0..0x30000u32 {
            if m.big5_enc[c as usize] != 0 {
                m.big5_chars.push(char::from_u32(c).unwrap());
            }
        }
        // Shift JIS. WHATWG: encode from the index without pointers 8272 to 8835, first pointer. The
        // user-defined rows map back as well (as the crate documents).
        let idx = parse_index(include_str!("../../reference/index_jis0208.txt"));
        for &(p, c) in &idx {
            m.sjis_dec[p as usize] = c;
            if !(8272..=8835).contains(&p) && m.sjis_enc[c as usize] == 0 {
                m.sjis_enc[c as usize] = sjis_bytes(p);
            }
        }
        for p in 8836..=10715u32 {
            let c = p - 8836 + 0xE000;
            m.sjis_dec[p as usize] = c;
            m.sjis_enc[c as usize] = sjis_bytes(p);
        }
        m.sjis_enc[0x2212] = m.sjis_enc[0xFF0D];
        for c in 0..0x10000u32 {
            if m.sjis_enc[c as usize] != 0 || (0xFF61..=0xFF9F).contains(&c) || [0x80, 0xA5, 0x203E].contains(&c) {
                m.sjis_chars.push(char::from_u32(c).unwrap());
            }
        }
        m
    }

    /// Adopt, for the code points listed as known findings only, what the library does now if it is either
    /// what the list says or what the standard says. Returns the code points still as listed.
    pub fn adopt_known(&mut self, file: &str, codec: &Codec) -> Vec<(u32, u16, u16)> {
        let mut still = vec![];
        for l in file.lines() {
            if !l.starts_with("known: property=C07 ") {
                continue;
            }
            let get = |k: &str| {
                let i = l.find(k).unwrap_or_else(|| panic!("known findings: no {k} in {l}")) + k.len();
                u32::from_str_radix(l[i..].split(' ').next().unwrap(), 16).unwrap()
            };
            let (cp, emitted, want) = (get("U+"), get("emits="), get("standard="));
            assert_eq!(self.big5_enc[cp as usize] as u32, want, "known findings: wrong standard bytes for {cp:x}");
            let mut b = [0u8; 8];
            let s = char::from_u32(cp).unwrap().to_string();
            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match (codec.enc)(&s, &mut b, true) {
                Ok((o, _)) if o.len() == 2 => (o[0] as u32) << 8 | o[1] as u32,
                _ => 0,
            }))
            .unwrap_or(0);
            if got == emitted {
                self.big5_enc[cp as usize] = emitted as u16;
                self.big5_known.insert(cp, (emitted as u16, want as u16));
                still.push((cp, emitted as u16, want as u16));
            }
        }
        still
    }

    pub fn big5_pair(a: u32, b: u32) -> Option<u16> {
        match (a, b) {
            (0xCA, 0x304) => Some(0x8862),
            (0xCA, 0x30C) => Some(0x8864),
            (0xEA, 0x304) => Some(0x88A3),
            (0xEA, 0x30C) => Some(0x88A5),
            _ => None,
        }
    }

    /// Bytes of one character, or None. (Not for the Big5 pairs.)
    #[inline]
    pub fn enc_char(&self, fam: Fam, c: char, o: &mut [u8; 4]) -> Option<usize> {
        let u = c as u32;
        let put16 = |o: &mut [u8; 4], i: usize, v: u16, be: bool| {
            let (h, l) = ((v >> 8) as u8, v as u8);
            if be {
                o[i] = h;
                o[i + 1] = l;
            } else {
                o[i] = l;
                o[i + 1] = h;
            }
        };
        match fam {
            Fam::Utf8 => {
                if u < 0x80 {
                    o[0] = u as u8;
                    Some(1)
                } else if u < 0x800 {
                    o[0] = 0xC0 | (u >> 6) as u8;
                    o[1] = 0x80 | (u & 63) as u8;
                    Some(2)
                } else if u < 0x10000 {
                    o[0] = 0xE0 | (u >> 12) as u8;
                    o[1] = 0x80 | (u >> 6 & 63) as u8;
                    o[2] = 0x80 | (u & 63) as u8;
                    Some(3)
                } else {
                    o[0] = 0xF0 | (u >> 18) as u8;
                    o[1] = 0x80 | (u >> 12 & 63) as u8;
                    o[2] = 0x80 | (u >> 6 & 63) as u8;
                    o[3] = 0x80 | (u & 63) as u8;
                    Some(4)
                }
            }
            Fam::Utf16 { be } => {
                if u < 0x10000 {
                    put16(o, 0, u as u16, be);
                    Some(2)
                } else {
                    let v = u - 0x10000;
                    put16(o, 0, 0xD800 + (v / 0x400) as u16, be);
                    put16(o, 2, 0xDC00 + (v % 0x400) as u16, be);
                    Some(4)
                }
            }
            Fam::Utf32 { be } => {
                let b = [0, (u / 0x10000) as u8, (u / 0x100 % 0x100) as u8, (u % 0x100) as u8];
                *o = if be { b } else { [b[3], b[2], b[1], b[0]] };
                Some(4)
            }
            Fam::Big5 => {
                if u < 0x80 {
                    o[0] = u as u8;
                    Some(1)
                } else {
                    match self.big5_enc.get(u as usize) {
                        Some(&v) if v != 0 => {
                            put16(o, 0, v, true);
                            Some(2)
                        }
                        _ => None,
                    }
                }
            }
            Fam::Sjis => {
                let one = match u {
                    0..=0x80 => u,
                    0xA5 => 0x5C,
                    0x203E => 0x7E,
                    0xFF61..=0xFF9F => u - 0xFF61 + 0xA1,
                    _ => NONE,
                };
                if one != NONE {
                    o[0] = one as u8;
                    return Some(1);
                }
                match self.sjis_enc.get(u as usize) {
                    Some(&v) if v != 0 => {
                        put16(o, 0, v, true);
                        Some(2)
                    }
                    _ => None,
                }
            }
            Fam::Single(k) => match self.single[k].enc.get(u as usize) {
                Some(&v) if v != 0xFFFF => {
                    o[0] = v as u8;
                    Some(1)
                }
                _ => None,
            },
        }
    }
}

/// One unit of input, as the standard reads it.
#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Tok {
    /// `len` input bytes convert to `out[..n]`.
    Unit { len: usize, out: [u8; 4], n: usize },
    /// Malformed or unencodable: the error covers `len` input bytes. `tail`: it is an incomplete sequence at
    /// the declared end of the input.
    Bad { len: usize, ch: char, tail: bool },
    /// Incomplete: wait for more input.
    Pending,
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Stop {
    Complete,
    Full,
    Pending,
    Bad { len: usize, ch: char, tail: bool },
}

#[derive(Copy, Clone, Debug)]
pub struct Exp {
    /// Input bytes consumed before the stop, output bytes written (in the scratch vector).
    pub n: usize,
    pub out: usize,
    pub room: usize,
    pub stop: Stop,
    pub units: usize,
}

/// Longest output of one unit.
pub fn max_out(fam: Fam, dir: Dir) -> usize {
    match (dir, fam) {
        (Dir::Dec, Fam::Single(_)) | (Dir::Dec, Fam::Sjis) => 3,
        (Dir::Dec, _) => 4,
        (Dir::Enc, Fam::Single(_)) => 1,
        (Dir::Enc, Fam::Big5) | (Dir::Enc, Fam::Sjis) => 2,
        (Dir::Enc, _) => 4,
    }
}
/// Longest encoded unit.
pub fn max_in(fam: Fam) -> usize {
    match fam {
        Fam::Single(_) => 1,
        Fam::Big5 | Fam::Sjis => 2,
        _ => 4,
    }
}

#[inline]
fn unit(len: usize, c: u32) -> Tok {
    let c = char::from_u32(c).expect("model: not a scalar value");
    let mut out = [0u8; 4];
    let n = c.encode_utf8(&mut out).len();
    Tok::Unit { len, out, n }
}
#[inline]
fn bad(len: usize) -> Tok {
    Tok::Bad { len, ch: '\0', tail: false }
}
#[inline]
fn tail(input: &[u8], pos: usize, end: bool) -> Tok {
    if end {
        Tok::Bad { len: input.len() - pos, ch: '\0', tail: true }
    } else {
        Tok::Pending
    }
}

/// Unicode 15 table 3-7. Some(Ok(len)): well-formed; Some(Err(())): ill-formed; None: incomplete.
#[inline]
fn utf8_seq(b: &[u8]) -> Option<Result<usize, ()>> {
    let (n, lo, hi) = match b[0] {
        0x00..=0x7F => return Some(Ok(1)),
        0xC2..=0xDF => (2, 0x80, 0xBF),
        0xE0 => (3, 0xA0, 0xBF),
        0xED => (3, 0x80, 0x9F),
        0xE1..=0xEF => (3, 0x80, 0xBF),
        0xF0 => (4, 0x90, 0xBF),
        0xF1..=0xF3 => (4, 0x80, 0xBF),
        0xF4 => (4, 0x80, 0x8F),
        _ => return Some(Err(())),
    };
    for i in 1..n {
        match b.get(i) {
            None => return None,
            Some(&x) => {
                let (l, h) = if i == 1 { (lo, hi) } else { (0x80, 0xBF) };
                if x < l || x > h {
                    return Some(Err(()));
                }
            }
        }
    }
    Some(Ok(n))
}

impl Model {
    #[inline]
    pub fn dec_tok(&self, fam: Fam, i: &[u8], pos: usize, end: bool) -> Tok {
        let b = &i[pos..];
        match fam {
            Fam::Utf8 => match utf8_seq(b) {
                Some(Ok(len)) => {
                    let mut out = [0u8; 4];
                    out[..len].copy_from_slice(&b[..len]);
                    Tok::Unit { len, out, n: len }
                }
                None => tail(i, pos, end),
                Some(Err(())) => {
                    let len = 1 + b[1..].iter().take_while(|&&x| x & 0xC0 == 0x80 || x >= 0xF8).count();
                    bad(len)
                }
            },
            Fam::Utf16 { be } => {
                let g = |k: usize| {
                    if be {
                        (b[k] as u32) << 8 | b[k + 1] as u32
                    } else {
                        (b[k + 1] as u32) << 8 | b[k] as u32
                    }
                };
                if b.len() < 2 {
                    return tail(i, pos, end);
                }
                match g(0) {
                    0xDC00..=0xDFFF => bad(2),
                    h @ 0xD800..=0xDBFF => {
                        if b.len() < 4 {
                            return tail(i, pos, end);
                        }
                        match g(2) {
                            l @ 0xDC00..=0xDFFF => unit(4, 0x10000 + (h - 0xD800) * 0x400 + (l - 0xDC00)),
                            _ => bad(2),
                        }
                    }
                    u => unit(2, u),
                }
            }
            Fam::Utf32 { be } => {
                if b.len() < 4 {
                    return tail(i, pos, end);
                }
                let u = if be {
                    (b[0] as u32) << 24 | (b[1] as u32) << 16 | (b[2] as u32) << 8 | b[3] as u32
                } else {
                    (b[3] as u32) << 24 | (b[2] as u32) << 16 | (b[1] as u32) << 8 | b[0] as u32
                };
                match u {
                    0..=0xD7FF | 0xE000..=0x10FFFF => unit(4, u),
                    _ => bad(4),
                }
            }
            Fam::Big5 => {
                let lead = b[0];
                if lead < 0x80 {
                    return unit(1, lead as u32);
                }
                if lead == 0x80 || lead == 0xFF {
                    return bad(1);
                }
                if b.len() < 2 {
                    return tail(i, pos, end);
                }
                let t = b[1];
                let p = match t {
                    0x40..=0x7E => (lead as usize - 0x81) * 157 + t as usize - 0x40,
                    0xA1..=0xFE => (lead as usize - 0x81) * 157 + t as usize - 0x62,
                    _ => usize::MAX,
                };
                let pair = |c: char, m: char| {
                    let mut out = [0u8; 4];
                    c.encode_utf8(&mut out[..2]);
                    m.encode_utf8(&mut out[2..]);
                    Tok::Unit { len: 2, out, n: 4 }
                };
                match p {
                    1133 => pair('\u{CA}', '\u{304}'),
                    1135 => pair('\u{CA}', '\u{30C}'),
                    1164 => pair('\u{EA}', '\u{304}'),
                    1166 => pair('\u{EA}', '\u{30C}'),
                    _ => match self.big5_dec.get(p) {
                        Some(&c) if c != 0 => unit(2, c),
                        _ => bad(if t < 0x80 { 1 } else { 2 }),
                    },
                }
            }
            Fam::Sjis => {
                let lead = b[0];
                match lead {
                    0..=0x80 => return unit(1, lead as u32),
                    0xA1..=0xDF => return unit(1, lead as u32 - 0xA1 + 0xFF61),
                    0xA0 | 0xFD..=0xFF => return bad(1),
                    _ => {}
                }
                if b.len() < 2 {
                    return tail(i, pos, end);
                }
                let t = b[1];
                let l = lead as usize - if lead < 0xA0 { 0x81 } else { 0xC1 };
                let p = match t {
                    0x40..=0x7E => l * 188 + t as usize - 0x40,
                    0x80..=0xFC => l * 188 + t as usize - 0x41,
                    _ => usize::MAX,
                };
                match self.sjis_dec.get(p) {
                    Some(&c) if c != 0 => unit(2, c),
                    _ => bad(if t < 0x80 { 1 } else { 2 }),
                }
            }
            Fam::Single(k) => match self.single[k].dec[b[0] as usize] {
                NONE => bad(1),
                c => unit(1, c),
            },
        }
    }

    #[inline]
    pub fn enc_tok(&self, fam: Fam, s: &str, pos: usize, end: bool) -> Tok {
        let mut it = s[pos..].chars();
        let c = it.next().unwrap();
        let len = c.len_utf8();
        let mut out = [0u8; 4];
        if fam == Fam::Big5 && (c == '\u{CA}' || c == '\u{EA}') {
            match it.next() {
                Some(d) => {
                    if let Some(v) = Model::big5_pair(c as u32, d as u32) {
                        out[0] = (v >> 8) as u8;
                        out[1] = v as u8;
                        return Tok::Unit { len: len + d.len_utf8(), out, n: 2 };
                    }
                }
                None if !end => return Tok::Pending,
                None => {}
            }
        }
        match self.enc_char(fam, c, &mut out) {
            Some(n) => Tok::Unit { len, out, n },
            None => Tok::Bad { len, ch: c, tail: false },
        }
    }

    #[inline]
    pub fn tok(&self, fam: Fam, dir: Dir, input: &[u8], pos: usize, end: bool) -> Tok {
        match dir {
            Dir::Dec => self.dec_tok(fam, input, pos, end),
            // Encode cases always hold valid UTF-8.
            Dir::Enc => self.enc_tok(fam, unsafe { std::str::from_utf8_unchecked(input) }, pos, end),
        }
    }

    /// The expected course of one call; its output goes to `out`.
    pub fn call(&self, fam: Fam, dir: Dir, input: &[u8], cap: usize, end: bool, out: &mut Vec<u8>) -> Exp {
        out.clear();
        let mut pos = 0;
        let mut units = 0;
        let stop = loop {
            if pos == input.len() {
                break Stop::Complete;
            }
            match self.tok(fam, dir, input, pos, end) {
                Tok::Unit { len, out: o, n } => {
                    if out.len() + n > cap {
                        break Stop::Full;
                    }
                    out.extend_from_slice(&o[..n]);
                    pos += len;
                    units += 1;
                }
                Tok::Pending => break Stop::Pending,
                Tok::Bad { len, ch, tail } => break Stop::Bad { len, ch, tail },
            }
        };
        Exp { n: pos, out: out.len(), room: cap - out.len(), stop, units }
    }
}
