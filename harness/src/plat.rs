//! C23: one workload, no reference data, no operating system: run where pointers are 32 bits wide or the byte order is
//! the other one, and compared call by call with what happens here.
use crate::codecs::{Codec, Fam};
#[allow(unused_imports)]
use crate::prelude::*;
use crate::toks::*;

/// What the workload needs from its surroundings.
pub trait Host {
    /// Makes the call and says what came of it; `false` for a panic.
    fn call(&mut self, c: &Codec, enc: bool, input: &[u8], out: &mut [u8], end: bool) -> Res;
    /// The results of a group are complete.
    fn group(&mut self, name: &str, enc: bool, group: u32, calls: u64, digest: u64, outcomes: [u64; 4]);
    /// In a group looked at in detail.
    fn detail(&mut self, _k: u64, _input: &[u8], _fill: u8, _cap: usize, _end: bool, _r: &Res, _digest: u64) {}
}

#[derive(Debug, Clone, PartialEq)]
pub enum Res {
    Ok { n: usize, len: usize },
    Err { start: usize, end: usize, ch: u32, written: usize, invalid: bool },
    #[allow(dead_code)]
    Panic,
}

/// Most of what 31 bits can address.
#[allow(dead_code)]
pub const BIG: usize = 0x6AAA_AAAA;

#[allow(dead_code)]
pub fn plain(c: &Codec, enc: bool, input: &[u8], out: &mut [u8], end: bool) -> Res {
    if enc {
        // The workload only encodes strings made of whole characters.
        match (c.enc)(unsafe { core::str::from_utf8_unchecked(input) }, out, end) {
            Ok((o, n)) => Res::Ok { n, len: o.len() },
            Err(e) => Res::Err { start: e.error_range.0, end: e.error_range.1, ch: e.character as u32, written: e.output_bytes_written, invalid: true },
        }
    } else {
        match (c.dec)(input, out, end) {
            Ok((o, n)) => Res::Ok { n, len: o.len() },
            Err(e) => Res::Err {
                start: e.error_range.0,
                end: e.error_range.1,
                ch: 0,
                written: e.output_bytes_written,
                invalid: e.cause == text_encoding::DecodeErrorCause::InvalidData,
            },
        }
    }
}

pub struct Work<'a> {
    pub host: &'a mut dyn Host,
    pub seed: u64,
    pub detailed: bool,
    calls: u64,
    digest: u64,
    outcomes: [u64; 4],
    inb: Vec<u8>,
    outb: Vec<u8>,
}

fn mix(h: u64, x: u64) -> u64 {
    let h = (h ^ x).wrapping_mul(0x9FB2_1C65_1E98_DF25);
    h ^ (h >> 29)
}

fn len_of(u: &[Vec<u8>]) -> usize {
    u.iter().map(|x| x.len()).sum()
}

/// 0: for an interpreter. 1: for a machine. 2: for a machine, longer. 3: inputs and buffers near the end of 32 bits.
pub const GROUPS: [&[u32]; 4] = [&[0, 2, 3, 9], &[0, 1, 2, 3, 4, 5, 6, 9], &[0, 1, 2, 3, 4, 5, 6, 7, 9], &[8]];

impl<'a> Work<'a> {
    pub fn new(host: &'a mut dyn Host, seed: u64, detailed: bool) -> Work<'a> {
        Work { host, seed, detailed, calls: 0, digest: 0, outcomes: [0; 4], inb: Vec::new(), outb: Vec::new() }
    }

    fn record(&mut self, c: &Codec, enc: bool, input: &[u8], out: &mut [u8], fill: u8, end: bool) -> Res {
        let r = self.host.call(c, enc, input, out, end);
        let mut h = self.digest;
        let mut shown = 0;
        match r {
            Res::Ok { n, len } => {
                self.outcomes[if n == input.len() { 0 } else { 1 }] += 1;
                h = mix(mix(mix(h, 1), n as u64), len as u64);
                shown = len;
            }
            Res::Err { start, end, ch, written, invalid } => {
                self.outcomes[2] += 1;
                for x in [2 + invalid as u64, start as u64, end as u64, ch as u64, written as u64] {
                    h = mix(h, x);
                }
                shown = written;
            }
            Res::Panic => {
                self.outcomes[3] += 1;
                h = mix(h, 9)
            }
        }
        let mut it = out[..shown.min(out.len())].chunks(8);
        while let Some(x) = it.next() {
            let mut w = [0u8; 8];
            w[..x.len()].copy_from_slice(x);
            h = mix(h, u64::from_le_bytes(w));
        }
        self.digest = mix(h, 7);
        self.calls += 1;
        if self.detailed {
            let d = self.digest;
            self.host.detail(self.calls, input, fill, out.len(), end, &r, d);
        }
        r
    }

    /// One input with one room, with both end flags where there are two.
    fn one(&mut self, c: &Codec, enc: bool, input: &[u8], cap: usize) {
        let flag = if enc { c.enc_end } else { c.dec_end };
        for end in [true, false] {
            if !end && !flag {
                break;
            }
            let mut o = core::mem::take(&mut self.outb);
            let mut i = core::mem::take(&mut self.inb);
            // Not always aligned.
            let a = (self.calls % 9) as usize;
            let b = (self.calls % 7) as usize;
            // (an interpreter takes long to lengthen a vector, but not to fill a slice)
            if i.len() < a + input.len() {
                i = vec![0; (a + input.len()) * 2 + 64];
            }
            if o.len() < b + cap {
                o = vec![0; (b + cap) * 2 + 64];
            }
            let i_ = &mut i[a..a + input.len()];
            i_.copy_from_slice(input);
            let o_ = &mut o[b..b + cap];
            o_.fill(0xAA);
            self.record(c, enc, i_, o_, 0, end);
            self.inb = i;
            self.outb = o;
        }
    }

    fn run_group(&mut self, c: &Codec, enc: bool, toks: &[Vec<u8>], g: u32, level: u32) {
        let mut rng = Rng::new(self.seed ^ (g as u64) << 8 ^ (enc as u64) << 4 ^ (c.name.len() as u64) << 20 ^ c.name.bytes().fold(0, |h: u64, b| h.wrapping_mul(31).wrapping_add(b as u64)) << 24);
        let rng = &mut rng;
        let single = matches!(c.fam, Fam::Single(_));
        let nt = toks.len();
        // An interpreter gets a part of each.
        let slow = level == 0;
        match g {
            0 => {
                for t in toks {
                    if slow && single && !rng.one_in(2) {
                        continue;
                    }
                    for cap in if slow { [2usize, 3, 8].iter() } else { [0usize, 1, 2, 3, 4, 5, 8].iter() } {
                        self.one(c, enc, t, *cap);
                    }
                }
            }
            1 => {
                for k in 0..nt * nt {
                    let (a, b) = (k / nt, k % nt);
                    if nt > 60 && k % 7 != 0 {
                        continue;
                    }
                    let mut v = toks[a].clone();
                    v.extend_from_slice(&toks[b]);
                    for cap in [3, 4, 6, 16] {
                        self.one(c, enc, &v, cap);
                    }
                }
            }
            2 => {
                // Fast paths that look at several bytes at once: something different at each place.
                let step = if slow { if single { 20 } else { 2 } } else { 1 };
                let mut k = if slow { rng.below(step) } else { 0 };
                while k < 24 * 3 {
                    let (n, f) = (k / 3, k % 3);
                    let mut unit = match (f, enc, c.fam) {
                        (0, true, _) => b"a".to_vec(),
                        (0, false, Fam::Utf16 { be: true }) => b"\0a".to_vec(),
                        (0, false, Fam::Utf16 { be: false }) => b"a\0".to_vec(),
                        (0, false, Fam::Utf32 { be: true }) => b"\0\0\0a".to_vec(),
                        (0, false, Fam::Utf32 { be: false }) => b"a\0\0\0".to_vec(),
                        (0, false, _) => b"a".to_vec(),
                        _ => toks[rng.below(nt)].clone(),
                    };
                    if unit.is_empty() {
                        unit.push(b'a');
                    }
                    let mut v: Vec<u8> = Vec::new();
                    for _ in 0..n {
                        v.extend_from_slice(&unit);
                    }
                    let special = &toks[rng.below(nt)];
                    v.extend_from_slice(special);
                    for _ in 0..rng.below(20) {
                        v.extend_from_slice(&unit);
                    }
                    let top = v.len() * 2 + 8;
                    self.one(c, enc, &v, top * 2);
                    if !slow {
                        self.one(c, enc, &v, rng.below(top));
                    }
                    k += 1 + rng.below(step);
                }
            }
            3 => {
                for _ in 0..if slow { if single { 4 } else { 40 } } else { 600 } {
                    let v = self.sequence(toks, 1 + rng.below(6), rng);
                    let top = v.len() * 2 + 4;
                    let cap = if rng.one_in(2) { top } else { rng.below(top) };
                    self.one(c, enc, &v, cap);
                }
            }
            4 => {
                // Every character.
                if !enc {
                    for u in 0..0x10000u32 {
                        let v = [(u >> 8) as u8, u as u8];
                        if single && u > 255 {
                            break;
                        }
                        let v = if single { &v[1..] } else { &v[..] };
                        self.one(c, enc, v, 4);
                    }
                }
                let mut u = 0;
                while u < 0x110000u32 {
                    if let Some(ch) = char::from_u32(u) {
                        let mut t = [0; 4];
                        let s = ch.encode_utf8(&mut t);
                        if enc {
                            self.one(c, enc, s.as_bytes(), 4);
                        } else if !single {
                            let v = match c.fam {
                                Fam::Utf16 { be } => {
                                    let mut w = [0; 2];
                                    ch.encode_utf16(&mut w).iter().flat_map(|x| if be { x.to_be_bytes() } else { x.to_le_bytes() }).collect::<Vec<u8>>()
                                }
                                Fam::Utf32 { be: true } => u.to_be_bytes().to_vec(),
                                Fam::Utf32 { be: false } => u.to_le_bytes().to_vec(),
                                _ => s.as_bytes().to_vec(),
                            };
                            self.one(c, enc, &v, 4);
                        }
                    }
                    u += if u >= 0x10000 && single { 97 } else { 1 };
                }
            }
            5 | 7 => {
                for _ in 0..if g == 5 { 60 } else { 4000 } {
                    let k = rng.below(400);
                    let v = self.sequence(toks, k, rng);
                    let top = v.len() * 3 + 4;
                    let cap = if rng.one_in(2) { top } else { rng.below(top) };
                    self.one(c, enc, &v, cap);
                }
            }
            6 => {
                for n in [255usize, 256, 257, 4095, 4096, 4097, 65_535, 65_536, 65_537, 200_000] {
                    let good: Vec<Vec<u8>> = match enc {
                        true => [b"a".to_vec(), toks[rng.below(nt)].clone(), b"zz".to_vec()].to_vec(),
                        false => [toks[0].clone(), toks[rng.below(nt)].clone(), toks[1].clone()].to_vec(),
                    };
                    let mut v: Vec<u8> = Vec::new();
                    while v.len() < n {
                        let k = if rng.one_in(50) { 1 } else { 0 };
                        v.extend_from_slice(&good[k]);
                    }
                    v.extend_from_slice(&good[1]);
                    v.extend_from_slice(&good[2]);
                    let room = v.len() * 4 + 8;
                    for cap in [room, n, len_of(&good), rng.below(n)] {
                        self.one(c, enc, &v, cap);
                    }
                }
            }
            9 => {
                // Characters of all tables.
                let n = match (slow, single) {
                    (true, true) => 4,
                    (true, false) => 40,
                    _ => 1000,
                };
                for _ in 0..n {
                    let mut v: Vec<u8> = Vec::new();
                    for _ in 0..1 + rng.below(8) {
                        if enc {
                            let lo = [0x80, 0x380, 0x2000, 0x3000, 0x4E00, 0x4E00, 0xAC00, 0xE000, 0xFF00, 0x1F000, 0x20000][rng.below(11)];
                            let ch = char::from_u32(lo + rng.below(if lo == 0x4E00 || lo == 0x20000 { 0x5200 } else { 0x200 }) as u32).unwrap_or('z');
                            let mut t = [0; 4];
                            v.extend_from_slice(ch.encode_utf8(&mut t).as_bytes());
                        } else {
                            let x = rng.next();
                            match c.fam {
                                Fam::Utf32 { be: true } => v.extend_from_slice(&[0, (x >> 20) as u8 & 0x10, (x >> 8) as u8, x as u8]),
                                Fam::Utf32 { be: false } => v.extend_from_slice(&[x as u8, (x >> 8) as u8, (x >> 20) as u8 & 0x10, 0]),
                                Fam::Utf8 => v.extend_from_slice(&[0xE1 + (x >> 12) as u8 % 12, 0x80 | (x >> 6) as u8 & 0x3F, 0x80 | x as u8 & 0x3F]),
                                Fam::Big5 | Fam::Sjis => v.extend_from_slice(&[0x81 + (x >> 8) as u8 % 0x7E, 0x40 + x as u8 % 0xBF]),
                                _ => v.extend_from_slice(&[(x >> 8) as u8, x as u8]),
                            }
                        }
                    }
                    let top = v.len() * 2 + 4;
                    let cap = if rng.one_in(4) { rng.below(top) } else { top };
                    self.one(c, enc, &v, cap);
                }
            }
            _ => {}
        }
    }

    fn sequence(&self, toks: &[Vec<u8>], n: usize, rng: &mut Rng) -> Vec<u8> {
        let mut v: Vec<u8> = Vec::new();
        let few = rng.one_in(2);
        let (a, b) = (rng.below(toks.len()), rng.below(toks.len()));
        for _ in 0..n {
            let k = if few && !rng.one_in(20) { if rng.one_in(3) { a } else { b } } else { rng.below(toks.len()) };
            v.extend_from_slice(&toks[k]);
            if rng.one_in(8) {
                let k = rng.below(30);
                for _ in 0..k {
                    v.extend_from_slice(&toks[0]);
                }
            }
        }
        v
    }

    /// Inputs and output buffers of gigabytes: lengths that do not stand being doubled in 32 bits. The calls stop
    /// soon, because the other side is small.
    fn huge(&mut self, codecs: &[Codec], big: &mut [u8]) {
        for c in codecs {
            for enc in [true, false] {
                let flag = if enc { c.enc_end } else { c.dec_end };
                for n in [0x2000_0001usize, 0x3FFF_FFFF, 0x4000_0001, 0x5555_5555, 0x5555_5556, big.len()] {
                    if n > big.len() {
                        continue;
                    }
                    for cap in [0usize, 3, 16, 61] {
                        let mut out = [0xAAu8; 64];
                        self.record(c, enc, &big[..n], &mut out[..cap], 0, flag && cap % 2 == 0);
                    }
                }
                let toks = if enc { base_enc(c.fam) } else { base_dec(c.fam) };
                for n in [0x4000_0001usize, 0x5555_5556, big.len()] {
                    if n > big.len() {
                        continue;
                    }
                    for t in toks.iter().step_by(3) {
                        self.record(c, enc, t, &mut big[..n], b'a', true);
                        big[..64].fill(b'a');
                    }
                }
                self.finish(c, enc, 8);
            }
        }
    }

    fn finish(&mut self, c: &Codec, enc: bool, g: u32) {
        let (n, d, o) = (self.calls, self.digest, self.outcomes);
        self.calls = 0;
        self.digest = 0;
        self.outcomes = [0; 4];
        self.host.group(c.name, enc, g, n, d, o);
    }

    /// All groups of a level (one only: in detail), for every `parts`-th codec and direction.
    pub fn run(&mut self, codecs: &[Codec], level: u32, part: usize, parts: usize, only: Option<(&str, bool, u32)>, big: &mut [u8]) {
        if level == 3 {
            self.huge(codecs, big);
            return;
        }
        for (k, c) in codecs.iter().enumerate() {
            for enc in [true, false] {
                if (k * 2 + enc as usize) % parts != part {
                    continue;
                }
                let toks = if enc { base_enc(c.fam) } else { base_dec(c.fam) };
                for &g in GROUPS[level as usize] {
                    if only.map_or(false, |o| o != (c.name, enc, g)) {
                        continue;
                    }
                    self.run_group(c, enc, &toks, g, level);
                    self.finish(c, enc, g);
                }
            }
        }
    }
}
