//! Workloads: which calls the monitors get to observe. Everything here is a function of the seed, the tier
//! and the dictionary, never of what the library returned, so that a case can be found again by its number.
use crate::case::Case;
use crate::codecs::{Codec, Fam};
use crate::model::*;
use crate::toks::*;

/// Numbers, characters and strings that occur in the library's source: only used to aim the workload.
#[derive(Default)]
pub struct Dict {
    pub nums: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
}
impl Dict {
    pub fn parse(s: &str) -> Dict {
        let mut d = Dict::default();
        for l in s.lines() {
            if let Some(n) = l.strip_prefix("n ") {
                d.nums.extend(n.parse::<u64>().ok());
            } else if let Some(h) = l.strip_prefix("s ") {
                d.strs.push((0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect());
            }
        }
        d
    }
    fn lens(&self) -> Vec<usize> {
        let mut v: Vec<usize> = vec![];
        for &n in &self.nums {
            if n <= 300_000 {
                for k in [n.saturating_sub(1), n, n + 1] {
                    v.push(k as usize);
                }
            }
        }
        v.sort();
        v.dedup();
        v
    }
    fn chars(&self) -> Vec<char> {
        let mut v: Vec<char> = vec![];
        for &n in &self.nums {
            if n <= 0x10FFFF {
                for k in [n.saturating_sub(1), n, n + 1] {
                    v.extend(char::from_u32(k as u32));
                }
            }
        }
        v.sort();
        v.dedup();
        v
    }
}

#[derive(Copy, Clone, PartialEq, Debug)]
pub enum Mode {
    All,
    Few,
    One,
}

#[derive(Clone, Debug)]
pub enum Kind {
    /// Encode every scalar value in the range.
    Scalars(u32, u32),
    /// Decode the encoding of every encodable scalar value in the range.
    ScalarsDec(u32, u32),
    /// Decode all strings of one and two bytes, in some contexts (first byte in range).
    Bytes2(u32, u32),
    /// Decode all strings of three bytes (first byte in range).
    Bytes3(u32, u32),
    /// Decode all UTF-16 unit pairs (first unit in range).
    Units(u32, u32),
    /// Decode UTF-32 values.
    Words(u64, u64),
    /// All sequences of this many tokens, by index.
    Seq(usize, u64, u64),
    /// Random sequences of this many tokens.
    SeqRand(usize, u32),
    /// Runs of one token before, between and behind others.
    Runs(usize, usize),
    /// Random texts of random shape.
    Rand(u32, usize),
    /// Long random texts.
    Big(u32, usize),
    /// Aimed at the numbers in the source.
    DictK(u32, u32),
    /// Random pairs and triples of characters of the encoding.
    Neigh(u32),
    /// Characters before and behind those that software tends to treat specially (by index).
    Pairs(usize, usize),
    /// All pairs of characters of a single-byte encoding (by index of the first).
    Both(usize, usize),
    /// One unit of every kind at, before and behind multiples of likely block sizes of the input or output (by index).
    Block(usize, usize),
    /// One unit of every kind (errors and incomplete units too) far into an otherwise valid input.
    Far(usize),
}

#[derive(Clone, Debug)]
pub struct Item {
    pub codec: usize,
    pub dir: Dir,
    pub kind: Kind,
}

/// What a runner does with each case.
pub trait Sink {
    /// False: stop.
    fn case(&mut self, c: &Case) -> bool;
}

pub struct Gen<'m> {
    pub m: &'m Model,
    pub codecs: &'m [Codec],
    pub prop: u32,
    pub seed: u64,
    pub dec_toks: Vec<Vec<Vec<u8>>>,
    pub enc_toks: Vec<Vec<Vec<u8>>>,
    lens: Vec<usize>,
    dchars: Vec<char>,
    dstrs: Vec<Vec<u8>>,
    dnums: Vec<u64>,
}

/// Characters that text processing likes to compose, strip, translate, stop at or otherwise treat specially.
pub const SPECIAL: &[u32] = &[
    0, 8, 9, 0xA, 0xD, 0xE, 0xF, 0x1A, 0x1B, 0x20, 0x22, 0x26, 0x27, 0x3F, 0x5C, 0x60, 0x7E, 0x7F, 0x80, 0x85, 0xA0, 0xA5, 0xAD, 0xB4, 0xCA, 0xDF,
    0xE4, 0xE9, 0xEA, 0xFF, 0x131, 0x300, 0x301, 0x304, 0x308, 0x30C, 0x323, 0x327, 0x345, 0x3C3, 0x5B0, 0x627, 0x651, 0x93C, 0xE33, 0xE48, 0x1100, 0x1161,
    0x11A8, 0xAC00, 0x200B, 0x200C, 0x200D, 0x200E, 0x200F, 0x2019, 0x2028, 0x2029, 0x202A, 0x202E, 0x203E, 0x2060, 0x20AC, 0x20DD, 0x2126, 0x212A,
    0x212B, 0x2212, 0x3000, 0x301C, 0x3099, 0x309A, 0x30AB, 0x30FC, 0xE000, 0xF8FF, 0xFB01, 0xFDD0, 0xFE0E, 0xFE0F, 0xFEFF, 0xFF0D, 0xFF21, 0xFF5E, 0xFF76,
    0xFF9E, 0xFF9F, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF, 0x1D165, 0x1F1E6, 0x1F3FB, 0x1F600, 0x1FFFE, 0x2000B, 0xE0001, 0xE0020, 0xE0100, 0xF0000, 0x10FFFF,
];

pub const BLOCKS: &[usize] = &[8, 16, 32, 64, 128, 256, 512, 100, 1000, 1024, 2048, 4096, 8192, 10_000, 16_384, 32_768, 65_536];

/// Tokens without a model.
pub fn plain_tokens(fam: Fam, dir: Dir, seed: u64) -> Vec<Vec<u8>> {
    let mut r = Rng::new(seed);
    match (fam, dir) {
        (Fam::Single(_), Dir::Dec) => {
            let mut v = hexes("41 00 7f 80 a0 ff 9f bf");
            for _ in 0..6 {
                v.push(vec![0x80 + r.below(128) as u8, b'a', r.next() as u8]);
            }
            v
        }
        (Fam::Single(_), Dir::Enc) => enc_list(&[0x41, 0, 0x7F, 0x80, 0xA0, 0xE9, 0x3A9, 0x411, 0x5D0, 0x20AC, 0xFFFD, 0x10FFFF]),
        (_, Dir::Dec) => base_dec(fam),
        (_, Dir::Enc) => base_enc(fam),
    }
}

fn dec_tokens(m: &Model, fam: Fam) -> Vec<Vec<u8>> {
    match fam {
        Fam::Single(k) => {
            let s = &m.single[k];
            let mut v = hexes("41 00 7f 0a 80 a0 ff 9f bf");
            for b in 0..256usize {
                let hole = s.dec[b] == 0xFFFF_FFFF && b >= 128;
                // Undefined bytes, and bytes whose character is unusual in length.
                if hole || (b >= 128 && b % 13 == k % 13) {
                    v.push(vec![b as u8]);
                }
            }
            v.sort();
            v.dedup();
            while v.len() > 24 {
                v.swap_remove(9);
            }
            v
        }
        _ => base_dec(fam),
    }
}
fn enc_tokens(m: &Model, fam: Fam) -> Vec<Vec<u8>> {
    let mut v = match fam {
        Fam::Single(k) => {
            let s = &m.single[k];
            let mut v = vec![0x41u32, 0, 0x7F, 0x0A, 0x80, 0x9F, 0xA0, 0xFF, 0x3A9, 0x20AC, 0xFEFF, 0xFFFD, 0x10000, 0x10FFFF];
            for (i, c) in s.chars.iter().enumerate() {
                if i >= 128 && (i % 13 == k % 13) {
                    v.push(*c as u32);
                }
            }
            // A neighbour of the first and last in code point order that is not encodable.
            if s.chars.len() > 128 {
                let hi = s.chars.iter().max().unwrap();
                v.push(*hi as u32);
                v.push(*hi as u32 + 1);
            }
            v
        }
        _ => return base_enc(fam),
    };
    v.sort();
    v.dedup();
    enc_list(&v)
}

impl<'m> Gen<'m> {
    pub fn new(m: &'m Model, codecs: &'m [Codec], prop: u32, seed: u64, d: &Dict) -> Gen<'m> {
        Gen {
            m,
            codecs,
            prop,
            seed,
            dec_toks: codecs.iter().map(|c| dec_tokens(m, c.fam)).collect(),
            enc_toks: codecs.iter().map(|c| enc_tokens(m, c.fam)).collect(),
            lens: d.lens(),
            dchars: d.chars(),
            dstrs: d.strs.clone(),
            dnums: d.nums.clone(),
        }
    }

    fn toks(&self, codec: usize, dir: Dir) -> &Vec<Vec<u8>> {
        if dir == Dir::Dec {
            &self.dec_toks[codec]
        } else {
            &self.enc_toks[codec]
        }
    }

    pub fn stream(&self) -> bool {
        matches!(self.prop, 16 | 17 | 24)
    }

    /// The codecs and directions a property speaks about.
    pub fn scope(&self) -> Vec<(usize, Dir)> {
        let mut v = vec![];
        for (i, c) in self.codecs.iter().enumerate() {
            for dir in [Dir::Enc, Dir::Dec] {
                let take = match self.prop {
                    3 => matches!(c.fam, Fam::Single(_)),
                    4 => c.fam == Fam::Utf8,
                    5 => matches!(c.fam, Fam::Utf16 { .. }),
                    6 => matches!(c.fam, Fam::Utf32 { .. }),
                    7 => c.fam == Fam::Big5,
                    8 => c.fam == Fam::Sjis,
                    10 | 13 | 17 => dir == Dir::Enc,
                    24 => dir == Dir::Dec,
                    11 | 14 | 16 => dir == Dir::Dec,
                    15 => (dir == Dir::Dec && c.dec_end) || (dir == Dir::Enc && c.enc_end),
                    19 => matches!(c.fam, Fam::Utf16 { be: true } | Fam::Utf32 { be: true }),
                    _ => true,
                };
                if take {
                    v.push((i, dir));
                }
            }
        }
        v
    }

    /// `scale`: 1 for the quick tier; the thorough one takes more, and other seeds.
    pub fn plan(&self, thorough: bool, part: u32) -> Vec<Item> {
        let scope = self.scope();
        let stream = self.stream();
        let mut v = vec![];
        let total: f64 = scope.iter().map(|&(c, _)| if matches!(self.codecs[c].fam, Fam::Single(_)) { 0.4 } else { 2.0 }).sum();
        // "part": percent of the random budget (the second build runs less).
        let budget = (if thorough { 60.0 } else { 1.0 }) * part as f64 / 100.0;
        for &(codec, dir) in &scope {
            let fam = self.codecs[codec].fam;
            let single = matches!(fam, Fam::Single(_));
            let w = (if single { 0.4 } else { 2.0 }) / total;
            let mut add = |kind| v.push(Item { codec, dir, kind });
            // Exhaustive spaces.
            if dir == Dir::Enc {
                let uni = matches!(fam, Fam::Utf8 | Fam::Utf16 { .. } | Fam::Utf32 { .. });
                if !stream || uni || thorough {
                    for k in 0..17u32 {
                        if !(stream && k > 2 && !thorough) {
                            add(Kind::Scalars(k << 16, (k + 1) << 16));
                        }
                    }
                } else {
                    add(Kind::Scalars(0, 0x3000));
                    add(Kind::Scalars(0x3000, 0x10000));
                }
            } else {
                match fam {
                    Fam::Single(_) => add(Kind::Bytes2(0, 256)),
                    Fam::Utf16 { .. } => {
                        for k in 0..8 {
                            add(Kind::Bytes2(k * 32, (k + 1) * 32));
                        }
                        if self.prop == 5 || self.prop == 19 || (self.prop == 14 && thorough) || (self.prop <= 2 && thorough) {
                            for k in 0..32 {
                                add(Kind::Units(0xD800 + k * 64, 0xD800 + (k + 1) * 64));
                            }
                        }
                        for k in 0..if stream { 2 } else { 17u32 } {
                            add(Kind::ScalarsDec(k << 16, (k + 1) << 16));
                        }
                    }
                    Fam::Utf32 { .. } => {
                        for k in 0..4 {
                            add(Kind::Bytes2(k * 64, (k + 1) * 64));
                        }
                        for k in 0..if stream { 2 } else { 18u64 } {
                            add(Kind::Words(k << 16, (k + 1) << 16));
                        }
                        if (self.prop == 6 || self.prop == 19) && thorough {
                            for k in 0..256u64 {
                                add(Kind::Words(k << 24, (k + 1) << 24));
                            }
                        }
                    }
                    _ => {
                        for k in 0..16 {
                            add(Kind::Bytes2(k * 16, (k + 1) * 16));
                        }
                        if matches!(self.prop, 4 | 7 | 8) || thorough {
                            for k in 0..128 {
                                add(Kind::Bytes3(k * 2, (k + 1) * 2));
                            }
                        }
                        if fam == Fam::Utf8 {
                            for k in 0..if stream { 2 } else { 17u32 } {
                                add(Kind::ScalarsDec(k << 16, (k + 1) << 16));
                            }
                        } else if !stream {
                            add(Kind::ScalarsDec(0, 0x8000));
                            add(Kind::ScalarsDec(0x8000, 0x30000));
                        }
                    }
                }
            }
            let nt = self.toks(codec, dir).len() as u64;
            for len in 1..=if (single && !thorough) || (stream && !thorough) { 2 } else { 3usize } {
                let tot = nt.pow(len as u32);
                let step = 4000;
                let mut a = 0;
                while a < tot {
                    add(Kind::Seq(len, a, (a + step).min(tot)));
                    a += step;
                }
            }
            // Sampled spaces: the budget is shared out.
            let n = |x: f64| ((x * budget * w).ceil() as u32).max(1);
            let slow = if stream { 0.25 } else { 1.0 };
            for _ in 0..n(600.0) {
                add(Kind::SeqRand(4, (700.0 * slow) as u32));
                add(Kind::SeqRand(6, (300.0 * slow) as u32));
            }
            let nruns = if single { 6 } else { 24 };
            for k in 0..nruns {
                add(Kind::Runs(k, nruns));
            }
            for _ in 0..n(900.0) {
                add(Kind::Rand((900.0 * slow) as u32, 48));
                add(Kind::Rand((250.0 * slow) as u32, 300));
                add(Kind::Rand((40.0 * slow) as u32, 3000));
            }
            for _ in 0..n(500.0) {
                add(Kind::Neigh((3000.0 * slow) as u32));
            }
            for _ in 0..n(160.0) {
                add(Kind::Big((12.0 * slow) as u32, 9000));
                add(Kind::Big(((4.0 * slow) as u32).max(2), 70_000));
            }
            for _ in 0..n(16.0) {
                add(Kind::Big(1, 300_000));
                add(Kind::Big(1, 1_200_000));
            }
            if thorough && !single {
                add(Kind::Big(1, 20_000_000));
            }
            for k in 0..8 {
                add(Kind::DictK(k, 8));
            }
            let of = if single { 2 } else { 16 };
            for k in 0..of {
                add(Kind::Pairs(k, of));
                if single && dir == Dir::Enc && !stream {
                    add(Kind::Both(k, of));
                }
            }
            let of = if single { 2 } else { 6 };
            for k in 0..if self.prop == 9 { 0 } else { of } {
                add(Kind::Block(k, of));
            }
            add(Kind::Far(70_000));
            if !single || part >= 50 {
                add(Kind::Far(1_100_000));
            }
            if thorough && !single {
                add(Kind::Far(17_000_000));
            }
        }
        v
    }

    pub fn kinds(&self, codec: usize, dir: Dir, per: usize, rng: &mut Rng) -> Vec<Vec<u8>> {
        self.one_of_each_kind(codec, dir, per, rng, &mut vec![])
    }

    /// Some tokens for each different thing that can come of one: what kind of stop, how long, how much output.
    fn one_of_each_kind(&self, codec: usize, dir: Dir, per: usize, rng: &mut Rng, buf: &mut Vec<u8>) -> Vec<Vec<u8>> {
        let fam = self.codecs[codec].fam;
        let mut v: Vec<Vec<u8>> = self.toks(codec, dir).clone();
        for i in (1..v.len()).rev() {
            v.swap(i, rng.below(i + 1));
        }
        let mut seen: Vec<(Vec<usize>, usize)> = vec![];
        v.retain(|t| {
            let e = self.m.call(fam, dir, t, 1 << 30, true, buf);
            let key = match e.stop {
                Stop::Complete => vec![0, t.len(), e.out],
                Stop::Bad { len, ch, tail } => vec![1, t.len(), e.out, len, tail as usize, ch.len_utf8()],
                _ => vec![2],
            };
            match seen.iter_mut().find(|x| x.0 == key) {
                Some(x) => {
                    x.1 += 1;
                    x.1 <= per
                }
                None => {
                    seen.push((key, 1));
                    true
                }
            }
        });
        v
    }

    fn total(&self, case: &Case, buf: &mut Vec<u8>) -> usize {
        self.m.call(self.codecs[case.codec].fam, case.dir, &case.input, usize::MAX >> 1, true, buf).out
    }

    fn with_ends(&self, case: &mut Case, s: &mut dyn Sink) -> bool {
        let c = &self.codecs[case.codec];
        let flag = if case.dir == Dir::Enc { c.enc_end } else { c.dec_end };
        case.end = true;
        if !s.case(case) {
            return false;
        }
        if flag && self.prop != 15 && self.prop != 9 {
            case.end = false;
            let go = s.case(case);
            case.end = true;
            return go;
        }
        true
    }

    /// Makes calls on this input: with which buffer lengths, end flags, alignments or chunkings depends on the
    /// property and the mode.
    fn expand(&self, case: &mut Case, mode: Mode, rng: &mut Rng, buf: &mut Vec<u8>, s: &mut dyn Sink) -> bool {
        let n = case.input.len();
        if self.prop == 9 {
            case.off = rng.next() as u8;
            return s.case(case);
        }
        if self.stream() {
            return self.schedules(case, mode, rng, s);
        }
        case.off = if mode == Mode::All && rng.one_in(2) { 0 } else { rng.next() as u8 };
        let total = self.total(case, buf);
        match mode {
            Mode::All if total <= 40 => {
                for cap in 0..=total + 4 {
                    case.cap = cap;
                    if !self.with_ends(case, s) {
                        return false;
                    }
                }
                true
            }
            Mode::All | Mode::Few => {
                let mut caps = vec![total, total.saturating_sub(1), total + 1, total + 5, n];
                let extra = if mode == Mode::All { 24 } else if n <= 4 { 0 } else { 2 };
                if mode == Mode::All {
                    caps.extend([0, 1, 2, 3, 4, 5, 7, 8, total.saturating_sub(2), total.saturating_sub(3), total.saturating_sub(4), n * 3]);
                }
                for _ in 0..extra {
                    caps.push(rng.below(total + 2));
                }
                caps.sort();
                caps.dedup();
                for cap in caps {
                    case.cap = cap;
                    if !self.with_ends(case, s) {
                        return false;
                    }
                }
                true
            }
            Mode::One => {
                case.cap = match rng.below(8) {
                    0 => rng.below(total + 2),
                    1 => total.saturating_sub(rng.below(5)),
                    2 => total + rng.below(6),
                    3 => n,
                    4 => *rng.pick(&[255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 65535, 65536, 65537]),
                    5 => rng.below(64.min(total + 2)),
                    _ => total + 4 + rng.below(64),
                };
                let c = &self.codecs[case.codec];
                let flag = if case.dir == Dir::Enc { c.enc_end } else { c.dec_end };
                case.end = !(flag && rng.one_in(2));
                s.case(case)
            }
        }
    }

    fn schedules(&self, case: &mut Case, mode: Mode, rng: &mut Rng, s: &mut dyn Sink) -> bool {
        let n = case.input.len() as u32;
        case.off = rng.next() as u8;
        let mut pick = Rng::new(if self.prop == 24 { rng.next() } else { 0 });
        let mut go = |aux: Vec<u32>, case: &mut Case, s: &mut dyn Sink| {
            case.aux = aux;
            if self.prop == 24 {
                // Stands for the target encoding and more.
                case.cap = pick.next() as usize >> 40;
            }
            s.case(case)
        };
        let ones = |sz: u32| -> Vec<u32> {
            let k = if sz == 0 { 0 } else { n / sz.max(1) };
            let mut v = vec![k];
            v.extend(std::iter::repeat(sz).take(k as usize));
            v
        };
        let random = |rng: &mut Rng| -> Vec<u32> {
            let max = *rng.pick(&[1u32, 2, 3, 5, 8, 17, 64, 300, 4096, 70_000]);
            let max = max.max(n / 4000);
            let mut v = vec![0];
            let mut p = 0;
            while p < n {
                let k = 1 + rng.below(max as usize) as u32;
                v.push(k);
                p += k;
            }
            v[0] = v.len() as u32 - 1;
            let b = *rng.pick(&[4usize, 5, 6, 8, 9, 16, 33, 64, 300, 4096, 70_000]);
            let b = b.max(n as usize / 2000);
            for _ in 0..1 + rng.below(5) {
                v.push(4 + rng.below(b) as u32);
            }
            v
        };
        // Buffers that each call's output just fits into, or just does not.
        let tight = |rng: &mut Rng, case: &Case| -> Vec<u32> {
            let fam = self.codecs[case.codec].fam;
            let mut ends = vec![];
            let max = *rng.pick(&[2usize, 3, 5, 9, 40, 150]);
            let mut p = 0;
            while p < n as usize {
                p = (p + 1 + rng.below(max)).min(n as usize);
                while case.dir == Dir::Enc && p < n as usize && case.input[p] & 0xC0 == 0x80 {
                    p += 1;
                }
                ends.push(p);
            }
            let mut v = vec![ends.len() as u32];
            let mut at = 0;
            for &e in &ends {
                v.push((e - at) as u32);
                at = e;
            }
            let mut buf = vec![];
            let (mut pos, mut k) = (0, 0);
            for _ in 0..60 {
                if k == ends.len() {
                    break;
                }
                let last = k + 1 == ends.len();
                let e = self.m.call(fam, case.dir, &case.input[pos..ends[k]], 1 << 30, last, &mut buf);
                let cap = (e.out + 4).saturating_sub(rng.below(7)).max(4);
                let e = self.m.call(fam, case.dir, &case.input[pos..ends[k]], cap, last, &mut buf);
                v.push(cap as u32);
                pos += e.n;
                match e.stop {
                    Stop::Bad { len, .. } => pos += len,
                    Stop::Full => {}
                    _ => k += 1,
                }
            }
            if v.len() == ends.len() + 1 {
                v.push(4);
            }
            v
        };
        match mode {
            Mode::All => {
                for k in 1..n.min(24) {
                    for cap in [4, 5, n * 4 + 8] {
                        if !go(vec![1, k, cap], case, s) {
                            return false;
                        }
                    }
                }
                for sz in [0, 1, 2, 3, 4] {
                    for cap in [4, 5, 6, 7, 8, n * 4 + 8] {
                        let mut v = ones(sz);
                        v.push(cap);
                        if !go(v, case, s) {
                            return false;
                        }
                    }
                }
                true
            }
            Mode::Few => {
                let mut v = ones(1);
                v.push(4);
                let mut w = vec![0, 4];
                if n > 1 {
                    w = vec![1, 1 + rng.below(n as usize - 1) as u32, 4 + rng.below(8) as u32];
                }
                if n < 3 {
                    return go(v, case, s) && go(w, case, s);
                }
                let x = tight(rng, case);
                go(v, case, s) && go(w, case, s) && go(x, case, s)
            }
            Mode::One => {
                let v = if n > 2 && n <= 5000 && rng.one_in(2) { tight(rng, case) } else { random(rng) };
                go(v, case, s)
            }
        }
    }

    /// Appends one unit of a class.
    fn push(&self, codec: usize, dir: Dir, class: usize, rng: &mut Rng, v: &mut Vec<u8>) {
        let fam = self.codecs[codec].fam;
        let any = |rng: &mut Rng| loop {
            let u = match rng.below(5) {
                0 => rng.below(0x800),
                1 => rng.below(0x10000),
                2 => 0x10000 + rng.below(0x100000),
                3 => 0x2000 + rng.below(0x1000),
                _ => rng.below(0x30000),
            };
            if let Some(c) = char::from_u32(u as u32) {
                return c;
            }
        };
        let encodable = |rng: &mut Rng| match fam {
            Fam::Utf8 | Fam::Utf16 { .. } | Fam::Utf32 { .. } if self.prop == 24 && !rng.one_in(4) => match rng.below(3) {
                // Something another encoding has.
                0 => *rng.pick(&self.m.big5_chars),
                1 => *rng.pick(&self.m.sjis_chars),
                _ => {
                    let k = rng.below(self.m.single.len());
                    *rng.pick(&self.m.single[k].chars)
                }
            },
            Fam::Big5 => *rng.pick(&self.m.big5_chars),
            Fam::Sjis => *rng.pick(&self.m.sjis_chars),
            Fam::Single(k) => *rng.pick(&self.m.single[k].chars),
            _ => any(rng),
        };
        let ch: char = match class {
            0 => (b'a' + rng.below(26) as u8) as char,
            1 => rng.below(128) as u8 as char,
            2 => *rng.pick(&['\n', ' ', '\r', '\t', '0', '\\', '~', '\0']),
            3 | 4 => {
                if dir == Dir::Dec {
                    // Any code of the table, not just those the encoder picks.
                    match fam {
                        Fam::Big5 => loop {
                            let p = rng.below(126 * 157);
                            if self.m.big5_dec[p] != 0 || [1133, 1135, 1164, 1166].contains(&p) {
                                let (l, t) = (p / 157 + 0x81, p % 157);
                                v.push(l as u8);
                                v.push((t + if t < 63 { 0x40 } else { 0x62 }) as u8);
                                return;
                            }
                        },
                        Fam::Sjis if rng.one_in(2) => loop {
                            let p = rng.below(60 * 188);
                            if self.m.sjis_dec[p] != 0 {
                                let (l, t) = (p / 188, p % 188);
                                v.push((l + if l < 0x1F { 0x81 } else { 0xC1 }) as u8);
                                v.push((t + if t < 63 { 0x40 } else { 0x41 }) as u8);
                                return;
                            }
                        },
                        _ => {}
                    }
                }
                encodable(rng)
            }
            5 => {
                let t = self.toks(codec, dir);
                v.extend_from_slice(rng.pick(t));
                return;
            }
            6 => {
                if dir == Dir::Dec {
                    let k = 1 + rng.below(3);
                    for _ in 0..k {
                        v.push(rng.next() as u8);
                    }
                    return;
                }
                any(rng)
            }
            7 => {
                if self.dchars.is_empty() {
                    'd'
                } else {
                    *rng.pick(&self.dchars)
                }
            }
            8 => {
                let p = *rng.pick(&[['\u{CA}', '\u{304}'], ['\u{EA}', '\u{30C}'], ['\u{CA}', '\u{30C}'], ['\u{EA}', '\u{304}'], ['\u{CA}', 'A'], ['\u{EA}', '\u{EA}']]);
                if dir == Dir::Enc {
                    let mut b = [0; 4];
                    v.extend_from_slice(p[0].encode_utf8(&mut b).as_bytes());
                }
                p[1]
            }
            9 => {
                // By encoded size.
                match rng.below(3) {
                    0 => char::from_u32(0x80 + rng.below(0x780) as u32).unwrap(),
                    1 => char::from_u32(0x3000 + rng.below(0xA000) as u32).unwrap(),
                    _ => char::from_u32(0x10000 + rng.below(0x100000) as u32).unwrap(),
                }
            }
            _ => char::from_u32(*rng.pick(SPECIAL)).unwrap(),
        };
        if dir == Dir::Enc {
            let mut b = [0; 4];
            v.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
        } else {
            let mut o = [0u8; 4];
            match self.m.enc_char(fam, ch, &mut o) {
                Some(n) => v.extend_from_slice(&o[..n]),
                None => v.push(b'x'),
            }
        }
    }

    /// The characters of an encoding; of those with all of them, some.
    fn repertoire(&self, codec: usize) -> Vec<char> {
        match self.codecs[codec].fam {
            Fam::Big5 => self.m.big5_chars.to_vec(),
            Fam::Sjis => self.m.sjis_chars.to_vec(),
            Fam::Single(k) => self.m.single[k].chars.to_vec(),
            _ => (0..0x11_0000u32).filter(|&u| u < 0x700 || u % 61 == (self.seed % 61) as u32 || (0x2000..0x2100).contains(&u)).filter_map(char::from_u32).collect(),
        }
    }

    pub fn push_unit(&self, codec: usize, dir: Dir, class: usize, rng: &mut Rng, v: &mut Vec<u8>) {
        self.push(codec, dir, class, rng, v)
    }

    /// A random text, mostly of a few classes, with runs.
    fn random(&self, codec: usize, dir: Dir, len: usize, rng: &mut Rng, v: &mut Vec<u8>) {
        v.clear();
        // Which classes are in: errors stop the call, so in most texts they are rare or absent.
        let common: &[usize] = match rng.below(10) {
            0 => &[0],
            1 => &[0, 3],
            2 => &[3],
            3 => &[0, 1, 2, 3],
            4 => &[3, 4, 8],
            5 => &[1, 2],
            6 => &[0, 9],
            7 => &[3, 8, 0],
            8 => &[9, 10],
            _ => &[0, 3, 7],
        };
        // In an encoding with few characters, the classes beyond them mean errors.
        let fam = self.codecs[codec].fam;
        let uni = matches!(fam, Fam::Utf8 | Fam::Utf16 { .. } | Fam::Utf32 { .. });
        let rare: &[usize] = match rng.below(4) {
            0 => &[],
            1 => &[5],
            2 => &[5, 6, 7, 10],
            _ => &[6],
        };
        let rate = *rng.pick(&[4usize, 20, 100, 700, 5000]);
        let runs = rng.one_in(2);
        while v.len() < len {
            let mut class = if !rare.is_empty() && rng.one_in(rate) { *rng.pick(rare) } else { *rng.pick(common) };
            if !uni && class == 9 {
                class = 3;
            }
            let k = if runs && rng.one_in(6) { *rng.pick(&[2usize, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 128, 256]) } else { 1 };
            if k > 1 && rng.one_in(2) {
                let a = v.len();
                self.push(codec, dir, class, rng, v);
                let b = v.len();
                for _ in 1..k {
                    v.extend_from_within(a..b);
                }
            } else {
                for _ in 0..k {
                    self.push(codec, dir, class, rng, v);
                }
            }
        }
        if dir == Dir::Dec {
            match rng.below(8) {
                0 if !v.is_empty() => {
                    let i = rng.below(v.len());
                    v[i] = rng.next() as u8;
                }
                1 if v.len() > 1 => {
                    // Damage near the end, where look-ahead has to stop.
                    let i = v.len() - 1 - rng.below(v.len().min(5));
                    v[i] = *rng.pick(&[0x80, 0xC0, 0xE0, 0xF0, 0xF4, 0xD8, 0xDC, 0x81, 0xFE, 0xFF, 0x00, 0x41]);
                }
                2 | 3 => {
                    let k = rng.below(v.len().min(4) + 1);
                    v.truncate(v.len() - k);
                }
                4 if v.len() > 2 => {
                    let i = rng.below(v.len());
                    v.remove(i);
                }
                _ => {}
            }
        }
    }

    pub fn run(&self, idx: u64, item: &Item, s: &mut dyn Sink) -> bool {
        let mut rng = Rng::new(self.seed.wrapping_mul(0xD134_2543_DE82_EF95) ^ (idx << 20) ^ self.prop as u64);
        let rng = &mut rng;
        let mut case = Case::new(item.codec, item.dir);
        let mut buf = vec![];
        let (codec, dir) = (item.codec, item.dir);
        let fam = self.codecs[codec].fam;
        let toks = self.toks(codec, dir);
        let buf = &mut buf;
        macro_rules! ex {
            ($mode:expr) => {
                if !self.expand(&mut case, $mode, rng, buf, s) {
                    return false;
                }
            };
        }
        match item.kind {
            Kind::Scalars(a, b) => {
                for u in a..b {
                    let Some(c) = char::from_u32(u) else { continue };
                    let mut t = [0; 4];
                    let e = c.encode_utf8(&mut t).as_bytes();
                    case.input.clear();
                    case.input.extend_from_slice(e);
                    ex!(Mode::Few);
                    // In a context.
                    case.input.clear();
                    let pre = rng.below(4);
                    for _ in 0..pre {
                        let cl = *rng.pick(&[0, 0, 3, 8]);
                        self.push(codec, dir, cl, rng, &mut case.input);
                    }
                    case.input.extend_from_slice(e);
                    for _ in 0..rng.below(3) {
                        let cl = *rng.pick(&[0, 3, 5]);
                        self.push(codec, dir, cl, rng, &mut case.input);
                    }
                    ex!(Mode::One);
                }
            }
            Kind::ScalarsDec(a, b) => {
                for u in a..b {
                    let Some(c) = char::from_u32(u) else { continue };
                    let mut o = [0; 4];
                    let Some(n) = self.m.enc_char(fam, c, &mut o) else { continue };
                    case.input.clear();
                    case.input.extend_from_slice(&o[..n]);
                    ex!(Mode::Few);
                    case.input.clear();
                    for _ in 0..rng.below(4) {
                        let cl = *rng.pick(&[0, 0, 3, 9]);
                        self.push(codec, dir, cl, rng, &mut case.input);
                    }
                    case.input.extend_from_slice(&o[..n]);
                    for _ in 0..rng.below(3) {
                        let cl = *rng.pick(&[0, 3, 5]);
                        self.push(codec, dir, cl, rng, &mut case.input);
                    }
                    ex!(Mode::One);
                }
            }
            Kind::Bytes2(a, b) => {
                for b0 in a as usize..b as usize {
                    case.input.clear();
                    case.input.push(b0 as u8);
                    ex!(Mode::All);
                    for b1 in 0..256usize {
                        case.input.clear();
                        case.input.extend([b0 as u8, b1 as u8]);
                        ex!(Mode::All);
                        case.input.push(*rng.pick(b"A\x40\x80\x00"));
                        ex!(Mode::Few);
                        case.input.clear();
                        for _ in 0..1 + rng.below(3) {
                            let cl = *rng.pick(&[0, 3, 3]);
                            self.push(codec, dir, cl, rng, &mut case.input);
                        }
                        case.input.extend([b0 as u8, b1 as u8]);
                        for _ in 0..rng.below(3) {
                            let cl = *rng.pick(&[0, 3, 5]);
                            self.push(codec, dir, cl, rng, &mut case.input);
                        }
                        ex!(Mode::One);
                    }
                }
            }
            Kind::Bytes3(a, b) => {
                for x in (a as usize) << 16..(b as usize) << 16 {
                    case.input.clear();
                    case.input.extend([(x >> 16) as u8, (x >> 8) as u8, x as u8]);
                    ex!(Mode::One);
                }
            }
            Kind::Units(a, b) => {
                let be = fam == Fam::Utf16 { be: true };
                for x in a..b {
                    for y in 0..0x10000u32 {
                        let (x, y) = (x as u16, y as u16);
                        case.input.clear();
                        if be {
                            case.input.extend(x.to_be_bytes());
                            case.input.extend(y.to_be_bytes());
                        } else {
                            case.input.extend(x.to_le_bytes());
                            case.input.extend(y.to_le_bytes());
                        }
                        case.cap = 8;
                        if self.prop == 16 {
                            case.aux = vec![1, 1 + rng.below(3) as u32, 4];
                        }
                        if !s.case(&case) {
                            return false;
                        }
                    }
                }
            }
            Kind::Words(a, b) => {
                let be = fam == Fam::Utf32 { be: true };
                let few = b <= 0x120000;
                for x in a..b {
                    let w = if be { (x as u32).to_be_bytes() } else { (x as u32).to_le_bytes() };
                    case.input.clear();
                    case.input.extend(w);
                    if few {
                        ex!(Mode::Few);
                        for _ in 0..rng.below(2) {
                            self.push(codec, dir, 9, rng, &mut case.input);
                        }
                        case.input.extend(w);
                        ex!(Mode::One);
                    } else {
                        case.cap = 4;
                        if !s.case(&case) {
                            return false;
                        }
                    }
                }
            }
            Kind::Seq(len, a, b) => {
                for i in a..b {
                    let mut k = i;
                    case.input.clear();
                    for _ in 0..len {
                        case.input.extend_from_slice(&toks[(k % toks.len() as u64) as usize]);
                        k /= toks.len() as u64;
                    }
                    ex!(if len < 3 { Mode::All } else { Mode::Few });
                }
            }
            Kind::SeqRand(len, n) => {
                for _ in 0..n {
                    case.input.clear();
                    for _ in 0..len {
                        case.input.extend_from_slice(rng.pick(toks));
                    }
                    ex!(if rng.one_in(4) { Mode::All } else { Mode::Few });
                }
            }
            Kind::Runs(k, of) => {
                // filler x count, special, filler: fast paths that work in blocks.
                let fillers = 8;
                for f in 0..fillers {
                    let mut unit = vec![];
                    let cl = *[0usize, 0, 3, 9, 3, 8, 5, 1].get(f).unwrap();
                    while unit.is_empty() {
                        self.push(codec, dir, cl, rng, &mut unit);
                    }
                    let mut n = k;
                    let mut lens: Vec<usize> = vec![];
                    while n < 150 {
                        lens.push(n);
                        n += of;
                    }
                    lens.extend([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097].iter().skip(k % 7).step_by(7));
                    for n in lens {
                        for sp in 0..3 {
                            case.input.clear();
                            for _ in 0..n {
                                case.input.extend_from_slice(&unit);
                            }
                            let cl = match sp {
                                0 => 3,
                                1 => 5,
                                _ => 6,
                            };
                            self.push(codec, dir, cl, rng, &mut case.input);
                            let tail = rng.below(20);
                            for _ in 0..tail {
                                if rng.one_in(3) {
                                    self.push(codec, dir, 3, rng, &mut case.input);
                                } else {
                                    case.input.extend_from_slice(&unit);
                                }
                            }
                            ex!(if rng.one_in(8) { Mode::Few } else { Mode::One });
                        }
                    }
                }
            }
            Kind::Rand(n, max) => {
                for _ in 0..n {
                    let len = if rng.one_in(3) { max } else { rng.below(max + 1) };
                    self.random(codec, dir, len, rng, &mut case.input);
                    let mode = match rng.below(10) {
                        0 => Mode::All,
                        1..=3 => Mode::Few,
                        _ => Mode::One,
                    };
                    ex!(if max > 1000 { Mode::One } else { mode });
                }
            }
            Kind::Big(n, max) => {
                for _ in 0..n {
                    let len = max - rng.below(max / 4 + 1);
                    if max > 5_000_000 {
                        // A block over and over, with something different at the end.
                        self.random(codec, dir, 5000, rng, buf);
                        let block = std::mem::take(buf);
                        case.input.clear();
                        let whole = if dir == Dir::Enc {
                            block.len()
                        } else {
                            self.m.call(fam, dir, &block, usize::MAX >> 1, false, buf).n.max(1)
                        };
                        while case.input.len() < len {
                            case.input.extend_from_slice(&block[..whole]);
                        }
                        for _ in 0..5 {
                            self.push(codec, dir, 5, rng, &mut case.input);
                        }
                    } else {
                        self.random(codec, dir, len, rng, &mut case.input);
                        if rng.one_in(2) {
                            // Valid up to a late point, so that the call gets there.
                            case.input.clear();
                            let cls: &[usize] = *rng.pick(&[&[0][..], &[3], &[0, 3], &[0, 0, 0, 3, 2], &[1, 4]]);
                            while case.input.len() < len {
                                self.push(codec, dir, *rng.pick(cls), rng, &mut case.input);
                            }
                            for _ in 0..1 + rng.below(5) {
                                self.push(codec, dir, *rng.pick(&[5, 6, 3, 0, 7]), rng, &mut case.input);
                            }
                        }
                    }
                    ex!(Mode::One);
                }
            }
            Kind::DictK(k, of) => {
                // Characters and strings of the source among others.
                for (i, &c) in self.dchars.iter().enumerate() {
                    if i as u32 % of != k {
                        continue;
                    }
                    let mut one = vec![];
                    if dir == Dir::Enc {
                        one.extend_from_slice(c.to_string().as_bytes());
                    } else {
                        let mut o = [0; 4];
                        match self.m.enc_char(fam, c, &mut o) {
                            Some(n) => one.extend_from_slice(&o[..n]),
                            None => continue,
                        }
                    }
                    for round in 0..3 {
                        case.input.clear();
                        if round > 0 {
                            self.push(codec, dir, *rng.pick(&[0, 3, 7]), rng, &mut case.input);
                        }
                        for _ in 0..=round {
                            case.input.extend_from_slice(&one);
                        }
                        if round > 0 {
                            self.push(codec, dir, *rng.pick(&[0, 3, 5, 7]), rng, &mut case.input);
                        }
                        ex!(if self.stream() { Mode::Few } else { Mode::All });
                    }
                }
                for (i, t) in self.dstrs.iter().enumerate() {
                    if i as u32 % of != k {
                        continue;
                    }
                    if dir == Dir::Enc && std::str::from_utf8(t).is_err() {
                        continue;
                    }
                    for round in 0..4 {
                        case.input.clear();
                        if round & 1 == 1 {
                            self.push(codec, dir, 3, rng, &mut case.input);
                        }
                        case.input.extend_from_slice(t);
                        if round & 2 == 2 {
                            self.push(codec, dir, 3, rng, &mut case.input);
                        }
                        ex!(Mode::Few);
                    }
                }
                // Raw values of the source as bytes and words in the input.
                if dir == Dir::Dec {
                    for (i, &x) in self.dnums.iter().enumerate() {
                        if i as u32 % of != k || x > 0xFFFF_FFFF {
                            continue;
                        }
                        let be = x.to_be_bytes();
                        let skip = be.iter().take(7).take_while(|&&b| b == 0).count();
                        for w in 0..3 {
                            case.input.clear();
                            if w == 2 {
                                self.push(codec, dir, 3, rng, &mut case.input);
                            }
                            let mut b: Vec<u8> = be[skip..].to_vec();
                            if w == 1 {
                                b.reverse();
                            }
                            case.input.extend_from_slice(&b);
                            ex!(Mode::All);
                        }
                    }
                }
                // Lengths, counts, positions and buffer sizes of the source.
                for (i, &n) in self.lens.iter().enumerate() {
                    if i as u32 % of != k {
                        continue;
                    }
                    let heavy = n > 20_000;
                    for cl in [0usize, 3, 9, 5] {
                        if heavy && cl > 3 {
                            continue;
                        }
                        // Up to n bytes, then a few more units.
                        case.input.clear();
                        while case.input.len() < n {
                            self.push(codec, dir, if cl == 5 { *rng.pick(&[0, 3]) } else { cl }, rng, &mut case.input);
                        }
                        for _ in 0..rng.below(4) {
                            self.push(codec, dir, *rng.pick(&[0, 3, 5]), rng, &mut case.input);
                        }
                        if self.stream() {
                            case.aux = vec![1, n as u32, 4 + n as u32];
                            if !s.case(&case) {
                                return false;
                            }
                        } else if self.prop != 9 {
                            case.cap = n;
                            if !self.with_ends(&mut case, s) {
                                return false;
                            }
                        }
                        ex!(Mode::One);
                        // n units.
                        if n <= 5000 && cl != 9 {
                            case.input.clear();
                            for _ in 0..n {
                                self.push(codec, dir, if cl == 5 { *rng.pick(&[0, 3]) } else { cl }, rng, &mut case.input);
                            }
                            ex!(Mode::One);
                            self.push(codec, dir, 3, rng, &mut case.input);
                            ex!(Mode::One);
                        }
                    }
                }
            }
            Kind::Far(len) => {
                let big = len > 100_000;
                let kinds = self.one_of_each_kind(codec, dir, if big { 1 } else { 2 }, rng, buf);
                // A block of text, over and over.
                let mut block = vec![];
                let cls: &[usize] = *rng.pick(&[&[0][..], &[3], &[0, 3], &[0, 0, 0, 3, 2]]);
                while block.len() < 3000 {
                    self.push(codec, dir, *rng.pick(cls), rng, &mut block);
                }
                while case.input.len() + block.len() < len {
                    case.input.extend_from_slice(&block);
                }
                let base = case.input.len();
                for t in &kinds {
                    case.input.truncate(base);
                    for _ in 0..rng.below(3) {
                        self.push(codec, dir, *rng.pick(&[0, 0, 3]), rng, &mut case.input);
                    }
                    let at = case.input.len();
                    case.input.extend_from_slice(t);
                    if rng.one_in(2) {
                        self.push(codec, dir, *rng.pick(&[0, 3, 5]), rng, &mut case.input);
                    }
                    if self.stream() {
                        let cut = (at + rng.below(t.len() + 1)).max(1) as u32;
                        case.aux = vec![1, cut, 4 + 4 * case.input.len() as u32];
                        if !s.case(&case) {
                            return false;
                        }
                        continue;
                    }
                    case.cap = 4 * case.input.len() + 8;
                    case.off = rng.next() as u8;
                    if !self.with_ends(&mut case, s) {
                        return false;
                    }
                }
            }
            Kind::Block(k, of) => {
                let kinds = self.one_of_each_kind(codec, dir, 1, rng, buf);
                let mut pad = vec![];
                self.push(codec, dir, 0, rng, &mut pad);
                let (pin, pout) = (pad.len(), self.m.call(fam, dir, &pad, 64, true, buf).out);
                for (i, &size) in BLOCKS.iter().enumerate() {
                    if i % of != k {
                        continue;
                    }
                    let times = if size <= 512 { 4 } else { 1 };
                    for t in &kinds {
                        for turn in 0..times {
                            let by_output = if times == 1 { rng.one_in(4) } else { turn & 1 == 1 };
                            // So that there are two or more blocks at times.
                            let goal = size * if size < 5000 && rng.one_in(3) { 2 + rng.below(3) } else { 1 };
                            let mut base = vec![];
                            let (mut at, mut out) = (0, 0);
                            let mixed = rng.one_in(2);
                            let mut unit = vec![];
                            while (if by_output { out } else { at }) + 12 < goal {
                                let mut u: &[u8] = &pad;
                                let mut o = pout;
                                if mixed && at % 3 != 2 {
                                    unit.clear();
                                    self.push(codec, dir, 3, rng, &mut unit);
                                    u = &unit;
                                    // (Big5 in two characters and the like: never mind)
                                    o = self.m.call(fam, dir, u, 64, true, buf).out;
                                }
                                base.extend_from_slice(u);
                                (at, out) = (at + u.len(), out + o);
                            }
                            for d in (0..=if by_output { 4 } else { t.len().min(4) }).rev() {
                                case.input.clear();
                                case.input.extend_from_slice(&base);
                                let (mut a, mut o) = (at, out);
                                while (if by_output { o + pout } else { a + pin }) + d <= goal {
                                    case.input.extend_from_slice(&pad);
                                    (a, o) = (a + pin, o + pout);
                                }
                                case.input.extend_from_slice(t);
                                match rng.below(4) {
                                    0 => {}
                                    1 => self.push(codec, dir, 0, rng, &mut case.input),
                                    2 => case.input.extend_from_slice(rng.pick(&kinds)),
                                    _ => {
                                        for _ in 0..1 + rng.below(8) {
                                            self.push(codec, dir, *rng.pick(&[0, 3, 5]), rng, &mut case.input);
                                        }
                                    }
                                }
                                if dir == Dir::Enc && std::str::from_utf8(&case.input).is_err() {
                                    continue;
                                }
                                case.off = rng.next() as u8;
                                if self.stream() {
                                    // Blocks of this size from a reader, through a buffer of about the same.
                                    let b = (size.max(8) + rng.below(9)).saturating_sub(4).max(8) as u32;
                                    let n = case.input.len().div_ceil(size);
                                    case.aux = vec![n as u32];
                                    case.aux.extend(std::iter::repeat(size as u32).take(n));
                                    case.aux.push(b);
                                    if self.prop == 24 {
                                        case.cap = rng.next() as usize >> 40;
                                    }
                                    if !s.case(&case) {
                                        return false;
                                    }
                                    if d == 0 {
                                        ex!(Mode::One);
                                    }
                                    continue;
                                }
                                for cap in [4 * case.input.len() + 8, o + rng.below(6), goal] {
                                    case.cap = cap;
                                    if !self.with_ends(&mut case, s) {
                                        return false;
                                    }
                                    if times == 1 && rng.one_in(2) {
                                        break;
                                    }
                                }
                            }
                        }
                    }
                }
            }
            Kind::Pairs(k, of) => {
                let all = self.repertoire(codec);
                let enc = |c: char, v: &mut Vec<u8>| {
                    let mut o = [0; 4];
                    if dir == Dir::Enc {
                        v.extend_from_slice(c.encode_utf8(&mut o).as_bytes());
                        return true;
                    }
                    match self.m.enc_char(fam, c, &mut o) {
                        Some(n) => v.extend_from_slice(&o[..n]),
                        None => return false,
                    }
                    true
                };
                for c in all.iter().skip(k).step_by(of) {
                    let mut one = vec![];
                    if !enc(*c, &mut one) {
                        continue;
                    }
                    for &s in SPECIAL {
                        case.input.clear();
                        let first = rng.one_in(2);
                        if first {
                            case.input.extend_from_slice(&one);
                        }
                        if !enc(char::from_u32(s).unwrap(), &mut case.input) {
                            continue;
                        }
                        if !first || rng.one_in(8) {
                            case.input.extend_from_slice(&one);
                        }
                        ex!(Mode::One);
                        if first {
                            case.input.drain(..one.len());
                            case.input.extend_from_slice(&one);
                        } else {
                            case.input.truncate(case.input.len() - one.len());
                            case.input.splice(..0, one.iter().copied());
                        }
                        ex!(Mode::One);
                    }
                }
            }
            Kind::Both(k, of) => {
                let all = self.repertoire(codec);
                for a in all.iter().skip(k).step_by(of) {
                    for b in &all {
                        case.input.clear();
                        case.input.extend_from_slice(a.encode_utf8(&mut [0; 4]).as_bytes());
                        case.input.extend_from_slice(b.encode_utf8(&mut [0; 4]).as_bytes());
                        ex!(Mode::One);
                    }
                }
            }
            Kind::Neigh(n) => {
                for _ in 0..n {
                    case.input.clear();
                    let k = 2 + rng.below(3);
                    for _ in 0..k {
                        let cl = *rng.pick(&[3, 3, 3, 3, 9, 0, 5]);
                        self.push(codec, dir, cl, rng, &mut case.input);
                    }
                    ex!(Mode::One);
                }
            }
        }
        true
    }
}
