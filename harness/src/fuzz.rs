#![cfg_attr(not(fuzz_driver), allow(dead_code))]
//! Coverage-guided cases: libFuzzer, with only the library instrumented, judged by the monitor of one property.
use crate::case::*;
use crate::codecs::{Codec, Fam};
use crate::gen::*;
use crate::model::*;
use crate::toks::*;
#[cfg(fuzz_driver)]
use crate::props;
use crate::Args;

pub struct Fuzz<'m> {
    m: &'m Model,
    codecs: &'m [Codec],
    gen: Gen<'m>,
    scope: Vec<(usize, Dir)>,
    stream: bool,
    prop: u32,
    buf: Vec<u8>,
}

/// Bytes ahead of the text: encoding and direction, flags, room, alignment; for streams also the schedule.
pub const HEAD: usize = 4;
pub const SCHEDULE: usize = 6;

impl<'m> Fuzz<'m> {
    /// `slot` of `slots`: a share of the encodings for each process.
    pub fn new(m: &'m Model, codecs: &'m [Codec], prop: u32, seed: u64, dict: &Dict, slot: usize, slots: usize) -> Fuzz<'m> {
        let gen = Gen::new(m, codecs, prop, seed, dict);
        let all = gen.scope();
        // The encodings with code of their own first, so that they are spread evenly.
        let (own, table): (Vec<_>, Vec<_>) = all.into_iter().partition(|x| !matches!(codecs[x.0].fam, Fam::Single(_)));
        let all: Vec<_> = own.into_iter().chain(table).collect();
        let mut scope: Vec<_> = all.iter().copied().enumerate().filter(|(i, _)| i % slots == slot % slots).map(|x| x.1).collect();
        if scope.is_empty() {
            scope = all;
        }
        Fuzz { m, codecs, gen, scope, stream: matches!(prop, 16 | 17 | 24), prop, buf: vec![] }
    }

    /// What a string of bytes stands for.
    pub fn case(&mut self, d: &[u8]) -> Option<Case> {
        let head = HEAD + if self.stream { SCHEDULE } else { 0 };
        if d.len() < head {
            return None;
        }
        let (codec, dir) = self.scope[d[0] as usize % self.scope.len()];
        let fam = self.codecs[codec].fam;
        let mut c = Case::new(codec, dir);
        c.end = d[1] & 1 == 0 || (if dir == Dir::Dec { !self.codecs[codec].dec_end } else { !self.codecs[codec].enc_end });
        c.off = d[3];
        let mut text = &d[head..];
        // Something long in front?
        if d[1] & 2 != 0 && text.len() > 2 {
            let n = (text[0] as usize) << (if text[1] == 0xB5 { 4 } else { 0 });
            let unit: &[u8] = match (dir, fam) {
                (Dir::Enc, _) => [&b"a"[..], b"a", "é".as_bytes(), "あ".as_bytes()][(text[1] >> 3 & 3) as usize],
                (Dir::Dec, Fam::Utf16 { be: true }) => b"\0a",
                (Dir::Dec, Fam::Utf16 { be: false }) => b"a\0",
                (Dir::Dec, Fam::Utf32 { be: true }) => b"\0\0\0a",
                (Dir::Dec, Fam::Utf32 { be: false }) => b"a\0\0\0",
                _ => b"a",
            };
            for _ in 0..n {
                c.input.extend_from_slice(unit);
            }
            text = &text[2..];
        }
        if dir == Dir::Dec {
            c.input.extend_from_slice(text);
        } else if d[1] & 4 == 0 {
            c.input.extend_from_slice(String::from_utf8_lossy(text).as_bytes());
        } else {
            // Pairs of bytes are characters: of the table, or any of the first plane.
            let chars: &[char] = match fam {
                Fam::Single(k) => &self.m.single[k].chars,
                Fam::Big5 => &self.m.big5_chars,
                Fam::Sjis => &self.m.sjis_chars,
                _ => &[],
            };
            for w in text.chunks_exact(2) {
                let x = (w[0] as usize) << 8 | w[1] as usize;
                let ch = if chars.is_empty() { char::from_u32(x as u32) } else { Some(chars[x % chars.len()]) };
                c.input.extend_from_slice(ch.unwrap_or('\u{10400}').encode_utf8(&mut [0; 4]).as_bytes());
            }
        }
        // Room: so many bytes, or so many fewer or more than all of it needs.
        let r = d[2] as usize;
        c.cap = if r < 64 {
            r
        } else {
            let total = self.m.call(fam, dir, &c.input, usize::MAX >> 1, true, &mut self.buf).out;
            (total + r).saturating_sub(224).min(5 << 20)
        };
        if self.stream {
            let s = &d[HEAD..head];
            let k = (s[0] & 7) as u32;
            c.aux.push(k);
            for i in 0..k {
                let x = s[1 + i as usize % 3] as u32;
                c.aux.push(if i == 0 && d[1] & 8 != 0 { (c.input.len() as u32).saturating_sub(x & 31) } else { x });
            }
            c.aux.push(4 + (s[4] as u32 & 63));
            if self.prop == 24 {
                c.cap = d[2] as usize | (d[3] as usize) << 8;
            }
            if s[0] & 8 != 0 {
                c.aux.push(4 + s[5] as u32);
            }
        }
        Some(c)
    }

    /// Something of every kind to begin with.
    pub fn seeds(&self, rng: &mut Rng) -> Vec<Vec<u8>> {
        let mut v = vec![];
        for (i, &(codec, dir)) in self.scope.iter().enumerate() {
            for t in self.gen.kinds(codec, dir, 2, rng) {
                for (flags, room) in [(0, 255), (1, 40), (2, 255), (0, 224)] {
                    let mut b = vec![i as u8, flags, room, 0];
                    if self.stream {
                        b.extend_from_slice(&[rng.below(16) as u8, 3, 5, 1, rng.below(20) as u8, 9]);
                    }
                    if flags & 2 != 0 {
                        b.extend_from_slice(&[16, 1]);
                    }
                    self.gen.push_unit(codec, dir, 3, rng, &mut b);
                    b.extend_from_slice(&t);
                    self.gen.push_unit(codec, dir, 0, rng, &mut b);
                    v.push(b);
                }
            }
        }
        v
    }
}

fn new<'m>(a: &Args, codecs: &'m [Codec], m: &'m Model) -> (Fuzz<'m>, u32) {
    let prop = a.num("prop", 0) as u32;
    (Fuzz::new(m, codecs, prop, a.num("seed", 1), &Dict::parse(&a.read("dict")), a.num("slot", 0) as usize, a.num("slots", 1) as usize), prop)
}

/// The case a file of the fuzzer stands for, as a case file.
pub fn case_of(a: &Args, codecs: &[Codec], m: &Model) -> i32 {
    let (mut f, prop) = new(a, codecs, m);
    let Some(c) = f.case(&std::fs::read(&a.positional()[0]).unwrap()) else { return 3 };
    std::fs::write(a.get("save").unwrap(), c.to_text(&format!("C{prop:02}"), codecs)).unwrap();
    0
}

#[cfg(not(fuzz_driver))]
pub fn fuzz(_: &Args, _: &[Codec], _: &Model) -> i32 {
    eprintln!("not a fuzzing build");
    2
}

/// Runs until `--secs` are over or something is found. Not to return: the driver ends the process.
#[cfg(fuzz_driver)]
pub fn fuzz(a: &Args, codecs: &[Codec], m: &Model) -> i32 {
    use std::ffi::CString;
    extern "C" {
        fn LLVMFuzzerRunDriver(argc: *mut i32, argv: *mut *mut *mut i8, f: extern "C" fn(*const u8, usize) -> i32) -> i32;
        fn atexit(f: extern "C" fn()) -> i32;
    }
    struct State {
        f: Fuzz<'static>,
        cx: Cx<'static>,
        prop: u32,
        save: String,
        out: String,
        evals: u64,
        nontrivial: u64,
        distinct: crate::Distinct,
        ndistinct: u64,
        longest: usize,
        samples: Vec<String>,
    }
    static mut STATE: *mut State = std::ptr::null_mut();
    extern "C" fn report() {
        let s = unsafe { &mut *STATE };
        let samples: Vec<String> = s.samples.iter().map(|x| crate::js(x)).collect();
        let _ = std::fs::write(
            &s.out,
            format!(
                "{{\"evaluations\":{},\"calls\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"longest_input\":{},\"samples\":[{}],{}}}\n",
                s.evals, s.cx.calls, s.nontrivial, s.ndistinct, s.longest, samples.join(","), crate::events_json(&s.cx.events, s.cx.codecs)
            ),
        );
    }
    extern "C" fn one(p: *const u8, n: usize) -> i32 {
        let s = unsafe { &mut *STATE };
        let d = if n == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(p, n) } };
        let Some(c) = s.f.case(d) else { return -1 };
        s.cx.nontrivial = false;
        let r = props::check(s.prop, &c, &mut s.cx);
        s.evals += 1;
        s.longest = s.longest.max(c.input.len());
        if s.cx.nontrivial {
            s.nontrivial += 1;
            if s.distinct.add(crate::hash(&c)) {
                s.ndistinct += 1;
                if s.samples.len() < 3 && s.ndistinct % 50_000 == 49_999 && c.input.len() < 80 {
                    s.samples.push(c.to_text("", s.cx.codecs).replace('\n', " "));
                }
            }
        }
        if let Err(e) = r {
            let id = format!("C{:02}", s.prop);
            // First as it is, in case making it smaller goes wrong.
            std::fs::write(&s.save, c.to_text(&id, s.cx.codecs)).unwrap();
            let mut cx = Cx::new(s.cx.m, s.cx.codecs, false);
            let (c, e) = crate::minimise(s.prop, c, e, &mut cx);
            std::fs::write(&s.save, format!("{}{}", c.to_text(&id, s.cx.codecs), crate::comment(&e))).unwrap();
            println!("violation of {id}, found by the fuzzer:\n{e}");
            extern "C" {
                fn _exit(c: i32) -> !;
            }
            unsafe { _exit(1) }
        }
        0
    }
    // (for the rest of the process)
    let (codecs, m): (&'static [Codec], &'static Model) = unsafe { (std::mem::transmute(codecs), std::mem::transmute(m)) };
    let (f, prop) = new(a, codecs, m);
    let corpus = a.get("corpus").unwrap();
    std::fs::create_dir_all(corpus).unwrap();
    let mut rng = Rng::new(a.num("seed", 1));
    for (i, s) in f.seeds(&mut rng).iter().enumerate() {
        std::fs::write(format!("{corpus}/s{i}"), s).unwrap();
    }
    let mut cx = Cx::new(m, codecs, false);
    if prop == 2 {
        cx.fence();
    }
    let st = State {
        f,
        cx,
        prop,
        save: a.get("save").unwrap().into(),
        out: a.get("out").unwrap().into(),
        evals: 0,
        nontrivial: 0,
        distinct: crate::Distinct::new(27),
        ndistinct: 0,
        longest: 0,
        samples: vec![],
    };
    unsafe { STATE = Box::into_raw(Box::new(st)) };
    let args: Vec<String> = [
        "fuzz".to_string(),
        format!("-seed={}", a.num("seed", 1) % 4_000_000_000 * 64 + a.num("slot", 0) + 1),
        format!("-max_total_time={}", a.num("secs", 30)),
        format!("-max_len={}", a.num("max-len", 300)),
        "-use_value_profile=1".into(),
        "-timeout=20".into(),
        "-rss_limit_mb=6000".into(),
        "-len_control=20".into(),
        "-reload=0".into(),
        "-print_final_stats=1".into(),
        "-verbosity=1".into(),
        format!("-dict={}", a.get("words").unwrap()),
        format!("-artifact_prefix={}", a.get("artifact").unwrap()),
        corpus.to_string(),
    ]
    .to_vec();
    let keep: Vec<CString> = args.into_iter().map(|s| CString::new(s).unwrap()).collect();
    let mut ptrs: Vec<*mut i8> = keep.iter().map(|s| s.as_ptr() as *mut i8).collect();
    ptrs.push(std::ptr::null_mut());
    let (mut argc, mut argv) = (keep.len() as i32, ptrs.as_mut_ptr());
    unsafe {
        atexit(report);
        LLVMFuzzerRunDriver(&mut argc, &mut argv, one)
    }
}
