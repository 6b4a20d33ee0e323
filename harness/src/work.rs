//! C22: the processor time of whole conversions, at one length and at others 8 and 64 times as long; and of conversions
//! in calls that have little room.
use crate::codecs::*;
use crate::gen::*;
use crate::model::*;
use crate::toks::*;
use crate::{js, Args};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

fn cpu() -> f64 {
    #[repr(C)]
    struct T(i64, i64);
    extern "C" {
        fn clock_gettime(c: i32, t: *mut T) -> i32;
    }
    let mut t = T(0, 0);
    unsafe { clock_gettime(3, &mut t) };
    t.0 as f64 + t.1 as f64 * 1e-9
}

const TIMES: usize = 64;

/// Seconds one of a chain of multiplications takes here.
fn unit() -> f64 {
    let mut best = f64::MAX;
    let mut x = cpu().to_bits() | 1;
    for _ in 0..20 {
        let t = cpu();
        for _ in 0..100_000 {
            x = std::hint::black_box(x.wrapping_mul(x | 5));
        }
        best = best.min(cpu() - t);
    }
    best / 100_000.0
}
/// Such units that a call may take in any case, and for each byte of input.
const PER_CALL: f64 = 1024.0;
const PER_BYTE: f64 = 32.0;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    /// One call, with room for everything; after an error, on with what is left.
    Room,
    /// All the input, through a buffer of this size.
    Buffer(usize),
    /// The same, and the input is not declared to be all.
    Open(usize),
}

struct Scene {
    codec: usize,
    dir: Dir,
    name: String,
    /// Repeated..
    block: Vec<u8>,
    /// ..and once at the end.
    last: Vec<u8>,
    mode: Mode,
}

fn input(s: &Scene, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 64);
    while v.len() + s.block.len() <= n {
        v.extend_from_slice(&s.block);
    }
    v.extend_from_slice(&s.last);
    v
}

/// Seconds, calls; stops when it takes longer than the limit.
fn measure(c: &Codec, s: &Scene, input: &[u8], out: &mut [u8], limit: f64) -> (f64, u64) {
    let (room, end) = match s.mode {
        Mode::Room => (out.len().min(input.len() * 4 + 16), true),
        Mode::Buffer(b) => (b, true),
        Mode::Open(b) => (b, false),
    };
    let out = &mut out[..room];
    let t0 = cpu();
    let (mut pos, mut calls, mut errors) = (0, 0u64, 0);
    while pos < input.len() {
        let k = match s.dir {
            // The scenes are made of whole characters, and the library is right about where they begin (C10, C13).
            Dir::Enc => match (c.enc)(unsafe { std::str::from_utf8_unchecked(&input[pos..]) }, out, end) {
                Ok((_, k)) => k,
                Err(e) => {
                    errors += 1;
                    e.error_range.1
                }
            },
            Dir::Dec => match (c.dec)(&input[pos..], out, end) {
                Ok((_, k)) => k,
                Err(e) => {
                    errors += 1;
                    e.error_range.1
                }
            },
        };
        calls += 1;
        if k == 0 {
            break;
        }
        pos += k;
        if s.mode == Mode::Room && errors > 0 && room > 4096 {
            // (a call may do work in proportion to the room it is given)
            break;
        }
        if calls & 63 == 0 && cpu() - t0 > limit {
            break;
        }
    }
    (cpu() - t0, calls)
}

pub fn work(a: &Args, codecs: &[Codec], m: &Model) -> i32 {
    let t0 = Instant::now();
    let seed = a.num("seed", 1);
    let small = a.num("size", 32_768) as usize;
    let threads = a.num("threads", 8) as usize;
    let gen = Gen::new(m, codecs, 22, seed, &Dict::parse(&a.read("dict")));
    let mut scenes = vec![];
    for (codec, dir) in gen.scope() {
        let mut rng = Rng::new(seed ^ (codec as u64) << 8 ^ dir as u64);
        let rng = &mut rng;
        let mut blocks: Vec<(String, Vec<u8>)> = vec![];
        for cl in [&[0usize][..], &[3], &[0, 3], &[0, 0, 0, 3, 2], &[9], &[8], &[8, 0]] {
            let mut b = vec![];
            while b.len() < 200 {
                let k = *rng.pick(cl);
                gen.push_unit(codec, dir, k, rng, &mut b);
            }
            blocks.push((format!("text {cl:?}"), b));
        }
        let kinds = gen.kinds(codec, dir, if a.num("deep", 0) == 1 { 4 } else { 1 }, rng);
        for t in &kinds {
            blocks.push(("only".into(), t.clone()));
            let mut b = vec![];
            gen.push_unit(codec, dir, 0, rng, &mut b);
            b.extend_from_slice(t);
            blocks.push(("every other".into(), b));
            let mut b = vec![];
            for _ in 0..100 {
                gen.push_unit(codec, dir, 3, rng, &mut b);
            }
            b.extend_from_slice(t);
            blocks.push(("now and then".into(), b));
        }
        for (name, block) in blocks {
            // The last unit: nothing, or something of another kind.
            let last = if rng.one_in(2) { vec![] } else { rng.pick(&kinds).clone() };
            for mode in [Mode::Room, Mode::Buffer(*rng.pick(&[16, 32, 64])), Mode::Buffer(*rng.pick(&[4, 5, 300, 1000])), Mode::Open(*rng.pick(&[16, 32, 64, 1000]))] {
                scenes.push(Scene { codec, dir, name: name.clone(), block: block.clone(), last: last.clone(), mode });
            }
        }
    }
    let next = AtomicUsize::new(0);
    let calls = AtomicU64::new(0);
    let again = AtomicU64::new(0);
    let worst: Mutex<(f64, String)> = Mutex::new((0.0, String::new()));
    let worst_call: Mutex<(f64, String)> = Mutex::new((0.0, String::new()));
    let unit = unit();
    let found: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| {
                let mut out = vec![0u8; small * TIMES * 4 + 4096];
                while found.lock().unwrap().is_none() {
                    let Some(s) = scenes.get(next.fetch_add(1, Relaxed)) else { break };
                    let c = &codecs[s.codec];
                    let i1 = input(s, small);
                    if matches!(s.mode, Mode::Buffer(b) | Mode::Open(b) if b <= 16) {
                        let (mut t, mut k, mut share) = (f64::MAX, 0, f64::MAX);
                        let mut ample = f64::MAX;
                        let with_more = |b| if let Mode::Open(_) = s.mode { Mode::Open(b) } else { Mode::Buffer(b) };
                        let roomy = Scene { codec: s.codec, dir: s.dir, name: String::new(), block: vec![], last: vec![], mode: with_more(1000) };
                        for round in 0..12 {
                            // What the conversion itself takes.
                            ample = ample.min(measure(c, &roomy, &i1, &mut out, 60.0).0);
                            let (t1, k1) = measure(c, s, &i1, &mut out, 60.0);
                            calls.fetch_add(k1, Relaxed);
                            if t1 < t {
                                (t, k) = (t1, k1);
                            }
                            share = t / (unit * (k as f64 * PER_CALL + i1.len() as f64 * PER_BYTE) + 4.0 * ample);
                            if share < 1.0 {
                                break;
                            }
                            if round > 0 {
                                again.fetch_add(1, Relaxed);
                            }
                        }
                        let say = || {
                            format!(
                                "{} {} {:?}, {} [{}]: {} bytes in {k} calls take {:.3} ms, {:.0} ns a call, as long as {:.0} multiplications",
                                c.name,
                                if s.dir == Dir::Enc { "encode" } else { "decode" },
                                s.mode,
                                s.name,
                                s.block.iter().take(24).map(|b| format!("{b:02x}")).collect::<String>(),
                                i1.len(),
                                t * 1e3,
                                t * 1e9 / k as f64,
                                t / unit / k as f64
                            )
                        };
                        let mut w = worst_call.lock().unwrap();
                        if share > w.0 {
                            *w = (share, say());
                        }
                        drop(w);
                        if share >= 1.0 {
                            found.lock().unwrap().get_or_insert_with(|| format!("a call that has little room does much work all the same: {}", say()));
                            break;
                        }
                    }
                    let mut i2 = vec![];
                    let (mut t1, mut t2) = (f64::MAX, f64::MAX);
                    let mut bad = false;
                    let mut times = TIMES;
                    // (a call cannot be interrupted: first a length at which the worst still returns)
                    for round in (0..6).map(|r| (r, TIMES / 8)).chain((0..6).map(|r| (r, TIMES))) {
                        let (round, n) = round;
                        if n != times || i2.is_empty() {
                            if bad {
                                break;
                            }
                            times = n;
                            i2 = input(s, small * times);
                            t2 = f64::MAX;
                        } else if !bad || (round > 2 && t2 > 4.0 * (t1 * times as f64 * 4.0 + 0.04)) {
                            // As it should be; or beyond doubt.
                            continue;
                        }
                        for _ in 0..3 {
                            let (t, k) = measure(c, s, &i1, &mut out, 60.0);
                            t1 = t1.min(t);
                            calls.fetch_add(k, Relaxed);
                        }
                        let limit = t1 * times as f64 * 4.0 + 0.04;
                        let (t, k) = measure(c, s, &i2, &mut out, limit * 2.0 + 0.2);
                        t2 = t2.min(t);
                        calls.fetch_add(k, Relaxed);
                        bad = t2 > limit;
                        if round > 0 {
                            again.fetch_add(1, Relaxed);
                        }
                    }
                    let ratio = (t2 - 0.01).max(0.0) / (t1 * times as f64);
                    let say = || {
                        format!(
                            "{} {} {:?}, {} [{}]: {} bytes take {:.3} ms, {} bytes {:.1} ms",
                            c.name,
                            if s.dir == Dir::Enc { "encode" } else { "decode" },
                            s.mode,
                            s.name,
                            s.block.iter().take(24).map(|b| format!("{b:02x}")).collect::<String>(),
                            i1.len(),
                            t1 * 1e3,
                            i2.len(),
                            t2 * 1e3
                        )
                    };
                    let mut w = worst.lock().unwrap();
                    if ratio > w.0 {
                        *w = (ratio, say());
                    }
                    drop(w);
                    if bad {
                        found.lock().unwrap().get_or_insert_with(|| format!("the work grows faster than the input: {}", say()));
                    }
                }
            });
        }
    });
    let err = found.into_inner().unwrap();
    let worst = worst.into_inner().unwrap();
    let worst_call = worst_call.into_inner().unwrap();
    let mut kinds: Vec<(usize, u8, &[u8])> = scenes.iter().map(|s| (s.codec, s.dir as u8, &s.block[..])).collect();
    kinds.sort();
    kinds.dedup();
    if let Some(p) = a.get("out") {
        let samples: Vec<String> = scenes.iter().step_by(scenes.len() / 8 + 1).map(|s| js(&format!("{} {:?} {} {:?}", codecs[s.codec].name, s.dir, s.name, s.mode))).collect();
        std::fs::write(
            p,
            format!(
                "{{\"calls\":{},\"conversions\":{},\"distinct_nontrivial\":{},\"measured_again\":{},\"worst_ratio\":{:.2},\"worst\":{},\"worst_share_of_call_limit\":{:.3},\"worst_call\":{},\"samples\":[{}],\"violation\":{},\"wall_s\":{:.2}}}\n",
                calls.load(Relaxed),
                scenes.len(),
                kinds.len(),
                again.load(Relaxed),
                worst.0,
                js(&worst.1),
                worst_call.0,
                js(&worst_call.1),
                samples.join(","),
                js(err.as_deref().unwrap_or("")),
                t0.elapsed().as_secs_f64()
            ),
        )
        .unwrap();
    }
    match err {
        Some(e) => {
            println!("violation of C22: {e}");
            1
        }
        None => 0,
    }
}
