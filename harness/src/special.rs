//! Monitors that look at more than one call at a time, or at the machine rather than the result.
use crate::case::*;
use crate::codecs::{Codec, Fam};
use crate::gen::*;
use crate::model::*;
use crate::toks::*;
use crate::{js, Args};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

// ---------------------------------------------------------------------------------------------- purity (C18)

pub struct Pool {
    pub per: usize,
    pub want: usize,
    pub every: u64,
    pub seen: u64,
    pub cases: Vec<Case>,
}
impl Sink for Pool {
    fn case(&mut self, c: &Case) -> bool {
        self.seen += 1;
        if self.seen % self.every == 0 && c.cap <= 1 << 21 {
            self.cases.push(c.clone());
            self.per += 1;
        }
        self.per < self.want
    }
}

#[inline]
fn fnv(mut h: u64, b: &[u8]) -> u64 {
    let mut it = b.chunks_exact(8);
    for w in &mut it {
        h = (h ^ u64::from_le_bytes(w.try_into().unwrap())).wrapping_mul(0x9FB2_1C65_1E98_DF25);
        h ^= h >> 29;
    }
    for &x in it.remainder() {
        h = (h ^ x as u64).wrapping_mul(0x100_0000_01B3);
    }
    h ^ h >> 31
}
/// Everything a caller gets back from a call.
pub fn digest(r: &R, out: &[u8]) -> u64 {
    let (k, o): ([u64; 5], &[u8]) = match *r {
        R::Ok { n, len, at_start } => ([1, n as u64, len as u64, at_start as u64, 0], &out[..len.min(out.len())]),
        R::Err { start, end, ch, written, invalid } => {
            ([2 + invalid as u64, start as u64, end as u64, ch as u64, written as u64], &out[..written.min(out.len())])
        }
        R::Panic(_) => ([9, 0, 0, 0, 0], &out[..0]),
    };
    let mut h = 0xCBF2_9CE4_8422_2325u64;
    for x in k {
        h = (h ^ x).wrapping_mul(0x9FB2_1C65_1E98_DF25);
        h ^= h >> 29;
    }
    fnv(h, o) | 1
}

struct Env<'m> {
    cx: Cx<'m>,
    inb: Vec<u8>,
    outb: Vec<u8>,
}
impl Env<'_> {
    /// One call under a given prior state of the buffers.
    fn go(&mut self, c: &Case, shared_input: bool, oi: usize, oo: usize, fill: u32, rng: &mut Rng) -> (u64, R) {
        if !shared_input && oi & 3 == 1 {
            return self.neighbours(c, oi, oo, fill, rng);
        }
        if self.outb.len() < oo + c.cap {
            self.outb.resize((oo + c.cap) * 2 + 64, 0x5A);
        }
        prepare(&mut self.outb[oo..oo + c.cap], c, fill, rng);
        let inp: &[u8] = if shared_input {
            &c.input
        } else {
            if self.inb.len() < oi + c.input.len() {
                self.inb.resize((oi + c.input.len()) * 2 + 64, 0);
            }
            self.inb[oi..oi + c.input.len()].copy_from_slice(&c.input);
            &self.inb[oi..oi + c.input.len()]
        };
        let r = self.cx.call_raw(c.codec, c.dir, inp, &mut self.outb[oo..oo + c.cap], c.end);
        (digest(&r, &self.outb[oo..oo + c.cap]), r)
    }
    /// Input and output parts of the same memory, one next to the other.
    fn neighbours(&mut self, c: &Case, oi: usize, oo: usize, fill: u32, rng: &mut Rng) -> (u64, R) {
        let (n, gap) = (c.input.len(), if oo & 1 == 0 { 0 } else { rng.below(20) });
        let need = oo + n + gap + c.cap + 32;
        if self.outb.len() < need {
            self.outb.resize(need * 2, 0x5A);
        }
        let at = oo / 2;
        let (i, o): (&mut [u8], &mut [u8]) = if oi & 4 == 0 {
            let (i, o) = self.outb[at..].split_at_mut(n);
            (i, &mut o[gap..gap + c.cap])
        } else {
            let (o, i) = self.outb[at..].split_at_mut(c.cap);
            (&mut i[gap..gap + n], o)
        };
        prepare(o, c, fill, rng);
        i.copy_from_slice(&c.input);
        let r = self.cx.call_raw(c.codec, c.dir, i, o, c.end);
        (digest(&r, o), r)
    }
}
/// The contents of an output buffer before a call.
fn prepare(o: &mut [u8], c: &Case, fill: u32, rng: &mut Rng) {
    match fill {
        0 => o.fill(0xAA),
        1 => o.fill(0),
        2 => o.fill(0xFF),
        3 => o.fill(b'a'),
        4 => o.fill(0x80),
        5 => {
            for x in o.iter_mut() {
                *x = rng.next() as u8
            }
        }
        6 => {
            for (i, x) in o.iter_mut().enumerate() {
                *x = c.input.get(i).copied().unwrap_or(0xE2)
            }
        }
        _ => {} // as the calls before left it
    }
}

pub fn purity(a: &Args, codecs: &[Codec], m: &Model) -> i32 {
    let t0 = Instant::now();
    let seed = a.num("seed", 1);
    let threads = a.num("threads", 8) as usize;
    let rounds = a.num("rounds", 20);
    let conc = a.num("conc", 20);
    let want = a.num("pool", 60) as usize;
    let max_secs = a.num("max-secs", 1_000_000);
    let reverse = a.num("reverse", 0) == 1;
    let dict = Dict::parse(&a.read("dict"));
    let gen = Gen::new(m, codecs, 18, seed, &dict);
    let mut pool = Pool { per: 0, want, every: 1, seen: 0, cases: vec![] };
    for (i, (codec, dir)) in gen.scope().into_iter().enumerate() {
        for (j, (kind, every, big)) in [
            (Kind::Seq(2, 0, 2000), 7, false),
            (Kind::SeqRand(4, 300), 5, false),
            (Kind::Rand(300, 60), 3, false),
            (Kind::Rand(60, 2000), 5, false),
            (Kind::Neigh(400), 1, false),
            (Kind::Runs(3, 24), 5, false),
            (Kind::DictK(1, 8), 11, false),
            (Kind::Big(4, 70_000), 1, true),
        ]
        .into_iter()
        .enumerate()
        {
            pool.per = 0;
            pool.want = if big { 1 } else { want };
            pool.every = every;
            gen.run((i * 16 + j) as u64, &Item { codec, dir, kind }, &mut pool);
        }
    }
    // Waiting for more input, errors, and what comes after: the states a call could leave behind.
    let cases = pool.cases;
    let n = cases.len();
    let mut rng = Rng::new(seed ^ 0x18);
    let mut env = Env { cx: Cx::new(m, codecs, false), inb: vec![], outb: vec![] };
    let mut refs = vec![0u64; n];
    let mut sum = 0u64;
    let idx: Vec<usize> = if reverse { (0..n).rev().collect() } else { (0..n).collect() };
    for &i in &idx {
        refs[i] = env.go(&cases[i], false, 0, 0, if reverse { 2 } else { 0 }, &mut rng).0;
        sum = sum.wrapping_add((refs[i] ^ i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15));
    }
    let found: Mutex<Option<String>> = Mutex::new(None);
    let report = |c: &Case, i: usize, how: String, got: &R, want: u64, have: u64| {
        let mut f = found.lock().unwrap();
        if f.is_none() {
            *f = Some(format!("{how}\ncase {i}: {}result {have:016x}, alone {want:016x}: {got:?}", c.to_text("C18", codecs)));
        }
    };
    let mut histories = 0u64;
    // One thread: orders, prior contents, alignments.
    let big = |i: usize| cases[i].input.len() > 5000 || cases[i].cap > 20_000;
    'rounds: for round in 0..rounds {
        if t0.elapsed().as_secs() >= max_secs / 2 {
            break;
        }
        let mut order: Vec<usize> = (0..n).filter(|&i| !big(i) || round % 8 == 0).collect();
        for i in (1..order.len()).rev() {
            let j = rng.below(i + 1);
            order.swap(i, j);
        }
        match round % 5 {
            1 => order.sort_by_key(|&i| cases[i].codec),
            2 => order.sort_by_key(|&i| (cases[i].codec, cases[i].dir as u8, cases[i].input.len())),
            3 => order.sort_by_key(|&i| cases[i].input.len()),
            _ => {}
        }
        let stale = rng.one_in(2);
        let aligned = round % 5 == 2 || round % 5 == 3 || rng.one_in(3);
        let mut k = 0;
        while k < order.len() {
            let i = order[k];
            // Now and then the same call again, and A B A.
            let many = if rng.one_in(50) { 300 } else { 4 };
            let reps = if rng.one_in(40) && !big(i) { 2 + rng.below(many) } else { 1 };
            let fill = if stale && !rng.one_in(10) { 7 } else { rng.below(8) as u32 };
            let (oi, oo) = if aligned { (0, 0) } else { (rng.below(16), rng.below(16)) };
            for _ in 0..reps {
                let (d, r) = env.go(&cases[i], false, oi, oo, fill, &mut rng);
                histories += 1;
                if d != refs[i] {
                    report(
                        &cases[i],
                        i,
                        format!("a call gives another result in a different history (round {round}, position {k}, prior contents {fill}, alignment {oi}/{oo})"),
                        &r,
                        refs[i],
                        d,
                    );
                    break 'rounds;
                }
            }
            if k > 0 && rng.one_in(30) {
                k -= 1;
            } else {
                k += 1;
            }
        }
    }
    // Many threads on the same inputs. The threads do not synchronise with each other while they run.
    let slots: Vec<AtomicU32> = (0..threads).map(|_| AtomicU32::new(0)).collect();
    let ncd = codecs.len() * 2;
    let pairs: Vec<AtomicBool> = (0..(ncd + 1) * (ncd + 1)).map(|_| AtomicBool::new(false)).collect();
    let stop = AtomicBool::new(false);
    let concurrent = AtomicU64::new(0);
    if found.lock().unwrap().is_none() && threads > 1 {
        std::thread::scope(|s| {
            for t in 0..threads {
                let (cases, refs, slots, pairs, stop, concurrent, report) = (&cases, &refs, &slots, &pairs, &stop, &concurrent, &report);
                let mut rng = Rng::new(seed ^ (t as u64 + 1) << 40);
                s.spawn(move || {
                    let mut env = Env { cx: Cx::new(m, codecs, false), inb: vec![], outb: vec![] };
                    let mut k = 0u64;
                    let total = conc * n as u64;
                    let mut hot = rng.below(n);
                    while k < total && !stop.load(Relaxed) {
                        k += 1;
                        if k & 0xFFF == 0 && t0.elapsed().as_secs() >= max_secs {
                            break;
                        }
                        // Everywhere, or all threads within a small part of the pool.
                        if k % 512 == 0 {
                            hot = (k / 512 * 7919 % n as u64) as usize;
                        }
                        let i = if k / 4096 % 2 == 0 { rng.below(n) } else { (hot + rng.below(64)) % n };
                        let c = &cases[i];
                        if c.input.len() > 5000 && !rng.one_in(50) {
                            continue;
                        }
                        let me = (c.codec * 2 + c.dir as usize + 1) as u32;
                        slots[t].store(me, Relaxed);
                        let other = slots[rng.below(slots.len())].load(Relaxed);
                        let (fill, oi, oo) = (rng.below(8) as u32, rng.below(16), rng.below(16));
                        let (d, r) = env.go(c, rng.one_in(2), oi, oo, fill, &mut rng);
                        slots[t].store(0, Relaxed);
                        if other != 0 {
                            let p = &pairs[me as usize * (ncd + 1) + other as usize];
                            if !p.load(Relaxed) {
                                p.store(true, Relaxed);
                            }
                        }
                        if d != refs[i] {
                            report(c, i, format!("a call gives another result while {threads} threads make calls (thread {t}, call {k})"), &r, refs[i], d);
                            stop.store(true, Relaxed);
                        }
                    }
                    concurrent.fetch_add(k, Relaxed);
                });
            }
        });
    }
    let overlaps = pairs.iter().filter(|p| p.load(Relaxed)).count();
    let err = found.into_inner().unwrap();
    if let Some(p) = a.get("out") {
        let samples: Vec<String> = cases.iter().filter(|c| c.input.len() < 40).step_by(n / 8 + 1).map(|c| js(&c.to_text("C18", codecs).replace('\n', " "))).collect();
        std::fs::write(
            p,
            format!(
                "{{\"pool\":{n},\"digest\":\"{sum:016x}\",\"sequential_calls\":{histories},\"concurrent_calls\":{},\"overlapping_operation_pairs_seen\":{overlaps},\
                 \"distinct_results\":{},\"samples\":[{}],\"violation\":{},\"wall_s\":{:.2}}}\n",
                concurrent.load(Relaxed),
                {
                    let mut d = refs.clone();
                    d.sort();
                    d.dedup();
                    d.len()
                },
                samples.join(","),
                js(err.as_deref().unwrap_or("")),
                t0.elapsed().as_secs_f64()
            ),
        )
        .unwrap();
    }
    match err {
        Some(e) => {
            println!("violation of C18: {e}");
            1
        }
        None => 0,
    }
}

// ----------------------------------------------------------------------------------------------- stack (C20)

#[cfg(not(miri))]
mod own_stack {
    extern "C" {
        fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        fn madvise(a: *mut u8, n: usize, advice: i32) -> i32;
        fn mincore(a: *mut u8, n: usize, v: *mut u8) -> i32;
        fn pthread_attr_init(a: *mut u64) -> i32;
        fn pthread_attr_setstack(a: *mut u64, s: *mut u8, n: usize) -> i32;
        fn pthread_attr_destroy(a: *mut u64) -> i32;
        fn pthread_create(t: *mut u64, a: *const u64, f: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) -> i32;
        fn pthread_join(t: u64, r: *mut *mut u8) -> i32;
    }
    pub struct Stack {
        base: *mut u8,
        size: usize,
        vec: Vec<u8>,
    }
    extern "C" fn entry(p: *mut u8) -> *mut u8 {
        let f = unsafe { &mut *(p as *mut &mut dyn FnMut()) };
        f();
        std::ptr::null_mut()
    }
    impl Stack {
        pub fn new(size: usize) -> Stack {
            let base = unsafe { mmap(std::ptr::null_mut(), size, 3, 0x22 | 0x4000, -1, 0) };
            assert!(base as isize != -1, "mmap");
            // Page by page, or every touch would show as 2 MiB.
            unsafe { madvise(base, size, 15) };
            Stack { base, size, vec: vec![0; size / 4096] }
        }
        /// Runs f on this stack; returns how deep it went, in bytes (whole pages).
        pub fn run(&mut self, f: &mut dyn FnMut()) -> usize {
            unsafe {
                assert_eq!(madvise(self.base, self.size, 4), 0);
                let mut attr = [0u64; 32];
                let mut t = 0;
                let mut fat: &mut dyn FnMut() = f;
                assert_eq!(pthread_attr_init(attr.as_mut_ptr()), 0);
                assert_eq!(pthread_attr_setstack(attr.as_mut_ptr(), self.base, self.size), 0);
                assert_eq!(pthread_create(&mut t, attr.as_ptr(), entry, &mut fat as *mut _ as *mut u8), 0);
                pthread_join(t, std::ptr::null_mut());
                pthread_attr_destroy(attr.as_mut_ptr());
                assert_eq!(mincore(self.base, self.size, self.vec.as_mut_ptr()), 0);
            }
            let low = self.vec.iter().position(|x| x & 1 == 1).unwrap_or(self.vec.len());
            self.size - low * 4096
        }
    }
}

#[cfg(miri)]
pub fn stack(_: &Args, _: &[Codec], _: &Model) -> i32 {
    2
}
#[cfg(not(miri))]
pub fn stack(a: &Args, codecs: &[Codec], m: &Model) -> i32 {
    let t0 = Instant::now();
    let seed = a.num("seed", 1);
    let growth = a.num("growth", 16 << 10) as usize;
    let limit = a.num("limit", 64 << 10) as usize;
    let sizes: Vec<usize> = a.get("sizes").unwrap_or("48,3000,200000").split(',').map(|x| x.parse().unwrap()).collect();
    let per_call = a.num("per-call-ms", 400) as u128;
    let threads = a.num("threads", 8).max(1) as usize;
    let dict = Dict::default();
    let gen = Gen::new(m, codecs, 20, seed, &dict);
    let empty = own_stack::Stack::new(64 << 20).run(&mut || {});
    let (calls, shapes_seen, next) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let per: Mutex<Vec<(usize, usize, usize)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| {
                let mut st = own_stack::Stack::new(512 << 20);
                loop {
                    let job = next.fetch_add(1, Relaxed) as usize;
                    if job >= codecs.len() * 2 || bad.lock().unwrap().is_some() {
                        return;
                    }
                    // (the slow ones first)
                    let job = codecs.len() * 2 - 1 - job;
                    let (ci, d) = (job / 2, job % 2);
                    let dir = [Dir::Enc, Dir::Dec][d];
                    let c = &codecs[ci];
                    let mut rng = Rng::new(seed ^ 0x20 ^ (job as u64) << 32);
                    let mut worst = 0;
                    for shape in 0..13usize {
                        // The same shape at several lengths, several buffers.
                        let mut depth: Vec<(usize, usize)> = vec![];
                        let shape_seed = rng.next();
                        let mut ns_per_byte = 0f64;
                        for &n in &sizes {
                            if ns_per_byte * n as f64 > per_call as f64 * 1e6 {
                                // (an unoptimised build may copy a table per character)
                                continue;
                            }
                            let mut input: Vec<u8> = vec![];
                            let mut r = Rng::new(shape_seed);
                            while input.len() < n {
                                let class = match shape {
                                    0 => 0,
                                    1 => 1,
                                    2 | 8 | 9 | 11 => 3,
                                    3 => *r.pick(&[0, 3]),
                                    4 => *r.pick(&[0, 0, 0, 0, 0, 0, 3]),
                                    5 => 8,
                                    6 => 2,
                                    7 => 9,
                                    10 => 0,
                                    _ => 5,
                                };
                                gen.push_unit(ci, dir, class, &mut r, &mut input);
                            }
                            match shape {
                                8 | 10 => gen.push_unit(ci, dir, 5, &mut r, &mut input),
                                9 | 11 if dir == Dir::Dec => {
                                    input.pop();
                                }
                                _ => {}
                            }
                            let mut d = 0;
                            let room = [input.len() * 4 + 16, input.len() / 2, input.len().saturating_sub(1)];
                            let combos: &[(usize, bool)] = if n > 1_000_000 {
                                &[(0, true), (1, false)]
                            } else {
                                &[(0, true), (0, false), (1, true), (1, false), (2, true), (2, false)]
                            };
                            let t = Instant::now();
                            for &(cap, end) in combos {
                                let mut out = vec![0u8; room[cap]];
                                let mut run = || {
                                    let i = std::hint::black_box(&input[..]);
                                    match dir {
                                        Dir::Enc => {
                                            let s = unsafe { std::str::from_utf8_unchecked(i) };
                                            let _ = std::hint::black_box((c.enc)(s, &mut out, end));
                                        }
                                        Dir::Dec => {
                                            let _ = std::hint::black_box((c.dec)(i, &mut out, end));
                                        }
                                    }
                                };
                                let mut guarded = || {
                                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut run));
                                };
                                d = d.max(st.run(&mut guarded));
                                calls.fetch_add(1, Relaxed);
                            }
                            if n >= 2000 {
                                ns_per_byte = t.elapsed().as_nanos() as f64 / combos.len() as f64 / n as f64;
                            }
                            depth.push((input.len(), d.saturating_sub(empty)));
                        }
                        shapes_seen.fetch_add(1, Relaxed);
                        let (lo, hi) = (depth.iter().map(|x| x.1).min().unwrap(), depth.iter().map(|x| x.1).max().unwrap());
                        worst = worst.max(hi);
                        // Long inputs may take another path than short ones, which may need somewhat more; among
                        // the long ones, nothing may be added but what page granularity does.
                        let k = depth.len();
                        let last = if k >= 2 && depth[k - 2].0 >= 50_000 { depth[k - 1].1.saturating_sub(depth[k - 2].1) } else { 0 };
                        if hi > lo + growth || hi > limit || last > growth / 2 {
                            *bad.lock().unwrap() = Some(format!(
                                "{} {} shape {shape}: stack use in bytes by input length {depth:?} (allowed: growth {growth}, {} over the last step, total {limit})",
                                c.name,
                                if dir == Dir::Enc { "encode" } else { "decode" },
                                growth / 2
                            ));
                            return;
                        }
                    }
                    per.lock().unwrap().push((ci, d, worst));
                }
            });
        }
    });
    let bad = bad.into_inner().unwrap();
    let mut per = per.into_inner().unwrap();
    per.sort();
    let max = per.iter().map(|x| x.2).max().unwrap_or(0);
    let per: Vec<String> = per.iter().map(|&(ci, d, w)| format!("{}:{w}", js(&format!("{}.{}", codecs[ci].name, ["encode", "decode"][d])))).collect();
    let (calls, shapes_seen) = (calls.into_inner(), shapes_seen.into_inner());
    if let Some(p) = a.get("out") {
        std::fs::write(
            p,
            format!(
                "{{\"calls\":{calls},\"shapes\":{shapes_seen},\"empty_thread_bytes\":{empty},\"deepest_bytes\":{max},\"by_codec\":{{{}}},\"violation\":{},\"wall_s\":{:.2}}}\n",
                per.join(","),
                js(bad.as_deref().unwrap_or("")),
                t0.elapsed().as_secs_f64()
            ),
        )
        .unwrap();
    }
    match bad {
        Some(b) => {
            println!("violation of C20: {b}");
            1
        }
        None => 0,
    }
}

// ------------------------------------------------------------------------------------------------ dump (C21)

/// Writes down what the library does with every byte, byte pair and character.
pub fn dump(a: &Args, codecs: &[Codec]) -> i32 {
    use std::fmt::Write;
    let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    let texts: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = codecs
            .iter()
            .map(|c| {
                s.spawn(move || {
                    let mut t = String::new();
                    let mut o = [0u8; 64];
                    let mut dec = |t: &mut String, i: &[u8], errors: bool| {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match (c.dec)(i, &mut o, true) {
                            Ok((x, n)) => Ok((x.as_bytes().to_vec(), n)),
                            Err(e) => Err(format!("{:?} {}", e.error_range, e.output_bytes_written)),
                        }));
                        match r {
                            Ok(Ok((x, n))) => writeln!(t, "{} decode {} -> {} {n}", c.name, hex(i), hex(&x)).unwrap(),
                            Ok(Err(e)) if errors => writeln!(t, "{} decode {} -> error {e}", c.name, hex(i)).unwrap(),
                            Ok(Err(_)) => {}
                            Err(_) => writeln!(t, "{} decode {} -> panic", c.name, hex(i)).unwrap(),
                        }
                    };
                    if matches!(c.fam, Fam::Utf8 | Fam::Utf16 { .. } | Fam::Utf32 { .. }) {
                        return t;
                    }
                    for b in 0..=255u8 {
                        dec(&mut t, &[b], true);
                    }
                    if matches!(c.fam, Fam::Big5 | Fam::Sjis) {
                        for b in 0..=255u8 {
                            for d in 0..=255u8 {
                                dec(&mut t, &[b, d], true);
                            }
                        }
                    }
                    let enc = |t: &mut String, s: &str, end: bool| {
                        let mut o = [0u8; 16];
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match (c.enc)(s, &mut o, end) {
                            Ok((x, n)) => Some((x.to_vec(), n)),
                            Err(_) => None,
                        }));
                        match r {
                            Ok(Some((x, n))) => writeln!(t, "{} encode {s:?} {end} -> {} {n}", c.name, hex(&x)).unwrap(),
                            Ok(None) => {}
                            Err(_) => writeln!(t, "{} encode {s:?} -> panic", c.name).unwrap(),
                        }
                    };
                    for u in 0..0x110000u32 {
                        if let Some(ch) = char::from_u32(u) {
                            let mut b = [0; 4];
                            enc(&mut t, ch.encode_utf8(&mut b), true);
                        }
                    }
                    for x in ["\u{CA}", "\u{EA}", "a"] {
                        for y in ["\u{304}", "\u{30C}", "\u{301}", "b"] {
                            enc(&mut t, &format!("{x}{y}"), true);
                            enc(&mut t, &format!("{x}{y}"), false);
                        }
                    }
                    t
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    std::fs::write(&a.positional()[0], texts.concat()).unwrap();
    0
}

// ------------------------------------------------------------------------------------------------ Miri (C02)

/// A small workload without the model, for the undefined-behaviour interpreter: every call in exactly sized
/// allocations, then the caller's own use of what came back.
pub fn tiny(a: &Args, codecs: &[Codec]) -> i32 {
    let seed = a.num("seed", 1);
    let (part, parts) = (a.num("part", 0) as usize, a.num("parts", 1) as usize);
    let n = a.num("n", 40) as usize;
    let threads = a.num("threads", 0) as usize;
    let mut rng = Rng::new(seed ^ (part as u64) << 32);
    let mut calls = 0u64;
    let mut outcomes = [0u64; 3];
    let one = |c: &Codec, dir: Dir, input: &[u8], cap: usize, end: bool| -> usize {
        let i: Box<[u8]> = input.into();
        let mut o: Box<[u8]> = vec![0xAA; cap].into_boxed_slice();
        match dir {
            Dir::Enc => {
                let s = std::str::from_utf8(&i).unwrap();
                match (c.enc)(s, &mut o, end) {
                    Ok((x, k)) => {
                        assert!(s.is_char_boundary(k) && x.len() <= cap);
                        let x0 = x.to_vec();
                        assert!(x0.iter().map(|&b| b as usize).sum::<usize>() < usize::MAX);
                        (k < s.len()) as usize
                    }
                    Err(e) => {
                        assert!(e.output_bytes_written <= cap && e.error_range.1 <= s.len());
                        2
                    }
                }
            }
            Dir::Dec => match (c.dec)(&i, &mut o, end) {
                Ok((x, k)) => {
                    assert!(k <= i.len() && x.len() <= cap);
                    assert!(std::str::from_utf8(x.as_bytes()).is_ok(), "not UTF-8: {:?}", x.as_bytes());
                    assert!(x.chars().map(|c| c as u64).sum::<u64>() < u64::MAX);
                    (k < i.len()) as usize
                }
                Err(e) => {
                    assert!(e.error_range.0 < e.error_range.1 && e.error_range.1 <= i.len());
                    let w = e.output_bytes_written;
                    assert!(std::str::from_utf8(&o[..w]).is_ok());
                    2
                }
            },
        }
    };
    let work: Vec<(usize, Dir)> = (0..codecs.len() * 2)
        .filter(|k| k % parts == part)
        .map(|k| (k / 2, if k % 2 == 0 { Dir::Enc } else { Dir::Dec }))
        .collect();
    for &(ci, dir) in &work {
        let c = &codecs[ci];
        let single = matches!(c.fam, Fam::Single(_));
        let toks = plain_tokens(c.fam, dir, seed);
        for k in 0..toks.len() + if single { n / 4 } else { n } {
            let input: Vec<u8> = if k < toks.len() {
                toks[k].clone()
            } else {
                let mut v = vec![];
                for _ in 0..1 + rng.below(5) {
                    v.extend_from_slice(rng.pick(&toks));
                    if rng.one_in(8) {
                        v.extend(std::iter::repeat(b'x').take(rng.below(40)));
                    }
                }
                v
            };
            let top = input.len() * 2 + 4;
            let caps: Vec<usize> = if k < toks.len() { vec![0, 1, 2, 3, 4, 8] } else { vec![rng.below(top), rng.below(top), top * 2] };
            for cap in caps {
                for end in [true, false] {
                    if !end && !(if dir == Dir::Enc { c.enc_end } else { c.dec_end }) {
                        continue;
                    }
                    outcomes[one(c, dir, &input, cap, end)] += 1;
                    calls += 1;
                }
            }
        }
    }
    if threads > 1 {
        // Two or more threads on shared inputs, for the data-race detector.
        let shared: Vec<(usize, Dir, Vec<u8>)> = work.iter().flat_map(|&(ci, d)| plain_tokens(codecs[ci].fam, d, seed).into_iter().step_by(5).map(move |t| (ci, d, t))).collect();
        std::thread::scope(|s| {
            for t in 0..threads {
                let shared = &shared;
                s.spawn(move || {
                    let mut o = [0u8; 16];
                    for k in 0..shared.len() {
                        let (ci, d, t0) = &shared[(k * 7 + t * 3) % shared.len()];
                        match d {
                            Dir::Enc => drop((codecs[*ci].enc)(std::str::from_utf8(t0).unwrap(), &mut o, true).is_ok()),
                            Dir::Dec => drop((codecs[*ci].dec)(t0, &mut o, false).is_ok()),
                        }
                    }
                });
            }
        });
        calls += (threads * shared.len()) as u64;
    }
    println!("tiny: {{\"calls\":{calls},\"all_consumed\":{},\"stopped_early\":{},\"errors\":{}}}", outcomes[0], outcomes[1], outcomes[2]);
    0
}
