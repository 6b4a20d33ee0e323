//! mon: runs the library under workloads and judges every observed call.
//!
//!   mon run --prop N --seed S --tier quick|thorough --part P --threads T [--exact] [--max-secs X]
//!           [--dict F] [--known F] [--journal F] [--out STATS] [--save CASE] [--sample N]
//!   mon find --prop N ... --item I --count K --save CASE     the K-th case of an item, without running it
//!   mon replay CASE [--exact]                                exit 1 if the case violates its property
//!   mon purity ... / mon stack ... / mon dump OUT
#![allow(clashing_extern_declarations)]
mod alloc;
mod case;
mod codecs;
mod fuzz;
mod gen;
#[cfg(not(miri))]
mod huge;
mod model;
mod plat;
mod platcmd;
mod props;
mod special;
#[cfg(not(miri))]
mod reentry;
mod toks;
mod work;
/// For the files that are also built without the standard library.
mod prelude {
    pub use std::{string::ToString, vec, vec::Vec};
}

use case::*;
use codecs::Codec;
use gen::*;
use model::*;
use toks::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

pub struct Args(HashMap<String, String>, Vec<String>);
impl Args {
    pub fn positional(&self) -> &[String] {
        &self.1
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map(|s| s.parse().unwrap_or_else(|_| panic!("--{k} {s}"))).unwrap_or(d)
    }
    pub fn read(&self, k: &str) -> String {
        self.get(k).map(|p| std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{p}: {e}"))).unwrap_or_default()
    }
}

/// Two words per thread, shared with the driver through a file: which item, how many cases of it so far.
struct Journal(*mut u64);
unsafe impl Sync for Journal {}
impl Journal {
    fn open(path: Option<&str>) -> Journal {
        #[cfg(unix)]
        if let Some(p) = path {
            use std::os::fd::AsRawFd;
            extern "C" {
                fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
            }
            let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).unwrap();
            f.set_len(4096).unwrap();
            let m = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
            assert!(m as isize != -1, "mmap");
            return Journal(m as *mut u64);
        }
        Journal(std::ptr::null_mut())
    }
    #[inline]
    fn put(&self, slot: usize, a: u64, b: u64) {
        if !self.0.is_null() {
            unsafe {
                self.0.add(slot * 8).write_volatile(a);
                self.0.add(slot * 8 + 1).write_volatile(b);
            }
        }
    }
}

/// Counts distinct cases from below: a hash picks one bit of a large table.
struct Distinct(Vec<AtomicU64>);
const DBITS: u32 = 30;
impl Distinct {
    fn new(bits: u32) -> Distinct {
        Distinct((0..1usize << (bits - 6)).map(|_| AtomicU64::new(0)).collect())
    }
    #[inline]
    fn add(&self, h: u64) -> bool {
        let i = h >> (64 - DBITS);
        let w = &self.0[(i >> 6) as usize & (self.0.len() - 1)];
        let b = 1u64 << (i & 63);
        if w.load(Relaxed) & b != 0 {
            return false;
        }
        w.fetch_or(b, Relaxed) & b == 0
    }
}
fn hash(c: &Case) -> u64 {
    let mut h = (c.codec as u64) << 40 ^ (c.cap as u64) << 3 ^ (c.end as u64) << 1 ^ c.dir as u64;
    let mut mix = |x: u64| {
        h = (h ^ x).wrapping_mul(0x9FB2_1C65_1E98_DF25);
        h ^= h >> 32;
    };
    let mut it = c.input.chunks_exact(8);
    for w in &mut it {
        mix(u64::from_le_bytes(w.try_into().unwrap()));
    }
    let mut last = [0u8; 8];
    last[..it.remainder().len()].copy_from_slice(it.remainder());
    mix(u64::from_le_bytes(last) ^ (c.input.len() as u64) << 56);
    mix(c.input.len() as u64);
    for &a in &c.aux {
        mix(a as u64);
    }
    mix(1);
    h.wrapping_mul(0x9E37_79B9_7F4A_7C15)
}

struct Shared<'a> {
    journal: Journal,
    stop: AtomicBool,
    found: Mutex<Option<(u64, u64, Case, String)>>,
    distinct: &'a Distinct,
}

struct Runner<'m, 's> {
    cx: Cx<'m>,
    prop: u32,
    slot: usize,
    item: u64,
    count: u64,
    sample: u64,
    /// This item is not thinned out.
    whole: bool,
    sh: &'s Shared<'s>,
    evals: u64,
    nontrivial: u64,
    distinct: u64,
    max_in: usize,
    skipped: u64,
    samples: Vec<String>,
}
impl Sink for Runner<'_, '_> {
    #[inline]
    fn case(&mut self, c: &Case) -> bool {
        self.count += 1;
        if self.sample > 1 && !self.whole && self.count.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 32 > (1 << 32) / self.sample {
            self.skipped += 1;
            return true;
        }
        self.sh.journal.put(self.slot, self.item, self.count);
        self.cx.nontrivial = false;
        let r = props::check(self.prop, c, &mut self.cx);
        self.evals += 1;
        if self.cx.nontrivial {
            self.nontrivial += 1;
            if self.sh.distinct.add(hash(c)) {
                self.distinct += 1;
            }
            if self.samples.len() < 2 && self.count == 17 && c.input.len() < 64 {
                self.samples.push(c.to_text("", self.cx.codecs).replace('\n', " "));
            }
        }
        self.max_in = self.max_in.max(c.input.len());
        if let Err(e) = r {
            let mut f = self.sh.found.lock().unwrap();
            if f.as_ref().map_or(true, |x| (x.0, x.1) > (self.item, self.count)) {
                *f = Some((self.item, self.count, c.clone(), e));
            }
            self.sh.stop.store(true, Relaxed);
            return false;
        }
        // (a look at the flag now and then is enough)
        self.count & 0xFF != 0 || !self.sh.stop.load(Relaxed)
    }
}

/// Only counts, and keeps one case.
struct Finder {
    count: u64,
    want: u64,
    got: Option<Case>,
}
impl Sink for Finder {
    fn case(&mut self, c: &Case) -> bool {
        self.count += 1;
        if self.count == self.want {
            self.got = Some(c.clone());
            return false;
        }
        true
    }
}

/// Smaller case, same violated property.
fn minimise(prop: u32, mut c: Case, mut why: String, cx: &mut Cx) -> (Case, String) {
    let t0 = Instant::now();
    let t = t0;
    let ok = |c: &Case| c.dir == Dir::Dec || std::str::from_utf8(&c.input).is_ok();
    let mut attempt = |n: &Case, c: &mut Case, why: &mut String| -> bool {
        if t.elapsed().as_secs() >= 5 || !ok(n) {
            return false;
        }
        match props::check(prop, n, cx) {
            Err(e) => {
                *c = n.clone();
                *why = e;
                true
            }
            Ok(()) => false,
        }
    };
    loop {
        let before = (c.input.len(), c.cap, c.aux.len(), c.off);
        let mut n = c.clone();
        n.off = 0;
        if c.off != 0 {
            attempt(&n, &mut c, &mut why);
        }
        let mut step = (c.input.len() / 2).max(1);
        while step >= 1 {
            let mut i = 0;
            while i < c.input.len() && t0.elapsed().as_secs() < 5 {
                let mut n = c.clone();
                let e = (i + step).min(n.input.len());
                n.input.drain(i..e);
                // Keep the room that is missing the same.
                let mut m = n.clone();
                m.cap = n.cap.saturating_sub(step);
                if !attempt(&n, &mut c, &mut why) && !(n.cap > 0 && attempt(&m, &mut c, &mut why)) {
                    i += step;
                }
            }
            if step == 1 {
                break;
            }
            step /= 2;
        }
        if !c.aux.is_empty() {
            for v in [vec![0, 4], vec![1, 1, 4], vec![1, 1, 64], vec![1, 2, 64], vec![0, 64]] {
                let mut n = c.clone();
                n.aux = v;
                if n.aux.len() < c.aux.len() && attempt(&n, &mut c, &mut why) {
                    break;
                }
            }
        }
        let mut n = c.clone();
        n.cap = c.cap / 2;
        while n.cap < c.cap && !attempt(&n, &mut c, &mut why) {
            n.cap += (c.cap - n.cap + 1) / 2;
            if c.cap - n.cap < 1 {
                break;
            }
        }
        if before == (c.input.len(), c.cap, c.aux.len(), c.off) || t.elapsed().as_secs() >= 5 {
            return (c, why);
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn events_json(ev: &[[[u64; NOUT]; 2]], codecs: &[Codec]) -> String {
    let mut tot = [0u64; NOUT];
    let mut per = vec![];
    let mut cells = 0;
    for (i, e) in ev.iter().enumerate() {
        for d in 0..2 {
            let sum: u64 = e[d].iter().sum();
            if sum > 0 {
                let cols: Vec<String> = (0..NOUT).filter(|&k| e[d][k] > 0).map(|k| format!("{}:{}", js(OUTCOMES[k]), e[d][k])).collect();
                cells += cols.len();
                per.push(format!("{}:{{{}}}", js(&format!("{}.{}", codecs[i].name, ["encode", "decode"][d])), cols.join(",")));
            }
            for k in 0..NOUT {
                tot[k] += e[d][k];
            }
        }
    }
    let cols: Vec<String> = (0..NOUT).filter(|&k| tot[k] > 0).map(|k| format!("{}:{}", js(OUTCOMES[k]), tot[k])).collect();
    format!("\"outcomes\":{{{}}},\"outcome_cells\":{cells},\"by_codec\":{{{}}}", cols.join(","), per.join(","))
}

fn run(a: &Args, codecs: &[Codec], model: &Model, known: &str) -> i32 {
    let t0 = Instant::now();
    let prop = a.num("prop", 0) as u32;
    let seed = a.num("seed", 1);
    let thorough = a.get("tier") == Some("thorough");
    let threads = a.num("threads", 8) as usize;
    let max_secs = a.num("max-secs", 1_000_000);
    let sample = a.num("sample", 1);
    let exact = a.get("exact").is_some();
    let fenced = prop == 2 && !exact;
    let dict = Dict::parse(&a.read("dict"));
    let gen = Gen::new(model, codecs, prop, seed, &dict);
    let plan = gen.plan(thorough, a.num("part", 100) as u32);
    let only = a.get("item").map(|x| x.parse::<u64>().unwrap());
    if let (Some(i), Some(k)) = (only, a.get("count")) {
        let mut f = Finder { count: 0, want: k.parse().unwrap(), got: None };
        gen.run(i, &plan[i as usize], &mut f);
        return match f.got {
            Some(c) => {
                std::fs::write(a.get("save").unwrap(), c.to_text(&format!("C{prop:02}"), codecs)).unwrap();
                0
            }
            None => 3,
        };
    }
    // The items in a shuffled order, so that running out of time leaves an even sample.
    let mut order: Vec<u64> = match only {
        Some(i) => vec![i],
        None => (0..plan.len() as u64).collect(),
    };
    let mut rng = Rng::new(seed ^ 0xABCD);
    for i in (1..order.len()).rev() {
        let j = rng.below(i + 1);
        order.swap(i, j);
    }
    order.sort_by_key(|&i| !matches!(plan[i as usize].kind, Kind::Scalars(..) | Kind::ScalarsDec(..) | Kind::Words(..) | Kind::Units(..)));
    let distinct = Distinct::new(if cfg!(miri) { 16 } else { DBITS });
    let sh = Shared { journal: Journal::open(a.get("journal")), stop: AtomicBool::new(false), found: Mutex::new(None), distinct: &distinct };
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let per: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|slot| {
                let (gen, plan, order, sh, next, done) = (&gen, &plan, &order, &sh, &next, &done);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut r = Runner {
                            cx: Cx::new(model, codecs, exact),
                            prop,
                            slot,
                            item: 0,
                            count: 0,
                            sample,
                            whole: false,
                            sh,
                            evals: 0,
                            nontrivial: 0,
                            distinct: 0,
                            max_in: 0,
                            skipped: 0,
                            samples: vec![],
                        };
                        if fenced {
                            r.cx.fence();
                        }
                        while !sh.stop.load(Relaxed) && t0.elapsed().as_secs() < max_secs {
                            let k = next.fetch_add(1, Relaxed) as usize;
                            let Some(&i) = order.get(k) else { break };
                            r.item = i;
                            r.count = 0;
                            r.whole = matches!(plan[i as usize].kind, Kind::Far(_));
                            if gen.run(i, &plan[i as usize], &mut r) {
                                done.fetch_add(1, Relaxed);
                            }
                        }
                        sh.journal.put(slot, u64::MAX, 0);
                        (r.evals, r.cx.calls, r.nontrivial, r.distinct, r.max_in, r.samples, r.cx.events, r.skipped, r.cx.fenced_calls, r.cx.pairs, r.cx.flow)
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut ev = vec![[[0u64; NOUT]; 2]; codecs.len()];
    let (mut evals, mut calls, mut nont, mut dist, mut maxi, mut skipped, mut fenced_calls) = (0, 0, 0, 0, 0, 0, 0);
    let mut samples = vec![];
    let (mut pairs, mut flow) = (vec![0u64; codecs.len() * codecs.len()], [0u64; 3]);
    for p in per {
        evals += p.0;
        calls += p.1;
        nont += p.2;
        dist += p.3;
        maxi = maxi.max(p.4);
        samples.extend(p.5);
        skipped += p.7;
        fenced_calls += p.8;
        pairs.iter_mut().zip(&p.9).for_each(|(x, y)| *x += y);
        flow.iter_mut().zip(&p.10).for_each(|(x, y)| *x += y);
        for (x, y) in ev.iter_mut().zip(&p.6) {
            for d in 0..2 {
                for k in 0..NOUT {
                    x[d][k] += y[d][k];
                }
            }
        }
    }
    let mut code = 0;
    let mut viol = String::new();
    if let Some((i, k, c, e)) = sh.found.into_inner().unwrap() {
        code = 1;
        let path = a.get("save").unwrap_or("/dev/null");
        let id = format!("C{prop:02}");
        // First as it is, in case making it smaller goes wrong.
        std::fs::write(path, c.to_text(&id, codecs)).unwrap();
        let mut cx = Cx::new(model, codecs, exact);
        let (c, e) = minimise(prop, c, e, &mut cx);
        std::fs::write(path, format!("{}{}", c.to_text(&id, codecs), comment(&e))).unwrap();
        println!("violation of {id} in item {i} {:?} case {k}:\n{e}", plan[i as usize].kind);
        viol = e;
    }
    samples.truncate(12);
    let js_samples: Vec<String> = samples.iter().map(|s| js(s)).collect();
    let pipes = if prop == 24 {
        format!(
            "\"pairs_of_encodings\":{},\"fewest_pipelines_of_a_pair\":{},\"rounds\":{},\"malformed_ranges\":{},\"replaced_characters\":{},",
            pairs.iter().filter(|&&x| x > 0).count(), pairs.iter().min().unwrap(), flow[0], flow[1], flow[2]
        )
    } else {
        String::new()
    };
    if let Some(p) = a.get("out") {
        std::fs::write(
            p,
            format!(
                "{{{pipes}\"evaluations\":{evals},\"calls\":{calls},\"nontrivial\":{nont},\"distinct_nontrivial\":{dist},\"skipped\":{skipped},\"calls_between_forbidden_pages\":{fenced_calls},\"longest_input\":{maxi},\
                 \"items_done\":{},\"items_planned\":{},\"wall_s\":{:.2},\"known_still\":[{known}],\"violation\":{},\"samples\":[{}],{}}}\n",
                done.load(Relaxed),
                order.len(),
                t0.elapsed().as_secs_f64(),
                js(&viol),
                js_samples.join(","),
                events_json(&ev, codecs)
            ),
        )
        .unwrap();
    }
    code
}

fn comment(e: &str) -> String {
    e.lines().map(|l| format!("# {l}\n")).collect()
}

fn main() {
    quiet_panics();
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let (mut opts, mut pos) = (HashMap::new(), vec![]);
    while let Some(x) = it.next() {
        match x.strip_prefix("--") {
            Some("exact") => {
                opts.insert("exact".to_string(), String::new());
            }
            Some(k) => {
                opts.insert(k.to_string(), it.next().unwrap_or_default());
            }
            None => pos.push(x),
        }
    }
    let a = Args(opts, pos);
    let codecs = codecs::all();
    if cmd == "tiny" {
        std::process::exit(special::tiny(&a, &codecs));
    }
    if cmd == "plat" {
        std::process::exit(platcmd::plat(&a, &codecs));
    }
    let mut model = Model::new();
    let big5 = codecs.iter().position(|c| c.name == "big5_whatwg").unwrap();
    let still = model.adopt_known(&a.read("known"), &codecs[big5]);
    let known: Vec<String> = still.iter().map(|x| format!("\"U+{:04X} emits={:04X} standard={:04X}\"", x.0, x.1, x.2)).collect();
    let code = match cmd.as_str() {
        "run" => run(&a, &codecs, &model, &known.join(",")),
        "replay" => {
            let s = std::fs::read_to_string(&a.1[0]).unwrap();
            let (id, c) = Case::from_text(&s, &codecs).expect("not a case file");
            let prop: u32 = id[1..].parse().unwrap();
            if c.dir == Dir::Enc {
                std::str::from_utf8(&c.input).expect("encode input is not UTF-8");
            }
            let mut cx = Cx::new(&model, &codecs, a.get("exact").is_some());
            if id == "C02" && !cx.exact {
                cx.fence();
            }
            match props::check(prop, &c, &mut cx) {
                Ok(()) => {
                    println!("{id} holds on this case");
                    0
                }
                Err(e) => {
                    println!("{id} violated: {e}");
                    1
                }
            }
        }
        "purity" => special::purity(&a, &codecs, &model),
        "stack" => special::stack(&a, &codecs, &model),
        "fuzz" => fuzz::fuzz(&a, &codecs, &model),
        "fuzz-case" => fuzz::case_of(&a, &codecs, &model),
        #[cfg(not(miri))]
        "huge" => huge::huge(&a, &codecs, &model),
        #[cfg(not(miri))]
        "reentry" => reentry::reentry(&a, &codecs, &model),
        "work" => work::work(&a, &codecs, &model),
        "dump" => special::dump(&a, &codecs),
        _ => {
            eprintln!("usage: see main.rs");
            2
        }
    };
    std::process::exit(code);
}
