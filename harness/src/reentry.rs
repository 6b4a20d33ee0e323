//! Calls interrupted by other calls, at every instruction (C25). The processor's trap flag makes each instruction of
//! a call raise a signal; the handler makes another call and looks at the memory around the interrupted one.
//! For C18 it has another thread make that call, and waits for it, so that each instruction is once the one between which
//! and the next a whole call of another thread takes place.
use crate::case::*;
use crate::codecs::{Codec, Fam};
use crate::gen::*;
use crate::model::*;
use crate::special::{digest, Pool};
use crate::toks::*;
use crate::{js, Args};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

const ROOM: usize = 256;
/// Longer ones now and then, for what happens to long texts only.
const LONG: usize = 20_000;
const EDGE: usize = 16;
const CANARY: u8 = 0xC7;
/// Beyond this, the rest of a call runs without being interrupted.
const MOST: u64 = 5_000_000;

/// How long, in microseconds, a thread is stopped for a call of another, which may be waiting for it (and then goes on
/// when this one does).
const PATIENCE: u64 = 3_000;

/// Between a thread that is stopped at an instruction and the one that makes a call meanwhile.
#[derive(Default)]
struct Mail {
    /// 0 nothing, 1 a call to be made, 2 made, 3 no more.
    state: AtomicU32,
    case: AtomicUsize,
    want: AtomicU64,
    /// Of the stopped call, for both to use.
    input: AtomicUsize,
    have: AtomicU64,
}
fn pause(n: &mut u32) {
    extern "C" {
        fn sched_yield() -> i32;
    }
    *n += 1;
    if *n < 3000 {
        std::hint::spin_loop();
    } else {
        unsafe { sched_yield() };
    }
}
fn helper(mail: &Mail, codecs: &[Codec]) {
    let mut out = vec![0u8; ROOM];
    loop {
        let mut n = 0;
        while !matches!(mail.state.load(Acquire), 1 | 3) {
            pause(&mut n);
        }
        if mail.state.load(Acquire) == 3 {
            return;
        }
        let c = unsafe { &*(mail.case.load(Relaxed) as *const Case) };
        let input = match mail.input.load(Relaxed) {
            0 => &c.input[..],
            p => unsafe { std::slice::from_raw_parts(p as *const u8, c.input.len()) },
        };
        let r = raw(&codecs[c.codec], c.dir, input, &mut out[..c.cap], c.end, &mut 0);
        mail.have.store(digest(&r, &out[..c.cap]), Relaxed);
        mail.state.store(2, Release);
    }
}

/// What the handler of one thread works with.
struct State {
    mail: Option<*const Mail>,
    /// Calls of another thread that did not end while this one was stopped.
    late: u64,
    codecs: *const [Codec],
    // The interrupted call.
    inb: Vec<u8>,
    outb: Vec<u8>,
    icopy: Vec<u8>,
    ocopy: Vec<u8>,
    cap: usize,
    long: bool,
    own: *const Case,
    // The calls made in between, by turns.
    others: Vec<(*const Case, u64)>,
    /// In which of so many instructions, by chance (1: in all).
    every: u64,
    chance: u64,
    turn: usize,
    in_turns: bool,
    iout: [u8; ROOM],
    /// Where the interrupting calls are compared with what they gave alone.
    step: u64,
    made: u64,
    seen: Box<[u64]>,
    points: u64,
    wrong: Option<Wrong>,
}
#[derive(Clone, Copy)]
enum Wrong {
    Result { step: u64, case: *const Case, have: u64, want: u64 },
    Input { step: u64 },
    Outside { step: u64 },
    Output { step: u64, case: *const Case },
}

/// For the watchdog: what a thread is at. 0 nothing, 1 the interrupted call, 2 a call in between.
#[derive(Default)]
struct Beat {
    phase: AtomicU64,
    count: AtomicU64,
    what: Mutex<String>,
    other: AtomicUsize,
    step: AtomicU64,
    /// Of the thread's processor time.
    clock: AtomicI32,
}

/// Milliseconds on a clock.
fn ms(clock: i32) -> u64 {
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    if unsafe { clock_gettime(clock, &mut t) } != 0 {
        return 0;
    }
    t[0] as u64 * 1000 + t[1] as u64 / 1_000_000
}

thread_local! {
    static ST: Cell<*mut State> = const { Cell::new(std::ptr::null_mut()) };
    static BEAT: Cell<*const Beat> = const { Cell::new(std::ptr::null()) };
}

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod trap {
    use super::*;
    extern "C" {
        fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    }
    #[repr(C)]
    struct SigAction {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    pub fn install() {
        let a = SigAction { handler: handler as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        assert_eq!(unsafe { sigaction(5, &a, std::ptr::null_mut()) }, 0);
    }
    const RIP: usize = 168 / 8;
    const FLAGS: usize = 176 / 8;
    extern "C" fn handler(_sig: i32, _info: *mut u8, context: *mut u64) {
        let st = ST.with(|s| s.get());
        unsafe {
            if st.is_null() || !super::trapped(&mut *st, *context.add(RIP)) {
                *context.add(FLAGS) &= !0x100;
            }
        }
    }
    /// Runs f with a trap behind every instruction.
    #[inline(never)]
    pub fn stepped(f: &mut dyn FnMut()) {
        unsafe {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
            f();
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
}
#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
mod trap {
    pub fn install() {}
    pub fn stepped(f: &mut dyn FnMut()) {
        f()
    }
}

/// Is there to be a call now? Then also which.
fn due(st: &mut State) -> bool {
    st.chance ^= st.chance << 13;
    st.chance ^= st.chance >> 7;
    st.chance ^= st.chance << 17;
    if st.every > 1 && (st.chance >> 20) % st.every != 0 {
        return false;
    }
    st.turn = if st.in_turns { st.turn + 1 } else { (st.chance >> 40) as usize };
    true
}

/// One instruction of the interrupted call is done. False: enough.
fn trapped(st: &mut State, at: u64) -> bool {
    st.step += 1;
    if st.wrong.is_some() || st.step > MOST {
        return false;
    }
    let beat = unsafe { BEAT.with(|b| b.get()).as_ref() };
    if let Some(b) = beat {
        b.step.store(st.step, Relaxed);
    }
    let h = (at.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 44) as usize;
    if st.seen[h >> 6] >> (h & 63) & 1 == 0 {
        st.seen[h >> 6] |= 1 << (h & 63);
        st.points += 1;
    }
    if let Some(mail) = st.mail {
        return !due(st) || elsewhere(st, unsafe { &*mail });
    }
    let end = EDGE + st.cap;
    if (!st.long || st.step % 256 == 0) && st.inb != st.icopy {
        st.wrong = Some(Wrong::Input { step: st.step });
        return false;
    }
    if st.outb[..EDGE].iter().chain(&st.outb[end..]).any(|&x| x != CANARY) {
        st.wrong = Some(Wrong::Outside { step: st.step });
        return false;
    }
    if !due(st) {
        return true;
    }
    let (case, want) = st.others[st.turn % st.others.len()];
    let c = unsafe { &*case };
    let look = !st.long || st.step % 256 < st.every;
    if look {
        st.ocopy.copy_from_slice(&st.outb);
    }
    if let Some(b) = beat {
        b.other.store(case as usize, Relaxed);
        b.phase.store(2, Relaxed);
    }
    let codecs = unsafe { &*st.codecs };
    let r = raw(&codecs[c.codec], c.dir, &c.input, &mut st.iout[..c.cap], c.end, &mut 0);
    let have = digest(&r, &st.iout[..c.cap]);
    if let Some(b) = beat {
        b.count.fetch_add(1, Relaxed);
        b.phase.store(1, Relaxed);
    }
    st.made += 1;
    if have != want {
        st.wrong = Some(Wrong::Result { step: st.step, case, have, want });
        return false;
    }
    if look && st.outb != st.ocopy {
        st.wrong = Some(Wrong::Output { step: st.step, case });
        return false;
    }
    true
}

/// Looks at what the call of the other thread gave, if it is done.
fn collect(st: &mut State, mail: &Mail) -> bool {
    if mail.state.load(Acquire) != 2 {
        return true;
    }
    mail.state.store(0, Relaxed);
    st.made += 1;
    let (have, want) = (mail.have.load(Relaxed), mail.want.load(Relaxed));
    if have != want {
        st.wrong = Some(Wrong::Result { step: st.step, case: mail.case.load(Relaxed) as *const Case, have, want });
    }
    have == want
}

/// The same by another thread, while this one waits.
fn elsewhere(st: &mut State, mail: &Mail) -> bool {
    if mail.state.load(Acquire) == 1 {
        // It waits for this one to go on, it seems.
        return true;
    }
    if !collect(st, mail) {
        return false;
    }
    let (case, want) = st.others[st.turn % st.others.len()];
    let same = case == st.own;
    mail.case.store(case as usize, Relaxed);
    mail.want.store(want, Relaxed);
    mail.input.store(if same { st.inb.as_ptr() as usize + EDGE } else { 0 }, Relaxed);
    mail.state.store(1, Release);
    let mut n = 0;
    let from = us();
    while mail.state.load(Acquire) == 1 {
        pause(&mut n);
        if n > 3000 && n % 16 == 0 && us() > from + PATIENCE {
            st.late += 1;
            return true;
        }
    }
    collect(st, mail)
}
fn us() -> u64 {
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    unsafe { clock_gettime(1, &mut t) };
    t[0] as u64 * 1_000_000 + t[1] as u64 / 1000
}

pub fn reentry(a: &Args, codecs: &[Codec], m: &Model) -> i32 {
    let t0 = Instant::now();
    let seed = a.num("seed", 1);
    let threads = a.num("threads", 8) as usize;
    let secs = a.num("secs", 20);
    let other_thread = a.num("other-thread", 0) == 1;
    let id = if other_thread { "C18" } else { "C25" };
    let dict = Dict::parse(&a.read("dict"));
    let gen = Gen::new(m, codecs, 25, seed, &dict);
    // Short calls of every kind.
    let mut pool = Pool { per: 0, want: 0, every: 1, seen: 0, cases: vec![] };
    let mut by: Vec<(usize, usize)> = vec![];
    let mut cases: Vec<Case> = vec![];
    for (i, (codec, dir)) in gen.scope().into_iter().enumerate() {
        for (j, (kind, every, want)) in [
            (Kind::Seq(1, 0, 2000), 5, 60),
            (Kind::Seq(2, 0, 4000), 41, 150),
            (Kind::SeqRand(4, 400), 5, 100),
            (Kind::Neigh(600), 1, 100),
            (Kind::DictK(1, 8), 11, 60),
            (Kind::Pairs(1, 300), 3, 40),
            (Kind::Rand(200, 40), 2, 40),
        ]
        .into_iter()
        .enumerate()
        {
            (pool.per, pool.want, pool.every, pool.seen) = (0, want, every, 0);
            gen.run((i * 16 + j) as u64 + 7_000_000, &Item { codec, dir, kind }, &mut pool);
        }
        let from = cases.len();
        cases.extend(pool.cases.drain(..).filter(|c| c.input.len() <= 64 && c.cap <= ROOM - 2 * EDGE));
        by.push((from, cases.len()));
    }
    // The single-byte encodings share their code: six at a time between the others.
    let mut of: [Vec<usize>; 2] = Default::default();
    for (i, (codec, _)) in gen.scope().into_iter().enumerate() {
        of[matches!(codecs[codec].fam, Fam::Single(_)) as usize].push(i);
    }
    let [own_code, shared_code] = of;
    let n = cases.len();
    let mut longs: Vec<(usize, usize)> = vec![];
    for (i, (codec, dir)) in gen.scope().into_iter().enumerate() {
        let from = cases.len();
        for (j, (kind, every, want)) in [(Kind::Rand(60, 500), 1, 8), (Kind::Runs(i % 24, 24), 31, 8), (Kind::Big(6, 6000), 1, 3), (Kind::DictK(i as u32 % 8, 8), 13, 200)].into_iter().enumerate() {
            (pool.per, pool.want, pool.every, pool.seen) = (0, want, every, 0);
            gen.run((i * 16 + j) as u64 + 8_000_000, &Item { codec, dir, kind }, &mut pool);
            cases.extend(pool.cases.drain(..).filter(|c| c.input.len() > 64 && c.input.len() <= LONG && c.cap <= LONG));
        }
        longs.push((from, cases.len()));
    }
    // Families: the texts that two units of the same kind (or not) make.
    let mut families: Vec<Vec<(usize, usize)>> = vec![];
    for (codec, dir) in gen.scope() {
        let rng = &mut Rng::new(seed ^ (codec as u64) << 8 ^ dir as u64 ^ 0xFA);
        let mut kinds: Vec<(Vec<u8>, (usize, usize, bool))> = vec![];
        let mut buf = vec![];
        for t in gen.kinds(codec, dir, 8, rng) {
            let e = m.call(codecs[codec].fam, dir, &t, 1 << 20, true, &mut buf);
            let key = (t.len(), e.out, matches!(e.stop, Stop::Complete));
            kinds.push((t, key));
        }
        let mut of = vec![];
        for k in 0..160 {
            let (x, key) = rng.pick(&kinds).clone();
            let mut y = rng.pick(&kinds).0.clone();
            for _ in 0..40 {
                let z = rng.pick(&kinds);
                if k % 5 > 0 && z.1 == key && z.0 != x {
                    y = z.0.clone();
                }
            }
            let from = cases.len();
            for how in ["x", "y", "xx", "xy", "yx", "xxy", "yy"] {
                let input: Vec<u8> = how.bytes().flat_map(|b| if b == b'x' { x.clone() } else { y.clone() }).collect();
                if input.len() > 64 {
                    break;
                }
                let mut c = Case::new(codec, dir);
                c.cap = if rng.one_in(4) { input.len() } else { 4 * input.len() + 8 }.min(ROOM - 2 * EDGE);
                c.end = !rng.one_in(4);
                c.input = input;
                cases.push(c);
            }
            if cases.len() > from {
                of.push((from, cases.len()));
            }
        }
        families.push(of);
    }
    let mut out = vec![0u8; LONG];
    let alone = |c: &Case, out: &mut Vec<u8>| {
        out.fill(0xAA);
        let r = raw(&codecs[c.codec], c.dir, &c.input, &mut out[..c.cap], c.end, &mut 0);
        digest(&r, &out[..c.cap])
    };
    let refs: Vec<u64> = cases.iter().map(|c| alone(c, &mut out)).collect();
    trap::install();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<String>> = Mutex::new(None);
    let beats: Vec<Beat> = (0..threads).map(|_| Beat::default()).collect();
    let (steps, made, points, calls, longest) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let alive = AtomicUsize::new(threads);
    let mails: Vec<Mail> = (0..threads).map(|_| Mail::default()).collect();
    let late = AtomicU64::new(0);
    let mine = if other_thread { "stopped" } else { "interrupted" };
    let text = |c: &Case| c.to_text(id, codecs).replace('\n', " ");
    std::thread::scope(|s| {
        for t in 0..threads {
            let mail = &mails[t];
            if other_thread {
                s.spawn(move || helper(mail, codecs));
            }
            let late = &late;
            let (own_code, shared_code, families) = (&own_code, &shared_code, &families);
            let (cases, refs, by, longs, next, stop, found, beats, steps, made, points, calls, longest, alive, text) =
                (&cases, &refs, &by, &longs, &next, &stop, &found, &beats, &steps, &made, &points, &calls, &longest, &alive, &text);
            s.spawn(move || {
                let mut st = Box::new(State {
                    mail: other_thread.then_some(mail as *const Mail),
                    late: 0,
                    own: std::ptr::null(),
                    codecs,
                    inb: vec![],
                    outb: vec![],
                    icopy: vec![],
                    ocopy: vec![],
                    cap: 0,
                    long: false,
                    others: vec![],
                    every: 1,
                    chance: seed << 8 | t as u64 + 1,
                    turn: 0,
                    in_turns: true,
                    iout: [0; ROOM],
                    step: 0,
                    made: 0,
                    seen: vec![0; 1 << 14].into_boxed_slice(),
                    points: 0,
                    wrong: None,
                });
                let p: *mut State = &mut *st;
                ST.with(|x| x.set(p));
                let beat = &beats[t];
                BEAT.with(|x| x.set(beat));
                extern "C" {
                    fn pthread_self() -> usize;
                    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
                }
                let mut clock = 0;
                assert_eq!(unsafe { pthread_getcpuclockid(pthread_self(), &mut clock) }, 0);
                beat.clock.store(clock, Relaxed);
                while !stop.load(Relaxed) && t0.elapsed().as_secs() < secs {
                    let k = next.fetch_add(1, Relaxed);
                    let mut rng = Rng::new(seed ^ k << 20 ^ 0x25);
                    // Each encoding and direction in turn.
                    let cycle = own_code.len() + if own_code.is_empty() { shared_code.len() } else { shared_code.len().min(6) };
                    let (turn, at) = (k as usize / cycle, k as usize % cycle);
                    let op = match own_code.get(at) {
                        Some(&op) => op,
                        None => shared_code[(turn * (cycle - own_code.len()) + at - own_code.len()) % shared_code.len()],
                    };
                    let ((lo, hi), (a, b)) = (by[op], longs[op]);
                    let family = if rng.one_in(2) { families[op].get(rng.below(families[op].len().max(1))) } else { None };
                    let i = if let Some(f) = family { f.0 + rng.below(f.1 - f.0) } else if b > a && rng.one_in(100) && !other_thread { a + rng.below(b - a) } else { lo + rng.below(hi - lo) };
                    let c = &cases[i];
                    {
                        let p = unsafe { &mut *p };
                        p.others.clear();
                        // Most calls come from the same code, where they could meet something of the other one's; or
                        // are the same, or much the same.
                        let own = c.cap <= ROOM - 2 * EDGE && rng.one_in(2);
                        if own {
                            p.others.push((c, refs[i]));
                        }
                        if let Some(f) = family {
                            p.others = (f.0..f.1).filter(|_| rng.one_in(2)).map(|j| (&cases[j] as *const Case, refs[j])).collect();
                        }
                        for _ in 0..if family.is_some() && !p.others.is_empty() { 0 } else { 1 + rng.below(3) } {
                            let j = match rng.below(4) {
                                0 => rng.below(n),
                                1 if own && i < n => (i + rng.below(9)).clamp(lo + 4, hi + 3) - 4,
                                _ => lo + rng.below(hi - lo),
                            };
                            p.others.push((&cases[j], refs[j]));
                        }
                        p.own = c;
                        p.in_turns = rng.one_in(2);
                        p.every = if rng.one_in(2) { 1 } else { *rng.pick(&[2, 3, 6, 12, 25, 50]) };
                        p.step = 0;
                        p.made = 0;
                        p.cap = c.cap;
                        p.long = c.input.len().max(c.cap) > ROOM - 2 * EDGE;
                        if p.long {
                            if other_thread && rng.one_in(3) {
                            // On the very same input, too.
                            p.others.push((c, refs[i]));
                        }
                        p.own = c;
                        p.every = p.every.max(1 + rng.below(9) as u64);
                        }
                        p.outb.clear();
                        p.outb.resize(c.cap + 2 * EDGE, CANARY);
                        p.ocopy.resize(c.cap + 2 * EDGE, 0);
                        p.outb[EDGE..EDGE + c.cap].fill(0xAA);
                        p.inb.clear();
                        p.inb.resize(c.input.len() + 2 * EDGE, CANARY);
                        p.inb[EDGE..EDGE + c.input.len()].copy_from_slice(&c.input);
                        p.icopy.clear();
                        p.icopy.extend_from_slice(&p.inb);
                    }
                    *beat.what.lock().unwrap() = text(c);
                    beat.phase.store(1, Relaxed);
                    let mut r = R::Panic(String::new());
                    // (through the pointer: the handler looks at these buffers too)
                    let (inp, outp) = unsafe {
                        (std::slice::from_raw_parts((*p).inb.as_ptr().add(EDGE), c.input.len()), std::slice::from_raw_parts_mut((*p).outb.as_mut_ptr().add(EDGE), c.cap))
                    };
                    trap::stepped(&mut || r = raw(&codecs[c.codec], c.dir, inp, outp, c.end, &mut 0));
                    if other_thread {
                        // (waiting for a call that never ends is for the watchdog to see)
                        beat.other.store(mail.case.load(Relaxed), Relaxed);
                        beat.phase.store(2, Relaxed);
                        let mut n = 0;
                        while mail.state.load(Acquire) == 1 {
                            pause(&mut n);
                        }
                        let st = unsafe { &mut *p };
                        collect(st, mail);
                    }
                    beat.phase.store(0, Relaxed);
                    beat.count.fetch_add(1, Relaxed);
                    let st = unsafe { &mut *p };
                    steps.fetch_add(st.step, Relaxed);
                    made.fetch_add(st.made, Relaxed);
                    longest.fetch_max(st.step, Relaxed);
                    calls.fetch_add(1, Relaxed);
                    let have = digest(&r, &st.outb[EDGE..EDGE + c.cap]);
                    let mut why = None;
                    let inner = |x: *const Case| text(unsafe { &*x });
                    match st.wrong.take() {
                        Some(Wrong::Result { step, case, have, want }) => {
                            why = Some(format!("a call made while another was {mine} at instruction {step} gives another result ({have:016x}, alone {want:016x}): {}", inner(case)))
                        }
                        Some(Wrong::Input { step }) => why = Some(format!("its input, or memory next to it, was changed for a time (instruction {step})")),
                        Some(Wrong::Outside { step }) => why = Some(format!("memory next to its output buffer was written to for a time (instruction {step})")),
                        Some(Wrong::Output { step, case }) => why = Some(format!("its output buffer was changed by the call made at instruction {step}: {}", inner(case))),
                        None => {}
                    }
                    if why.is_none() && have != refs[i] {
                        why = Some(format!("it gives another result ({have:016x}, alone {:016x}) when other calls {}: {r:?}", refs[i], if other_thread { "take place between its instructions" } else { "interrupt it" }));
                    }
                    // Whatever it left behind must not show.
                    let mut o = vec![0u8; ROOM.max(c.cap)];
                    for &(x, want) in st.others.iter().chain(&[(c as *const Case, refs[i])]) {
                        let x = unsafe { &*x };
                        let r = raw(&codecs[x.codec], x.dir, &x.input, &mut o[..x.cap], x.end, &mut 0);
                        let have = digest(&r, &o[..x.cap]);
                        if why.is_none() && have != want {
                            why = Some(format!("after it was {mine}, a call gives another result ({have:016x}, alone {want:016x}): {}", text(x)));
                        }
                    }
                    if let Some(w) = why {
                        let mut f = found.lock().unwrap();
                        if f.is_none() {
                            *f = Some(format!("the {mine} call: {}\n{w}", text(c)));
                        }
                        stop.store(true, Relaxed);
                    }
                }
                ST.with(|x| x.set(std::ptr::null_mut()));
                BEAT.with(|x| x.set(std::ptr::null()));
                if other_thread {
                    mail.state.store(3, Release);
                }
                late.fetch_add(st.late, Relaxed);
                points.fetch_max(st.points, Relaxed);
                alive.fetch_sub(1, Relaxed);
            });
        }
        // A call that waits for the one it interrupted never ends, nor need one whose state was changed under it.
        let (beats, alive, stop, text) = (&beats, &alive, &stop, &text);
        s.spawn(move || {
            let mut last: Vec<((u64, u64), u32, u64)> = vec![((0, 0), 0, 0); threads];
            while alive.load(Relaxed) > 0 {
                std::thread::sleep(std::time::Duration::from_millis(100));
                for (b, l) in beats.iter().zip(&mut last) {
                    let (c, phase) = ((b.count.load(Relaxed), b.step.load(Relaxed)), b.phase.load(Relaxed));
                    if phase == 0 || c != l.0 {
                        *l = (c, 0, ms(b.clock.load(Relaxed)));
                        continue;
                    }
                    l.1 += 1;
                    // 8 s of processor time, or minutes of waiting, for what takes a microsecond.
                    if l.1 >= 2000 || l.1 % 10 == 0 && ms(b.clock.load(Relaxed)) >= l.2 + 8000 {
                        let a = b.what.try_lock().map(|w| w.clone()).unwrap_or_default();
                        if phase == 2 {
                            let other = unsafe { &*(b.other.load(Relaxed) as *const Case) };
                            println!("violation of {id}: the {mine} call: {a}\na call made while it was {mine} at instruction {} does not return: {}", c.1, text(other));
                        } else {
                            println!("violation of {id}: {mine} by other calls, a call does not return: {a}");
                        }
                        stop.store(true, Relaxed);
                        extern "C" {
                            fn _exit(c: i32) -> !;
                        }
                        unsafe { _exit(1) }
                    }
                }
            }
        });
    });
    let err = found.into_inner().unwrap();
    if let Some(p) = a.get("out") {
        let samples: Vec<String> = cases.iter().step_by(n / 8 + 1).map(|c| js(&text(c))).collect();
        std::fs::write(
            p,
            format!(
                "{{\"pool\":{n},\"long_ones\":{},\"operations\":{},\"interrupted_calls\":{},\"instructions_interrupted\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"distinct_instructions_in_one_thread\":{},\"calls_that_outlasted_the_stop\":{},\
                 \"longest_call_in_instructions\":{},\"samples\":[{}],\"violation\":{},\"wall_s\":{:.2}}}\n",
                longs.iter().map(|x| x.1 - x.0).sum::<usize>(), by.len(), calls.load(Relaxed), steps.load(Relaxed), made.load(Relaxed), made.load(Relaxed), points.load(Relaxed), late.load(Relaxed), longest.load(Relaxed),
                samples.join(","), js(err.as_deref().unwrap_or("")), t0.elapsed().as_secs_f64()
            ),
        )
        .unwrap();
    }
    if let Some(e) = err {
        println!("violation of {id}: {e}");
        return 1;
    }
    if made.load(Relaxed) == 0 {
        eprintln!("no call was interrupted: single-stepping does not work here");
        return 2;
    }
    0
}
