//! C01, C10 to C14: conversions of more than 4 GiB in one call. The text repeats, so input and output are a few MiB of
//! memory that is mapped again and again.
use crate::case::R;
use crate::codecs::*;
use crate::gen::*;
use crate::model::*;
use crate::toks::*;
use crate::{js, Args};
use std::ffi::c_char;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
    fn memfd_create(name: *const c_char, flags: u32) -> i32;
    fn ftruncate(fd: i32, n: i64) -> i32;
    fn close(fd: i32) -> i32;
}
const PAGE: usize = 4096;
const FIXED: i32 = 0x10;
const SHARED: i32 = 1;

/// `times` times the same `period` bytes (whole pages), then `tail` bytes of their own.
struct Repeated {
    base: *mut u8,
    len: usize,
    period: usize,
}
impl Repeated {
    fn new(period: usize, times: usize, tail: usize) -> Option<Repeated> {
        assert!(period % PAGE == 0);
        let tail_pages = tail.next_multiple_of(PAGE);
        let len = period * times + tail_pages;
        unsafe {
            let base = mmap(std::ptr::null_mut(), len, 0, 0x4022, -1, 0);
            if base as isize == -1 {
                return None;
            }
            let r = Repeated { base, len, period };
            let fd = memfd_create(c"mon".as_ptr(), 0);
            if fd < 0 || ftruncate(fd, period as i64) != 0 {
                return None;
            }
            let mut good = true;
            for k in 0..times {
                good &= mmap(base.add(k * period), period, 3, SHARED | FIXED, fd, 0) as isize != -1;
            }
            if tail_pages > 0 {
                good &= mmap(base.add(times * period), tail_pages, 3, 0x22 | FIXED, -1, 0) as isize != -1;
            }
            close(fd);
            good.then_some(r)
        }
    }
    fn slice(&self, len: usize) -> &'static mut [u8] {
        assert!(len <= self.len);
        unsafe { std::slice::from_raw_parts_mut(self.base, len) }
    }
}
impl Drop for Repeated {
    fn drop(&mut self) {
        unsafe {
            munmap(self.base, self.len);
        }
    }
}

pub fn huge(a: &Args, codecs: &[Codec], m: &Model) -> i32 {
    let t0 = Instant::now();
    let prop = a.num("prop", 10) as u32;
    let seed = a.num("seed", 1);
    let all = a.num("all", 0) == 1;
    let least = a.num("least", (1 << 32) + (100 << 20)) as usize;
    let gen = Gen::new(m, codecs, prop, seed, &Dict::parse(""));
    let rng = &mut Rng::new(seed ^ 0x4816);
    let mut scope = gen.scope();
    if !all {
        // The encodings with code of their own, and one or two of those that share it.
        let keep = [rng.below(31), rng.below(31)];
        scope.retain(|x| !matches!(codecs[x.0].fam, Fam::Single(_)) || keep.contains(&(x.0 % 31)));
    }
    // With errors: one of each sort at the end.
    let mut scope: Vec<(usize, Dir, usize)> = scope.into_iter().flat_map(|(c, d)| (0..if matches!(prop, 1 | 13 | 14) { 4 } else { 1 }).map(move |k| (c, d, k))).collect();
    // Slow ones first.
    scope.sort_by_key(|x| matches!(codecs[x.0].fam, Fam::Utf8 | Fam::Utf32 { .. }));
    let next = AtomicUsize::new(0);
    let (bytes, calls) = (AtomicU64::new(0), AtomicU64::new(0));
    let done: Mutex<Vec<String>> = Mutex::new(vec![]);
    let skipped: Mutex<Vec<String>> = Mutex::new(vec![]);
    let found: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for _ in 0..a.num("threads", 8) {
            sc.spawn(|| loop {
                let Some(&(codec, dir, sort)) = scope.get(next.fetch_add(1, Relaxed)) else { break };
                if found.lock().unwrap().is_some() {
                    break;
                }
                let c = &codecs[codec];
                let name = format!("{} {}", c.name, if dir == Dir::Enc { "encode" } else { "decode" });
                let rng = &mut Rng::new(seed ^ (codec as u64) << 9 ^ (dir as u64) << 8 ^ 77);
                let mut exp = vec![];
                // The text, and something malformed or that cannot be encoded.
                let mut text = vec![];
                while text.len() < 600 {
                    let cl = *rng.pick(&[0, 0, 0, 0, 0, 0, 3, 3, 2]);
                    gen.push_unit(codec, dir, cl, rng, &mut text);
                }
                gen.push_unit(codec, dir, 0, rng, &mut text);
                let e = m.call(c.fam, dir, &text, 1 << 20, true, &mut exp);
                assert!(e.stop == Stop::Complete, "{name}: {e:?}");
                let once = exp.clone();
                let period = text.len() * PAGE;
                let times = least / period + 1;
                // By sort: for lack of more, or malformed whatever comes, one, two or more bytes of it.
                let mut sorts: Vec<((bool, usize), Vec<Vec<u8>>)> = vec![];
                for t in gen.kinds(codec, dir, 3, rng) {
                    let e = m.call(c.fam, dir, &t, 1 << 20, true, &mut exp);
                    let Stop::Bad { len, .. } = e.stop else { continue };
                    if e.n > 0 {
                        continue;
                    }
                    let open = !matches!(m.call(c.fam, dir, &t, 1 << 20, false, &mut exp).stop, Stop::Bad { .. });
                    let sort = (open, if open { 0 } else { len.min(3) });
                    match sorts.iter_mut().find(|x| x.0 == sort) {
                        Some(x) => x.1.push(t),
                        None => sorts.push((sort, vec![t])),
                    }
                }
                sorts.sort();
                let bad: Option<Vec<u8>> = if matches!(prop, 1 | 13 | 14) {
                    if sort >= sorts.len() && (sort > 0 || prop != 1) {
                        continue;
                    }
                    sorts.get(sort).map(|x| rng.pick(&x.1).clone())
                } else {
                    None
                };
                // How fast is it?
                let trial = text.repeat((8 << 20) / text.len());
                let mut room = vec![0u8; once.len() * ((8 << 20) / text.len()) + 16];
                let t = Instant::now();
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match dir {
                    Dir::Enc => drop((c.enc)(unsafe { std::str::from_utf8_unchecked(&trial) }, &mut room, true)),
                    Dir::Dec => drop((c.dec)(&trial, &mut room, true)),
                }));
                let secs = t.elapsed().as_secs_f64() / trial.len() as f64 * least as f64;
                drop((trial, room));
                if secs > a.num("max-secs", 60) as f64 {
                    skipped.lock().unwrap().push(format!("{name} (would take {secs:.0} s)"));
                    continue;
                }
                let reps = PAGE * times;
                let tail = bad.as_deref().unwrap_or(&[]);
                let out_all = once.len() * reps;
                let slack = 64;
                let (Some(i), Some(o)) = (Repeated::new(period, times, tail.len()), Repeated::new(once.len() * PAGE, times, slack)) else {
                    skipped.lock().unwrap().push(format!("{name} (no memory)"));
                    continue;
                };
                for (k, b) in i.slice(period).chunks_exact_mut(text.len()).enumerate() {
                    let _ = k;
                    b.copy_from_slice(&text);
                }
                let len = period * times + tail.len();
                i.slice(len)[period * times..].copy_from_slice(tail);
                // With room for all; without room for the last unit.
                let last = if c.fam == Fam::Utf8 || dir == Dir::Dec { 1 } else { m.call(c.fam, dir, b"a", 16, true, &mut exp).out };
                let last_in = match (dir, c.fam) {
                    (Dir::Dec, Fam::Utf16 { .. }) => 2,
                    (Dir::Dec, Fam::Utf32 { .. }) => 4,
                    _ => 1,
                };
                let mut ways = vec![(out_all + slack, period * times, out_all)];
                if prop == 12 {
                    ways.clear();
                }
                if bad.is_none() && (all || prop == 12) {
                    ways.push((out_all - 1, period * times - last_in, out_all - last));
                }
                for (cap, want_n, want_out) in ways {
                    o.slice(o.period).fill(0xAA);
                    let input: &[u8] = i.slice(len);
                    let out = o.slice(cap);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match dir {
                        Dir::Enc => match (c.enc)(unsafe { std::str::from_utf8_unchecked(input) }, out, true) {
                            Ok((x, n)) => R::Ok { n, len: x.len(), at_start: true },
                            Err(e) => R::Err { start: e.error_range.0, end: e.error_range.1, ch: e.character, written: e.output_bytes_written, invalid: true },
                        },
                        Dir::Dec => match (c.dec)(input, out, true) {
                            Ok((x, n)) => R::Ok { n, len: x.len(), at_start: true },
                            Err(e) => R::Err { start: e.error_range.0, end: e.error_range.1, ch: '\0', written: e.output_bytes_written, invalid: true },
                        },
                    }))
                    .unwrap_or_else(|_| R::Panic(crate::case::last_panic()));
                    calls.fetch_add(1, Relaxed);
                    bytes.fetch_add(len as u64, Relaxed);
                    let want = match m.call(c.fam, dir, tail, 1 << 20, true, &mut exp).stop {
                        Stop::Bad { len, ch, .. } => R::Err { start: want_n, end: want_n + len, ch, written: want_out, invalid: true },
                        _ => R::Ok { n: want_n, len: want_out, at_start: true },
                    };
                    let mut wrong = String::new();
                    if prop == 1 {
                        // Whatever it returns will do.
                        if let R::Panic(p) = &r {
                            wrong = format!("panics: {p}");
                        }
                    } else if r != want {
                        wrong = format!("gives {r:?} and should give {want:?}");
                    } else if let Some(k) = o.slice(o.period).chunks_exact(once.len()).position(|x| x != &once[..]) {
                        wrong = format!("wrote something else than the conversion, at multiples of {} plus {}", o.period, k * once.len());
                    }
                    let what = format!("{name} of {len} bytes ({} bytes of text, {reps} times{}) with {cap} bytes of room", text.len(), if tail.is_empty() { "" } else { ", then an error" });
                    if !wrong.is_empty() {
                        found.lock().unwrap().get_or_insert(format!("{what} {wrong}"));
                        return;
                    }
                    done.lock().unwrap().push(what);
                }
            });
        }
    });
    let err = found.into_inner().unwrap();
    let done = done.into_inner().unwrap();
    if let Some(p) = a.get("out") {
        let list = |v: &[String]| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
        std::fs::write(
            p,
            format!(
                "{{\"calls\":{},\"bytes\":{},\"conversions\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"not_run\":[{}],\"violation\":{},\"wall_s\":{:.2}}}\n",
                calls.load(Relaxed),
                bytes.load(Relaxed),
                done.len(),
                done.len(),
                list(&done[..done.len().min(4)]),
                list(&skipped.into_inner().unwrap()),
                js(err.as_deref().unwrap_or("")),
                t0.elapsed().as_secs_f64()
            ),
        )
        .unwrap();
    }
    match err {
        Some(e) => {
            println!("violation of C{prop:02}: {e}");
            1
        }
        None => 0,
    }
}
