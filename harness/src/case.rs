//! One observed call: its arguments (a `Case`), how it is made, and what came back.
use crate::alloc;
use crate::codecs::Codec;
use crate::model::{Dir, Model};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub codec: usize,
    pub dir: Dir,
    pub input: Vec<u8>,
    pub cap: usize,
    pub end: bool,
    /// Misalignment of the input (low 4 bits) and the output (next 4 bits).
    pub off: u8,
    /// Stream schedules: [number of chunks, chunk sizes.., buffer sizes..].
    pub aux: Vec<u32>,
}

impl Case {
    pub fn new(codec: usize, dir: Dir) -> Case {
        Case { codec, dir, input: vec![], cap: 0, end: true, off: 0, aux: vec![] }
    }
    pub fn to_text(&self, prop: &str, codecs: &[Codec]) -> String {
        let hex: String = self.input.iter().map(|b| format!("{b:02x}")).collect();
        let aux: Vec<String> = self.aux.iter().map(|x| x.to_string()).collect();
        format!(
            "property={prop}\ncodec={}\ndir={}\ncap={}\nend={}\noff={}\naux={}\ninput={hex}\n",
            codecs[self.codec].name,
            if self.dir == Dir::Enc { "encode" } else { "decode" },
            self.cap,
            self.end,
            self.off,
            aux.join(","),
        )
    }
    pub fn from_text(s: &str, codecs: &[Codec]) -> Option<(String, Case)> {
        let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k).and_then(|l| l.strip_prefix('=')));
        let name = get("codec")?;
        let hex = get("input")?;
        Some((
            get("property")?.to_string(),
            Case {
                codec: codecs.iter().position(|c| c.name == name)?,
                dir: if get("dir")? == "encode" { Dir::Enc } else { Dir::Dec },
                input: (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect(),
                cap: get("cap")?.parse().ok()?,
                end: get("end")? == "true",
                off: get("off")?.parse().ok()?,
                aux: get("aux")?.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            },
        ))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Ok { n: usize, len: usize, at_start: bool },
    Err { start: usize, end: usize, ch: char, written: usize, invalid: bool },
    Panic(String),
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let in_library = alloc::armed();
        alloc::disarm();
        let s = i.to_string();
        if !in_library {
            eprintln!("harness: {s}");
        }
        let _ = PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = s
            }
        });
    }));
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

pub const GUARD: usize = 16;
const FILL: u8 = 0xAA;
const CANARY: u8 = 0xC7;

pub const NOUT: usize = 7;
pub const OUTCOMES: [&str; NOUT] =
    ["ok_all_consumed", "ok_output_full", "ok_waits_for_input", "ok_no_room_for_error", "err_malformed", "err_truncated_end", "other"];

/// Memory between two pages that cannot be touched.
struct Fenced {
    base: *mut u8,
}
const PAGES: usize = 6 << 20;
impl Fenced {
    fn new() -> Option<Fenced> {
        extern "C" {
            fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
            fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
        }
        let page = 4096;
        unsafe {
            let p = mmap(std::ptr::null_mut(), PAGES + 2 * page, 0, 0x4022, -1, 0);
            if p as isize == -1 || mprotect(p.add(page), PAGES, 3) != 0 {
                return None;
            }
            Some(Fenced { base: p.add(page) })
        }
    }
    /// So many bytes at one end or the other.
    fn place(&self, n: usize, last: bool) -> *mut u8 {
        unsafe { if last { self.base.add(PAGES - n) } else { self.base } }
    }
}

pub struct Cx<'m> {
    pub m: &'m Model,
    pub codecs: &'m [Codec],
    /// Exact heap allocations for input and output, so that a sanitizer sees every byte outside them.
    pub exact: bool,
    pub fill: u8,
    pub exp: Vec<u8>,
    inb: Vec<u8>,
    outb: Vec<u8>,
    outx: Box<[u8]>,
    /// Input and output next to forbidden pages.
    fenced: Option<(Fenced, Fenced)>,
    out_fenced: *const u8,
    pub fenced_calls: u64,
    pub input_changed: bool,
    out_at: usize,
    pub out_cap: usize,
    pub allocs: u64,
    /// Events by codec, direction, outcome.
    pub events: Vec<[[u64; NOUT]; 2]>,
    pub calls: u64,
    /// C24: pipelines by source and target; rounds, malformed ranges, replaced characters.
    pub pairs: Vec<u64>,
    pub flow: [u64; 3],
    pub guards_broken: bool,
    pub nontrivial: bool,
}

impl<'m> Cx<'m> {
    pub fn new(m: &'m Model, codecs: &'m [Codec], exact: bool) -> Cx<'m> {
        Cx {
            m,
            codecs,
            exact,
            fill: FILL,
            exp: vec![],
            inb: vec![],
            outb: vec![],
            outx: Box::new([]),
            fenced: None,
            out_fenced: std::ptr::null(),
            fenced_calls: 0,
            input_changed: false,
            out_at: 0,
            out_cap: 0,
            allocs: 0,
            events: vec![[[0; NOUT]; 2]; codecs.len()],
            calls: 0,
            pairs: vec![0; codecs.len() * codecs.len()],
            flow: [0; 3],
            guards_broken: false,
            nontrivial: false,
        }
    }
    /// From now on, a call that touches anything next to its buffers dies of it.
    pub fn fence(&mut self) {
        if let (Some(a), Some(b)) = (Fenced::new(), Fenced::new()) {
            self.fenced = Some((a, b));
        }
    }
    /// The output buffer of the last call.
    #[inline]
    pub fn out(&self, len: usize) -> &[u8] {
        let len = len.min(self.out_cap);
        if self.exact {
            &self.outx[..len]
        } else if !self.out_fenced.is_null() {
            unsafe { std::slice::from_raw_parts(self.out_fenced, len) }
        } else {
            &self.outb[self.out_at..self.out_at + len]
        }
    }

    pub fn call(&mut self, codec: usize, dir: Dir, input: &[u8], cap: usize, end: bool, off: u8) -> R {
        self.calls += 1;
        self.out_cap = cap;
        let c = &self.codecs[codec];
        let fill = self.fill;
        if self.exact {
            let i: Box<[u8]> = input.into();
            let mut o: Box<[u8]> = vec![fill; cap].into_boxed_slice();
            let r = raw(c, dir, &i, &mut o, end, &mut self.allocs);
            self.outx = o;
            return r;
        }
        self.out_fenced = std::ptr::null();
        if let Some((fi, fo)) = &self.fenced {
            if input.len() <= PAGES && cap + GUARD <= PAGES {
                // Two times in three against the page behind, else against the page before.
                let (li, lo) = ((off & 15) % 3 != 2, (off >> 4) % 3 != 2);
                let (pi, po) = (fi.place(input.len(), li), fo.place(cap, lo));
                let (i, o, guard) = unsafe {
                    (
                        std::slice::from_raw_parts_mut(pi, input.len()),
                        std::slice::from_raw_parts_mut(po, cap),
                        std::slice::from_raw_parts_mut(if lo { po.sub(GUARD) } else { po.add(cap) }, GUARD),
                    )
                };
                i.copy_from_slice(input);
                o.fill(fill);
                guard.fill(CANARY);
                let r = raw(c, dir, i, o, end, &mut self.allocs);
                if guard.iter().any(|&x| x != CANARY) {
                    self.guards_broken = true;
                }
                if i != input {
                    self.input_changed = true;
                }
                self.out_fenced = po;
                self.fenced_calls += 1;
                return r;
            }
        }
        let (oi, oo) = ((off & 15) as usize, (off >> 4) as usize);
        if self.inb.len() < oi + input.len() {
            self.inb.resize((oi + input.len()) * 2 + 64, 0);
        }
        self.inb[oi..oi + input.len()].copy_from_slice(input);
        let need = oo + cap + 2 * GUARD;
        if self.outb.len() < need {
            self.outb.resize(need * 2, 0);
        }
        let b = oo + GUARD;
        self.out_at = b;
        self.outb[b - GUARD..b].fill(CANARY);
        self.outb[b..b + cap].fill(fill);
        self.outb[b + cap..b + cap + GUARD].fill(CANARY);
        let r = raw(c, dir, &self.inb[oi..oi + input.len()], &mut self.outb[b..b + cap], end, &mut self.allocs);
        if self.outb[b - GUARD..b].iter().chain(&self.outb[b + cap..b + cap + GUARD]).any(|&x| x != CANARY) {
            self.guards_broken = true;
        }
        r
    }
}

impl Cx<'_> {
    /// For streams: the input and the output stay where they are over many calls.
    pub fn begin_stream(&mut self, input: &[u8], cap: usize, off: u8) -> (Vec<u8>, Vec<u8>, usize, usize) {
        let (oi, oo) = ((off & 15) as usize, (off >> 4) as usize);
        let mut i = std::mem::take(&mut self.inb);
        let mut o = std::mem::take(&mut self.outb);
        i.clear();
        i.resize(oi, 0);
        i.extend_from_slice(input);
        o.clear();
        o.resize(oo + cap, self.fill);
        (i, o, oi, oo)
    }
    pub fn end_stream(&mut self, i: Vec<u8>, o: Vec<u8>) {
        self.inb = i;
        self.outb = o;
    }
    pub fn call_raw(&mut self, codec: usize, dir: Dir, input: &[u8], out: &mut [u8], end: bool) -> R {
        self.calls += 1;
        raw(&self.codecs[codec], dir, input, out, end, &mut self.allocs)
    }
}

#[inline]
pub fn raw(c: &Codec, dir: Dir, input: &[u8], out: &mut [u8], end: bool, allocs: &mut u64) -> R {
    let base = out.as_ptr() as usize;
    let r = catch_unwind(AssertUnwindSafe(|| match dir {
        Dir::Enc => {
            // Encode cases always hold valid UTF-8 (checked where they are made and replayed).
            let s = unsafe { std::str::from_utf8_unchecked(input) };
            alloc::arm();
            let r = (c.enc)(s, out, end);
            *allocs += alloc::disarm();
            match r {
                Ok((o, n)) => R::Ok { n, len: o.len(), at_start: o.is_empty() || o.as_ptr() as usize == base },
                Err(e) => R::Err {
                    start: e.error_range.0,
                    end: e.error_range.1,
                    ch: e.character,
                    written: e.output_bytes_written,
                    invalid: true,
                },
            }
        }
        Dir::Dec => {
            alloc::arm();
            let r = (c.dec)(input, out, end);
            *allocs += alloc::disarm();
            match r {
                Ok((o, n)) => R::Ok { n, len: o.len(), at_start: o.is_empty() || o.as_ptr() as usize == base },
                Err(e) => R::Err {
                    start: e.error_range.0,
                    end: e.error_range.1,
                    ch: '\0',
                    written: e.output_bytes_written,
                    invalid: e.cause == text_encoding::DecodeErrorCause::InvalidData,
                },
            }
        }
    }));
    match r {
        Ok(r) => r,
        Err(_) => R::Panic(last_panic()),
    }
}
