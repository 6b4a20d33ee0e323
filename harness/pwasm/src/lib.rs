//! The workload of plat.rs as a WebAssembly module (32-bit pointers, no operating system); host.js runs it.
#![no_std]
extern crate alloc;
use alloc::format;
use alloc::string::String;
use core::alloc::{GlobalAlloc, Layout};
use core::arch::wasm32::{memory_grow, memory_size, unreachable};

pub mod prelude {
    pub use alloc::string::ToString;
    pub use alloc::vec;
    pub use alloc::vec::Vec;
}
#[path = "../../src/codecs.rs"]
mod codecs;
#[path = "../../src/plat.rs"]
mod plat;
#[path = "../../src/toks.rs"]
mod toks;

use codecs::Codec;
use plat::*;

mod host {
    #[link(wasm_import_module = "env")]
    extern "C" {
        pub fn put(p: *const u8, n: usize);
    }
}
fn put(s: &str) {
    unsafe { host::put(s.as_ptr(), s.len()) }
}

/// Size classes over the end of the memory; what is freed is used again.
struct Heap;
static mut AT: usize = 0;
static mut FREE: [usize; 32] = [0; 32];
fn class(l: &Layout) -> usize {
    let s = l.size().max(l.align()).max(16);
    (usize::BITS - (s - 1).leading_zeros()) as usize
}
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let k = class(&l);
        let small = k < 28;
        if small && FREE[k] != 0 {
            let p = FREE[k] as *mut u8;
            FREE[k] = *(p as *mut usize);
            return p;
        }
        if AT == 0 {
            AT = memory_size(0) << 16;
        }
        let size = if small { 1usize << k } else { l.size() };
        let a = l.align().max(16);
        let p = (AT + a - 1) & !(a - 1);
        let Some(e) = p.checked_add(size) else { return core::ptr::null_mut() };
        let have = memory_size(0) << 16;
        if e > have {
            let pages = ((e - have + 0xFFFF) >> 16).max(16);
            if memory_grow(0, pages) == usize::MAX {
                return core::ptr::null_mut();
            }
        }
        AT = e;
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let k = class(&l);
        if k < 28 {
            *(p as *mut usize) = FREE[k];
            FREE[k] = p as usize;
        }
    }
}
#[global_allocator]
static HEAP: Heap = Heap;

#[panic_handler]
fn panicked(i: &core::panic::PanicInfo) -> ! {
    put(&format!("P {i}\n"));
    unreachable()
}

struct Here;
impl Host for Here {
    fn call(&mut self, c: &Codec, enc: bool, input: &[u8], out: &mut [u8], end: bool) -> Res {
        plain(c, enc, input, out, end)
    }
    fn group(&mut self, name: &str, enc: bool, group: u32, calls: u64, digest: u64, o: [u64; 4]) {
        put(&format!("G {name} {} {group} {calls} {digest:016x} {} {} {} {}\n", enc as u8, o[0], o[1], o[2], o[3]));
    }
    fn detail(&mut self, k: u64, input: &[u8], fill: u8, cap: usize, end: bool, r: &Res, digest: u64) {
        let hex: String = input.iter().take(2000).map(|b| format!("{b:02x}")).collect();
        put(&format!("D {k} {digest:016x} input[{}]={hex} fill={fill} cap={cap} end={end} {r:?}\n", input.len()));
    }
}

/// codec: index, or a negative number for all. The seed in halves.
#[no_mangle]
extern "C" fn run(level: u32, part: u32, parts: u32, low: u32, high: u32, codec: i32, enc: u32, group: u32) {
    let all = codecs::all();
    let only = all.get(codec as usize).map(|c| (c.name, enc == 1, group));
    let mut big = if level == 3 { alloc::vec![b'a'; BIG] } else { alloc::vec![] };
    let mut h = Here;
    let mut w = Work::new(&mut h, (high as u64) << 32 | low as u64, only.is_some());
    w.run(&all, level, part as usize, parts as usize, only, &mut big);
    put(&format!("E {} {}\n", usize::BITS, cfg!(target_endian = "big") as u8));
}
#[no_mangle]
extern "C" fn name(k: u32) -> u32 {
    let all = codecs::all();
    match all.get(k as usize) {
        Some(c) => {
            put(c.name);
            1
        }
        None => 0,
    }
}
