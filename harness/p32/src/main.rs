//! The workload of plat.rs as a 32-bit program without an operating system's libraries (none are installed for it):
//!   p32 LEVEL PART PARTS SEED [CODEC DIR GROUP]
#![no_std]
#![no_main]
extern crate alloc;
use alloc::format;
use alloc::string::String;
use core::alloc::{GlobalAlloc, Layout};
use core::arch::{asm, global_asm};

pub mod prelude {
    pub use alloc::vec;
    pub use alloc::string::ToString;
    pub use alloc::vec::Vec;
}
#[path = "../../src/codecs.rs"]
mod codecs;
#[path = "../../src/plat.rs"]
mod plat;
#[path = "../../src/toks.rs"]
mod toks;

use codecs::Codec;
use plat::*;

unsafe fn sys(n: i32, a: usize, b: usize, c: usize) -> i32 {
    let r: i32;
    // (ebx is the compiler's)
    asm!("xchg {t}, ebx", "int 0x80", "xchg {t}, ebx", t = inout(reg) a => _, inlateout("eax") n => r, in("ecx") b, in("edx") c, options(nostack));
    r
}
fn exit(code: usize) -> ! {
    unsafe {
        sys(1, code, 0, 0);
    }
    loop {}
}
fn put(s: &str) {
    let mut b = s.as_bytes();
    while !b.is_empty() {
        let n = unsafe { sys(4, 1, b.as_ptr() as usize, b.len()) };
        if n <= 0 {
            exit(3);
        }
        b = &b[n as usize..];
    }
}

/// Size classes over the program break; what is freed is used again.
struct Heap;
static mut AT: usize = 0;
static mut TOP: usize = 0;
static mut FREE: [usize; 32] = [0; 32];
fn class(l: &Layout) -> usize {
    let s = l.size().max(l.align()).max(16);
    (usize::BITS - (s - 1).leading_zeros()) as usize
}
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let k = class(&l);
        let small = k < 28;
        if small && FREE[k] != 0 {
            let p = FREE[k] as *mut u8;
            FREE[k] = *(p as *mut usize);
            return p;
        }
        if AT == 0 {
            AT = (sys(45, 0, 0, 0) as usize + 4095) & !4095;
            TOP = AT;
        }
        let size = if small { 1usize << k } else { l.size() };
        let a = l.align().max(16);
        let p = (AT + a - 1) & !(a - 1);
        let Some(e) = p.checked_add(size) else { return core::ptr::null_mut() };
        if e > TOP {
            let want = (e + 0xF_FFFF) & !0xF_FFFF;
            let got = sys(45, want, 0, 0) as usize;
            if got < e {
                return core::ptr::null_mut();
            }
            TOP = got;
        }
        AT = e;
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let k = class(&l);
        if k < 28 {
            *(p as *mut usize) = FREE[k];
            FREE[k] = p as usize;
        }
    }
}
#[global_allocator]
static HEAP: Heap = Heap;

#[panic_handler]
fn panicked(i: &core::panic::PanicInfo) -> ! {
    put(&format!("P {i}\n"));
    exit(101)
}
#[no_mangle]
extern "C" fn rust_eh_personality() {}
#[no_mangle]
extern "C" fn _Unwind_Resume() -> ! {
    exit(102)
}

struct Here;
impl Host for Here {
    fn call(&mut self, c: &Codec, enc: bool, input: &[u8], out: &mut [u8], end: bool) -> Res {
        plain(c, enc, input, out, end)
    }
    fn group(&mut self, name: &str, enc: bool, group: u32, calls: u64, digest: u64, o: [u64; 4]) {
        put(&format!("G {name} {} {group} {calls} {digest:016x} {} {} {} {}\n", enc as u8, o[0], o[1], o[2], o[3]));
    }
    fn detail(&mut self, k: u64, input: &[u8], fill: u8, cap: usize, end: bool, r: &Res, digest: u64) {
        let hex: String = input.iter().take(2000).map(|b| format!("{b:02x}")).collect();
        put(&format!("D {k} {digest:016x} input[{}]={hex} fill={fill} cap={cap} end={end} {r:?}\n", input.len()));
    }
}

unsafe fn arg(sp: *const usize, k: usize) -> Option<&'static str> {
    if k >= *sp {
        return None;
    }
    let p = *sp.add(1 + k) as *const u8;
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    core::str::from_utf8(core::slice::from_raw_parts(p, n)).ok()
}

#[no_mangle]
unsafe extern "C" fn rmain(sp: *const usize) -> ! {
    let num = |k: usize| arg(sp, k).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    let (level, part, parts, seed) = (num(1) as u32, num(2) as usize, num(3) as usize, num(4));
    let only = arg(sp, 5).map(|c| (c, num(6) == 1, num(7) as u32));
    let mut big = if level == 3 { alloc::vec![b'a'; BIG] } else { alloc::vec![] };
    let mut h = Here;
    let mut w = Work::new(&mut h, seed, only.is_some());
    w.run(&codecs::all(), level, part, parts, only, &mut big);
    put(&format!("E {} {}\n", usize::BITS, cfg!(target_endian = "big") as u8));
    exit(0)
}

global_asm!(".globl _start", "_start:", "xor ebp, ebp", "mov eax, esp", "and esp, -16", "sub esp, 12", "push eax", "call rmain", "hlt");
