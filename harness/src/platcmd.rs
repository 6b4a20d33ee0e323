//! `mon plat`: the workload of plat.rs in this process, whatever it was built for.
use crate::codecs::Codec;
use crate::plat::*;
use crate::Args;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Here;
impl Host for Here {
    fn call(&mut self, c: &Codec, enc: bool, input: &[u8], out: &mut [u8], end: bool) -> Res {
        catch_unwind(AssertUnwindSafe(|| plain(c, enc, input, out, end))).unwrap_or(Res::Panic)
    }
    fn group(&mut self, name: &str, enc: bool, group: u32, calls: u64, digest: u64, o: [u64; 4]) {
        println!("G {name} {} {group} {calls} {digest:016x} {} {} {} {}", enc as u8, o[0], o[1], o[2], o[3]);
    }
    fn detail(&mut self, k: u64, input: &[u8], fill: u8, cap: usize, end: bool, r: &Res, digest: u64) {
        let hex: String = input.iter().take(2000).map(|b| format!("{b:02x}")).collect();
        println!("D {k} {digest:016x} input[{}]={hex} fill={fill} cap={cap} end={end} {r:?}", input.len());
    }
}

pub fn plat(a: &Args, codecs: &[Codec]) -> i32 {
    let level = a.num("level", 0) as u32;
    let mut big = if level == 3 { vec![b'a'; BIG] } else { vec![] };
    let mut h = Here;
    let only = a.get("only").map(|s| {
        let v: Vec<&str> = s.split(':').collect();
        (v[0], v[1] == "1", v[2].parse::<u32>().unwrap())
    });
    let mut w = Work::new(&mut h, a.num("seed", 1), only.is_some());
    w.run(codecs, level, a.num("part", 0) as usize, a.num("parts", 1) as usize, only, &mut big);
    println!("E {} {}", usize::BITS, cfg!(target_endian = "big") as u8);
    0
}
