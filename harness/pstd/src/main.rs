//! The workload of plat.rs in an ordinary program: for the interpreter, which can be any machine.
use std::collections::HashMap;
mod prelude {
    pub use std::{string::ToString, vec, vec::Vec};
}
#[path = "../../src/codecs.rs"]
mod codecs;
#[path = "../../src/plat.rs"]
mod plat;
#[path = "../../src/platcmd.rs"]
mod platcmd;
#[path = "../../src/toks.rs"]
mod toks;

pub struct Args(HashMap<String, String>);
impl Args {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map_or(d, |s| s.parse().unwrap())
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let v: Vec<String> = std::env::args().skip(1).collect();
    let m = v.chunks_exact(2).map(|p| (p[0].trim_start_matches('-').to_string(), p[1].clone())).collect();
    std::process::exit(platcmd::plat(&Args(m), &codecs::all()));
}
