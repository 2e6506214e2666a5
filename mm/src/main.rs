#![cfg_attr(feature = "native32", no_std)]
#![cfg_attr(feature = "native32", no_main)]
extern crate alloc;

#[path = "../../mc/src/bm.rs"]
mod bm;
#[path = "../../mc/src/refm.rs"]
mod refm;
mod suite;

#[cfg(feature = "native32")]
mod native32;

#[cfg(feature = "cpuid")]
mod cpuid;

#[cfg(not(feature = "native32"))]
pub fn put(s: &str) {
    use std::io::Write;
    std::io::stdout().write_all(s.as_bytes()).unwrap();
}
#[cfg(feature = "native32")]
pub use native32::put;

/// mm LEVEL SHARD NSHARDS [record|play FILE | case,..]: prints "CASE ..." before each case, "DONE states compared cases" at the end.
#[cfg(not(feature = "native32"))]
fn main() {
    use suite::Tape;
    #[cfg(feature = "cpuid")]
    cpuid::start();
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u32>().unwrap();
    let mode = a.get(4).map(|s| s.as_str()).unwrap_or("");
    let mut only: Vec<u32> = vec![];
    let mut tape = match mode {
        "record" => Tape::Record(vec![]),
        "play" => Tape::Play(std::fs::read(&a[5]).unwrap(), 0),
        "" => Tape::Compute,
        s => {
            only = s.split(',').map(|x| x.parse().unwrap()).collect();
            Tape::Compute
        }
    };
    let rc = suite::main(n(1), n(2), n(3), &only, &mut tape);
    if let Tape::Record(t) = &tape {
        std::fs::write(&a[5], t).unwrap();
    }
    std::process::exit(rc);
}
