//! C03: histories of a BLAKE2s state. Case: [0, keylen, out, last, portable, 0, (op, arg)*].
use crate::bm as benchmarks;
use crate::c::long;
use crate::bfs::{self, *};
use crate::ctx::{Check, Cx};
use crate::p;
use crate::refm::RP;
use blake2s_simd::{Params, State};

pub struct C03;
pub struct S2s;

pub const MAX: usize = 140_000;

fn rp(cfg: &[u64]) -> RP {
    RP { out: cfg[1] as u8, key: p::bytes(3, cfg[0] as usize), last: cfg[2] != 0, ..RP::default() }
}

#[cfg(feature = "std")]
pub fn io<T>(r: std::io::Result<T>) -> Result<T, String> {
    r.map_err(|e| format!("io::Write failed: {}", e))
}

impl Sys for S2s {
    type S = State;
    const TAG: u64 = 0;
    fn init(cfg: &[u64]) -> (State, M) {
        let r = rp(cfg);
        let mut p = Params::new();
        p.hash_length(r.out as usize).key(&r.key).last_node(r.last);
        let mut s = p.to_state();
        if cfg[3] == 1 {
            benchmarks::force_portable(&mut s);
        }
        (s, M { n: 0, last: r.last })
    }
    fn update(s: &mut State, b: &[u8]) {
        s.update(b);
    }
    fn finalize(s: &mut State) -> Vec<u8> {
        s.finalize().as_bytes().to_vec()
    }
    fn count(s: &State) -> u64 {
        s.count()
    }
    fn set_last(s: &mut State, b: bool) {
        s.set_last_node(b);
    }
    fn try_clone(s: &State) -> Option<State> {
        Some(s.clone())
    }
    fn clone_from(s: &State, onto: &mut State) {
        onto.clone_from(s);
    }
    #[cfg(feature = "std")]
    fn write(s: &mut State, b: &[u8]) -> Result<usize, String> {
        io(std::io::Write::write(s, b))
    }
    #[cfg(feature = "std")]
    fn write_vectored(s: &mut State, b: &[u8], c: &[u8]) -> Result<usize, String> {
        io(std::io::Write::write_vectored(s, &[std::io::IoSlice::new(b), std::io::IoSlice::new(c)]))
    }
    #[cfg(feature = "std")]
    fn write_all(s: &mut State, b: &[u8]) -> Result<(), String> {
        io(std::io::Write::write_all(s, b))
    }
    #[cfg(feature = "std")]
    fn flush(s: &mut State) -> Result<(), String> {
        io(std::io::Write::flush(s))
    }
    #[cfg(not(feature = "std"))]
    fn write(s: &mut State, b: &[u8]) -> Result<usize, String> {
        s.update(b);
        Ok(b.len())
    }
    #[cfg(not(feature = "std"))]
    fn write_vectored(s: &mut State, b: &[u8], c: &[u8]) -> Result<usize, String> {
        s.update(b).update(c);
        Ok(b.len() + c.len())
    }
    #[cfg(not(feature = "std"))]
    fn write_all(s: &mut State, b: &[u8]) -> Result<(), String> {
        s.update(b);
        Ok(())
    }
    #[cfg(not(feature = "std"))]
    fn flush(_s: &mut State) -> Result<(), String> {
        Ok(())
    }
    fn want(cx: &mut Cx, cfg: &[u64], m: M) -> Vec<u8> {
        let mut r = rp(cfg);
        r.last = m.last;
        let max = if m.n <= 2000 { 2000 } else { MAX };
        cx.prefix(&r, OFF, max, m.n)
    }
}

pub const HAS_WRITE: bool = cfg!(feature = "std");

pub fn explore2s(cx: &mut Cx, mode: Mode) {
    let nmax: usize = if cx.thorough { 452 } else { 259 };
    let mut cfgs: Vec<[u64; 5]> = vec![];
    for (k, o, l) in [(0u64, 32u64, 0u64), (32, 32, 0), (0, 17, 1), (1, 1, 0), (32, 31, 1)] {
        for port in 0..2u64 {
            cfgs.push([k, o, l, port, 0]);
        }
    }
    if cx.thorough {
        for k in [0u64, 7, 31] {
            for l in 0..2u64 {
                cfgs.push([k, 5, l, 0, 0]);
            }
        }
    }
    let big: Vec<u64> = if cx.thorough { (9..17).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 64, (1 << k) + 65]).collect() } else { vec![511, 1024, 4097, 8256] };
    for (i, cfg) in cfgs.iter().enumerate() {
        if i % cx.nworkers != cx.worker {
            continue;
        }
        let ops = |n: usize, v: &mut Vec<(u64, u64)>| {
            for a in 0..=(nmax - n) as u64 {
                v.push((U, a));
                if HAS_WRITE {
                    v.push((W, a));
                }
            }
            v.extend_from_slice(&[(F, 0), (L, 0), (L, 1), (CC, 0), (CF, 0), (CF, 1), (CF, 2)]);
        };
        let leaf = |n: usize, v: &mut Vec<(u64, u64)>| {
            for a in [0u64, 1, 63, 64, 65, 130] {
                v.push((CO, a));
                if HAS_WRITE {
                    v.push((WV, a));
                    v.push((WA, a));
                }
            }
            if HAS_WRITE {
                v.push((FL, 0));
            }
            if n <= 130 {
                for &b in &big {
                    v.push((U, b));
                }
                if HAS_WRITE {
                    v.push((W, 8191));
                }
            }
        };
        bfs::bfs::<S2s>(cfg, mode, &Opts { ops: &ops, leaf_ops: &leaf, max_depth: 99, max_states: 60_000 }, cx);
    }
}

impl Check for C03 {
    fn long(&self) -> (&'static [u64], Mode) {
        (&[long::INC2S, long::MANY2S], Mode::Digest)
    }
    fn enumerate(&self, _th: bool, _emit: &mut dyn FnMut(&[u64]) -> bool) {}
    fn explore(&self, cx: &mut Cx) {
        explore2s(cx, Mode::Digest);
        // Single chunks of large sizes after small prefixes.
        let ks: &[u32] = if cx.thorough { &[10, 12, 14, 15, 16, 17] } else { &[10, 12, 16] };
        let mut all = vec![];
        for &k in ks {
            for d in [-65i64, -64, -1, 0, 1, 63, 64, 65, 128] {
                for pre in [0u64, 1, 63, 64, 65] {
                    for op in [U, W] {
                        if op == U || HAS_WRITE {
                            all.push(vec![0u64, 0, 32, 0, 0, 0, U, pre, op, ((1i64 << k) + d) as u64, U, 1]);
                        }
                    }
                }
            }
        }
        // Every fill of the buffer x every length of a second chunk; then long chunks.
        for (k, port) in [(0u64, 0u64), (32, 0), (0, 1)] {
            if k + port > 0 && !cx.thorough {
                for pre in 0..=130u64 {
                    for n in [448u64, 511, 512, 513, 575, 576, 577, 640, 1023, 1024, 1025, 1088, 2048, 2049] {
                        all.push(vec![0, k, 32, 0, port, 0, U, pre, U, n, U, 1]);
                    }
                }
                continue;
            }
            for pre in 0..=130u64 {
                for n in (130..1300u64).chain((3..=8).map(|i| i * 512)).chain((3..=8).map(|i| i * 512 + 1)) {
                    all.push(vec![0, k, 32, 0, port, 0, U, pre, U, n, U, 1]);
                }
            }
            for pre in 0..=65u64 {
                for n in (4..=if cx.thorough { 64u64 } else { 16 }).map(|i| i * 1024) {
                    for d in [0u64, 1, 63, 64, 65, 129] {
                        all.push(vec![0, k, 32, 0, port, 0, U, pre, U, n - d, U, 65]);
                    }
                }
            }
        }
        for c in all {
            if cx.mine(&c) {
                cx.states += 1;
                cx.set_case(&c);
                if let Err(m) = self.run(&c, cx) {
                    let m = format!("{}: {}", bfs::describe(&c), m);
                    cx.violation(&c, m);
                }
            }
        }
    }
    fn run(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        bfs::run_history::<S2s>(&c[1..6], &c[6..], Mode::Digest, cx)
    }
    fn describe(&self, c: &[u64]) -> String {
        bfs::describe(c)
    }
}
