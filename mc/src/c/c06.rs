//! C06: histories of a BLAKE2sp state; C18: counts of both. Case: [1, keylen, out, 0, portable, 0, (op, arg)*].
use crate::bm as benchmarks;
use crate::c::long;
use crate::bfs::{self, *};
use crate::c::c03::{explore2s, S2s, HAS_WRITE};
use crate::ctx::{data, Check, Cx};
use crate::p;
use blake2s_simd::{blake2sp, update8, State};

pub struct C06;
pub struct C18;
pub struct S2sp;

pub const SPMAX: usize = 12_000;

impl Sys for S2sp {
    type S = blake2sp::State;
    const TAG: u64 = 1;
    fn init(cfg: &[u64]) -> (blake2sp::State, M) {
        let mut p = blake2sp::Params::new();
        p.hash_length(cfg[1] as usize).key(&p::bytes(3, cfg[0] as usize));
        let mut s = p.to_state();
        if cfg[3] == 1 {
            benchmarks::force_portable_blake2sp(&mut s);
        }
        (s, M { n: 0, last: false })
    }
    fn update(s: &mut blake2sp::State, b: &[u8]) {
        s.update(b);
    }
    fn finalize(s: &mut blake2sp::State) -> Vec<u8> {
        s.finalize().as_bytes().to_vec()
    }
    fn count(s: &blake2sp::State) -> u64 {
        s.count()
    }
    #[cfg(feature = "std")]
    fn write(s: &mut blake2sp::State, b: &[u8]) -> Result<usize, String> {
        crate::c::c03::io(std::io::Write::write(s, b))
    }
    #[cfg(feature = "std")]
    fn write_vectored(s: &mut blake2sp::State, b: &[u8], c: &[u8]) -> Result<usize, String> {
        crate::c::c03::io(std::io::Write::write_vectored(s, &[std::io::IoSlice::new(b), std::io::IoSlice::new(c)]))
    }
    #[cfg(feature = "std")]
    fn write_all(s: &mut blake2sp::State, b: &[u8]) -> Result<(), String> {
        crate::c::c03::io(std::io::Write::write_all(s, b))
    }
    #[cfg(feature = "std")]
    fn flush(s: &mut blake2sp::State) -> Result<(), String> {
        crate::c::c03::io(std::io::Write::flush(s))
    }
    #[cfg(not(feature = "std"))]
    fn write(s: &mut blake2sp::State, b: &[u8]) -> Result<usize, String> {
        s.update(b);
        Ok(b.len())
    }
    #[cfg(not(feature = "std"))]
    fn write_vectored(s: &mut blake2sp::State, b: &[u8], c: &[u8]) -> Result<usize, String> {
        s.update(b).update(c);
        Ok(b.len() + c.len())
    }
    #[cfg(not(feature = "std"))]
    fn write_all(s: &mut blake2sp::State, b: &[u8]) -> Result<(), String> {
        s.update(b);
        Ok(())
    }
    #[cfg(not(feature = "std"))]
    fn flush(_s: &mut blake2sp::State) -> Result<(), String> {
        Ok(())
    }
    fn want(cx: &mut Cx, cfg: &[u64], m: M) -> Vec<u8> {
        let key = p::bytes(3, cfg[0] as usize);
        cx.sp_prefix(cfg[1] as u8, &key, OFF, SPMAX, m.n)
    }
}

/// Chunk lengths around every threshold of the 1024-byte double-stripe buffer.
fn alphabet(th: bool) -> Vec<u64> {
    let mut v: Vec<u64> = vec![0, 1, 63, 64, 65, 447, 448, 449, 511, 512, 513, 575, 576, 577, 959, 960, 961, 1023, 1024, 1025, 1471, 1472, 1473, 1536, 1537];
    if th {
        v.extend_from_slice(&[2, 128, 129, 383, 384, 385, 640, 641, 832, 833, 896, 897, 1087, 1088, 1089, 1407, 1408, 1535, 1983, 1984, 1985, 2047, 2048, 2049]);
        v.sort();
    }
    v
}

pub fn explore2sp(cx: &mut Cx, mode: Mode) {
    let th = cx.thorough;
    let nmax: usize = if th { 3600 } else { 2640 };
    let al = alphabet(th);
    let mut cfgs: Vec<[u64; 5]> = vec![];
    for (k, o) in [(0u64, 32u64), (32, 32), (1, 17), (0, 1)] {
        for port in 0..2u64 {
            cfgs.push([k, o, 0, port, 0]);
        }
    }
    for (i, cfg) in cfgs.iter().enumerate() {
        if i % cx.nworkers != cx.worker {
            continue;
        }
        let ops = |n: usize, v: &mut Vec<(u64, u64)>| {
            for &a in &al {
                if n + a as usize <= nmax {
                    v.push((U, a));
                }
            }
            v.push((F, 0));
        };
        let leaf = |n: usize, v: &mut Vec<(u64, u64)>| {
            if HAS_WRITE {
                for a in [0u64, 1, 448, 449, 961, 1025] {
                    v.push((W, a));
                }
                v.push((WV, 1500));
                v.push((WA, 1500));
                v.push((FL, 0));
            }
            if n < 1100 {
                v.push((U, 4096));
                v.push((U, 6143));
            }
        };
        let depth = if th { 5 } else { 3 };
        bfs::bfs::<S2sp>(cfg, mode, &Opts { ops: &ops, leaf_ops: &leaf, max_depth: depth, max_states: 400_000 }, cx);
    }
    // Every two-chunk split: first chunk up to 1100 bytes, every total.
    let (amax, tmax) = if th { (1700u64, 3300u64) } else { (1090u64, 2130u64) };
    for (k, o) in [(0u64, 32u64), (32, 32)] {
        for a in 0..=amax {
            if a % cx.nworkers as u64 != cx.worker as u64 {
                continue;
            }
            for b in 0..=(tmax - a) {
                if cx.stopped() {
                    return;
                }
                // Unkeyed and keyed, one update then one (or one write).
                if k != 0 && !th && (a + b) % 3 != 0 && (a % 64).min(64 - a % 64) > 1 && (b % 64).min(64 - b % 64) > 1 {
                    continue;
                }
                let c = [1, k, o, 0, 0, 0, U, a, U, b];
                cx.set_case(&c);
                cx.states += 1;
                if let Err(m) = bfs::run_history::<S2sp>(&c[1..6], &c[6..], mode, cx) {
                    let m = format!("{}: {}", bfs::describe(&c), m);
                    cx.violation(&c, m);
                }
            }
        }
    }
}

impl Check for C06 {
    fn long(&self) -> (&'static [u64], Mode) {
        (&[long::INCSP, long::MANYSP], Mode::Digest)
    }
    fn enumerate(&self, _th: bool, _emit: &mut dyn FnMut(&[u64]) -> bool) {}
    fn explore(&self, cx: &mut Cx) {
        explore2sp(cx, Mode::Digest);
        // Every fill of the buffer x long second chunks.
        let top = if cx.thorough { 20u64 } else { 12 };
        for (k, port) in [(0u64, 0u64), (32, 0), (0, 1)] {
            for pre in 0..=1024u64 {
                if port == 1 && pre % 64 > 1 && !cx.thorough {
                    continue;
                }
                for n in (3..=top).map(|i| i * 512) {
                    for d in [0u64, 1, 63, 64, 65, 448] {
                        let c = [1, k, 32, 0, port, 0, U, pre, U, n - d, U, 1];
                        if cx.mine(&c) && !cx.stopped() {
                            cx.states += 1;
                            cx.set_case(&c);
                            if let Err(m) = self.run(&c, cx) {
                                let m = format!("{}: {}", bfs::describe(&c), m);
                                cx.violation(&c, m);
                            }
                        }
                    }
                }
            }
        }
    }
    fn run(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        bfs::run_history::<S2sp>(&c[1..6], &c[6..], Mode::Digest, cx)
    }
    fn describe(&self, c: &[u64]) -> String {
        bfs::describe(c)
    }
}

/// Case tag 2: update8 then counts: [2, base kind, base pre, base len, lane i, kind, pre, len, lane j, kind, pre, len, then].
impl C18 {
    fn update8_counts(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        let mut lane = [[c[1], c[2], c[3]]; 8];
        lane[c[4] as usize] = [c[5], c[6], c[7]];
        lane[c[8] as usize] = [c[9], c[10], c[11]];
        let mut st: Vec<State> = cx.op("construct", || (0..8).map(|i| p::pk_state(lane[i][0])).collect())?;
        let d = data();
        let mut want = [0u64; 8];
        for i in 0..8 {
            let b = &d[i * 1000..i * 1000 + lane[i][1] as usize];
            cx.op("update", || {
                st[i].update(b);
            })?;
            want[i] += b.len() as u64;
        }
        let ins: Vec<&[u8]> = (0..8).map(|i| &d[..lane[i][2] as usize]).collect();
        let check = |st: &[State], want: &[u64; 8], when: &str, cx: &mut Cx| -> Result<(), String> {
            for i in 0..8 {
                let k = cx.op("count", || st[i].count())?;
                cx.traces += 1;
                cx.outcome(&k.to_le_bytes());
                if k != want[i] {
                    return Err(format!("lane {}: count() {} after {}, {} bytes were fed in", i, k, when, want[i]));
                }
            }
            Ok(())
        };
        check(&st, &want, "update", cx)?;
        cx.op("update8", || {
            let mut it = st.iter_mut();
            let mut n = || it.next().unwrap();
            update8(n(), n(), n(), n(), n(), n(), n(), n(), ins[0], ins[1], ins[2], ins[3], ins[4], ins[5], ins[6], ins[7]);
        })?;
        for i in 0..8 {
            want[i] += ins[i].len() as u64;
        }
        check(&st, &want, "update8", cx)?;
        cx.op("finalize8", || {
            let mut it = st.iter_mut();
            let mut n = || it.next().unwrap();
            blake2s_simd::finalize8(n(), n(), n(), n(), n(), n(), n(), n())
        })?;
        check(&st, &want, "finalize8", cx)?;
        cx.op("update8", || {
            let mut it = st.iter_mut();
            let mut n = || it.next().unwrap();
            update8(n(), n(), n(), n(), n(), n(), n(), n(), ins[0], ins[1], ins[2], ins[3], ins[4], ins[5], ins[6], ins[7]);
        })?;
        for i in 0..8 {
            want[i] += ins[i].len() as u64;
        }
        check(&st, &want, "a second update8", cx)
    }
}

impl Check for C18 {
    fn long(&self) -> (&'static [u64], Mode) {
        (&[long::COUNT, long::INC2S, long::INCSP, long::UP8, long::MANY2S, long::MANYSP, long::MANY8], Mode::Count)
    }
    fn enumerate(&self, th: bool, emit: &mut dyn FnMut(&[u64]) -> bool) {
        let lens: &[u64] = if th { &[0, 1, 63, 64, 65, 127, 128, 129, 192, 193, 257] } else { &[0, 1, 64, 65, 129, 193] };
        let pres: &[u64] = &[0, 1, 64, 65];
        for &(bk, bp, bl) in &[(0u64, 0u64, 193u64), (1, 0, 193), (0, 64, 65), (1, 1, 129), (2, 65, 0)] {
            for i in 0..8u64 {
                for j in 0..=i {
                    for k in [0u64, 1, 4, 5] {
                        for &p1 in pres {
                            for &l1 in lens {
                                for (k2, p2, l2) in [(1u64, 0u64, 193u64), (4, 63, 66), (0, 64, 64)] {
                                    if !emit(&[2, bk, bp, bl, i, k, p1, l1, j, k2, p2, l2]) {
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        for k in 0..8u64 {
            for pre in 0..=130u64 {
                for len in 0..=if th { 400 } else { 200 } {
                    if !emit(&[2, k, pre, len, 0, k, pre, len, 0, k, pre, len]) {
                        return;
                    }
                }
            }
        }
    }
    fn explore(&self, cx: &mut Cx) {
        explore2s(cx, Mode::Count);
        explore2sp(cx, Mode::Count);
        let th = cx.thorough;
        self.enumerate(th, &mut |c| {
            if cx.mine(c) {
                cx.states += 1;
                cx.set_case(c);
                if let Err(m) = self.run(c, cx) {
                    let m = format!("{}: {}", self.describe(c), m);
                    cx.violation(c, m);
                }
            }
            !cx.stopped()
        });
    }
    fn run(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        match c[0] {
            0 => bfs::run_history::<S2s>(&c[1..6], &c[6..], Mode::Count, cx),
            1 => bfs::run_history::<S2sp>(&c[1..6], &c[6..], Mode::Count, cx),
            _ => self.update8_counts(c, cx),
        }
    }
    fn describe(&self, c: &[u64]) -> String {
        if c[0] < 2 {
            bfs::describe(c)
        } else {
            format!("update8 lanes (kind,pre,len) base {:?}, lane {} {:?}, lane {} {:?}", &c[1..4], c[4], &c[5..8], c[8], &c[9..12])
        }
    }
}
