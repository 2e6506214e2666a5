//! C05: BLAKE2sp digests. Case: [entry, out, keylen, keykind, msglen, msgkind].
use crate::bm as benchmarks;
use crate::bfs::Mode;
use crate::c::long;
use crate::c::c01::edge_lens;
use crate::ctx::{data, Check, Cx};
use crate::p;
use crate::refm;
use blake2s_simd::blake2sp;

pub struct C05;
const LONGEST: usize = 34_000;
const LARGEST: usize = 170_000;

/// Around every threshold of the stripes: multiples of 64 and of the buffer sizes.
pub fn sp_edges(max: u64) -> Vec<u64> {
    let mut v: Vec<u64> = edge_lens(1152);
    let mut k = 1152;
    while k <= max {
        for d in [k - 1, k, k + 1] {
            v.push(d);
        }
        k += 64;
    }
    v
}

impl Check for C05 {
    fn long(&self) -> (&'static [u64], Mode) {
        (&[long::ONESP], Mode::Digest)
    }
    fn enumerate(&self, th: bool, emit: &mut dyn FnMut(&[u64]) -> bool) {
        for e in 0..6 {
            for n in 0..=if th { 8300 } else { 3200 } {
                if !emit(&[e, 32, 0, 0, n, 0]) {
                    return;
                }
            }
        }
        // All lengths into the tens of thousands (the reference from a table of prefixes).
        for n in 0..=LONGEST as u64 {
            if !emit(&[0, 32, 0, 0, n, 8 << 30]) || !emit(&[1, 32, 32, 0, n, 8 << 30]) || (n % 8 < 2 && !emit(&[4, 32, 0, 0, n, 8 << 30])) {
                return;
            }
        }
        for n in (LONGEST as u64 + 1..LARGEST as u64).filter(|n| n % 64 == 0 || n % 1000 == 0 || n % 4096 == 1 || n % 4096 == 4095) {
            if !emit(&[0, 32, 0, 0, n, 8 << 30]) {
                return;
            }
        }
        for k in 0..=32 {
            for o in 1..=32 {
                let lens: Vec<u64> = if th { sp_edges(2200) } else { vec![0, 1, 64, 448, 449, 511, 512, 513, 959, 960, 961, 1024, 1025, 1473, 1537] };
                for n in lens {
                    if !emit(&[1, o, k, 0, n, 0]) {
                        return;
                    }
                }
            }
        }
        for (o, k) in [(32, 1), (32, 32), (1, 31), (20, 0), (31, 16)] {
            for n in 0..=if th { 8300 } else { 2700 } {
                if !emit(&[1, o, k, 0, n, 0]) || !emit(&[5, o, k, 0, n, 0]) {
                    return;
                }
            }
        }
        for k in 1..=32u64 {
            let mut kinds: Vec<u64> = (1..=5).collect();
            kinds.extend((0..k * 8).map(|b| 16 + b));
            if k == 32 {
                kinds.extend((0..256).map(|v| 4096 + v));
            }
            for kk in kinds {
                for n in [0, 65, 1100] {
                    if !emit(&[1, 32, k, kk, n, 0]) {
                        return;
                    }
                }
            }
        }
        for v in 0..256 {
            for n in [1, 64, 449, 512, 1024, 1025, 1537] {
                if !emit(&[0, 32, 0, 0, n, 4096 + v]) || !emit(&[1, 32, 8, 4096 + v, n, 4096 + v]) {
                    return;
                }
            }
        }
        for n in [1024u64, 1600] {
            for p in 0..n {
                for v in if th { vec![1, 2, 4, 8, 16, 32, 64, 0x7f, 0x80, 0xff] } else { vec![1, 0x80] } {
                    if !emit(&[0, 32, 0, 0, n, 8192 + 256 * p + v]) {
                        return;
                    }
                }
            }
        }
        for k in 12..=if th { 20 } else { 18 } {
            for d in [-513i64, -512, -65, -64, -63, -1, 0, 1, 63, 64, 65, 448, 449, 511, 512, 513] {
                let n = ((1i64 << k) + d) as u64;
                for e in [0, 1, 5] {
                    if !emit(&[e, 32, 0, 0, n, 0]) {
                        return;
                    }
                }
                if !emit(&[1, 32, 32, 0, n, 3]) {
                    return;
                }
            }
        }
    }

    fn run(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        let key = p::bytes(c[3], c[2] as usize);
        let n = c[4] as usize;
        let msg: Vec<u8> = if c[5] == 8 << 30 { data()[..n].to_vec() } else if n > (1 << 20) - 2000 { data().iter().cycle().take(n).cloned().collect() } else { p::bytes(c[5], n) };
        let out = c[1] as usize;
        let params = || {
            let mut p = blake2sp::Params::new();
            p.hash_length(out).key(&key);
            p
        };
        let h = match c[0] {
            0 => cx.op("blake2sp", || blake2sp::blake2sp(&msg))?,
            1 => cx.op("Params..to_state().update().finalize()", || params().to_state().update(&msg).finalize())?,
            2 => cx.op("State::new", || blake2sp::State::new().update(&msg).finalize())?,
            3 => cx.op("State::default", || blake2sp::State::default().update(&msg).finalize())?,
            4 => cx.op("Write", || {
                let mut s = blake2sp::Params::default().to_state();
                #[cfg(feature = "std")]
                {
                    use std::io::Write;
                    s.write_all(&msg).expect("write_all");
                    s.flush().expect("flush");
                }
                #[cfg(not(feature = "std"))]
                s.update(&msg);
                s.finalize()
            })?,
            _ => cx.op("forced portable", || {
                let mut s = params().to_state();
                benchmarks::force_portable_blake2sp(&mut s);
                s.update(&msg).finalize()
            })?,
        };
        let want = if c[5] == 8 << 30 { cx.sp_prefix(c[1] as u8, &key, 0, if n <= LONGEST { LONGEST } else { LARGEST }, n) } else { refm::blake2sp(c[1] as u8, &key, &msg) };
        cx.eq("digest", h.as_bytes(), &want)
    }

    fn describe(&self, c: &[u64]) -> String {
        format!("blake2sp entry {} out {} key {}x{} message {}x{}", c[0], c[1], c[2], p::kind_name(c[3]), c[4], p::kind_name(c[5]))
    }
}
