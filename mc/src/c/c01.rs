//! C01: sequential BLAKE2s digests. Case: [entry, out, keylen, keykind, msglen, msgkind].
use crate::bfs::Mode;
use crate::c::long;
use crate::ctx::{data, Check, Cx};
use crate::p;
use crate::refm::RP;
use blake2s_simd::{blake2s, Params, State};

pub struct C01;

const ENTRIES: u64 = 6;
const LONGEST: usize = 66_000;
const LARGEST: usize = 400_000;

pub fn edge_lens(max: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![0, 1, 2, 3, 4, 7, 8, 31, 32, 33, 55, 56];
    let mut k = 64;
    while k <= max {
        for d in [-2i64, -1, 0, 1, 2] {
            v.push((k as i64 + d) as u64);
        }
        k += 64;
    }
    v
}

impl Check for C01 {
    fn long(&self) -> (&'static [u64], Mode) {
        (&[long::ONE2S, long::CALLS1], Mode::Digest)
    }
    fn enumerate(&self, th: bool, emit: &mut dyn FnMut(&[u64]) -> bool) {
        // Every entry form, every length.
        for e in 0..ENTRIES {
            for n in 0..=if th { 4500 } else { 1300 } {
                if !emit(&[e, 32, 0, 0, n, 0]) {
                    return;
                }
            }
        }
        // All lengths into the tens of thousands (the reference from a table of prefixes).
        for n in 0..=LONGEST as u64 {
            if !emit(&[0, 32, 0, 0, n, 8 << 30]) || !emit(&[1, 32, 32, 0, n, 8 << 30]) || (n % 8 < 2 && !emit(&[4, 32, 0, 0, n, 8 << 30])) {
                return;
            }
        }
        for n in (LONGEST as u64 + 1..LARGEST as u64).filter(|n| n % 64 == 0 || n % 1000 == 0 || n % 4096 == 1 || n % 4096 == 4095) {
            for e in [0, 1] {
                if !emit(&[e, 32, 0, 0, n, 8 << 30]) {
                    return;
                }
            }
        }
        // Every key length x every digest length x edge lengths.
        for k in 0..=32 {
            for o in 1..=32 {
                for &n in &edge_lens(if th { 1024 } else { 256 }) {
                    if !emit(&[1, o, k, 0, n, 0]) {
                        return;
                    }
                }
            }
        }
        // Every length for some keys and digest lengths.
        for (o, k) in [(32, 0), (32, 1), (32, 32), (1, 31), (20, 0), (31, 16)] {
            for n in 0..=if th { 9000 } else { 2200 } {
                if !emit(&[1, o, k, 0, n, 0]) {
                    return;
                }
            }
        }
        // Key contents.
        for k in 1..=32u64 {
            let mut kinds: Vec<u64> = (1..=5).collect();
            kinds.extend((0..k * 8).map(|b| 16 + b));
            if k == 32 || th {
                for v in 0..256 {
                    kinds.push(4096 + v);
                    for p in 0..k {
                        kinds.push(8192 + 256 * p + v);
                    }
                }
            }
            for kk in kinds {
                for n in [0, 1, 64, 65, 128] {
                    if !emit(&[1, 32, k, kk, n, 0]) {
                        return;
                    }
                }
            }
        }
        // Message contents: constants, every single byte value at every position, every bit pair.
        for v in 0..256 {
            for n in [1, 63, 64, 65, 127, 128, 129, 300] {
                if !emit(&[1, 32, 0, 4096 + v, n, 4096 + v]) || !emit(&[0, 32, 0, 0, n, 4096 + v]) || !emit(&[1, 32, 8, 4096 + v, n, 4096 + v]) {
                    return;
                }
            }
        }
        for p in 0..192u64 {
            for v in 1..256 {
                for n in [64, 128, 192] {
                    if p < n && !emit(&[0, 32, 0, 0, n, 8192 + 256 * p + v]) {
                        return;
                    }
                }
            }
        }
        let bits: u64 = if th { 1024 } else { 512 };
        for i in 0..bits {
            for j in 0..i {
                if !emit(&[0, 32, 0, 0, bits / 8, 1 << 24 | i << 12 | j]) {
                    return;
                }
            }
        }
        // Large messages.
        for k in 11..=if th { 20 } else { 17 } {
            for d in [-65i64, -64, -63, -1, 0, 1, 63, 64, 65] {
                let n = (1i64 << k) + d;
                for e in [0, 1, 4] {
                    if !emit(&[e, 32, 0, 0, n as u64, 0]) {
                        return;
                    }
                }
                if !emit(&[1, 32, 32, 0, n as u64, 3]) {
                    return;
                }
            }
        }
        for m in [17u64, 20, 23, 24, 26] {
            if m <= 20 || th {
                for d in [0, 1] {
                    if !emit(&[0, 32, 0, 0, (1 << m) + d, 7 << 30]) {
                        return;
                    }
                }
            }
        }
    }

    fn run(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        let key = p::bytes(c[3], c[2] as usize);
        let n = c[4] as usize;
        let msg: Vec<u8> = if c[5] == 7 << 30 {
            data().iter().cycle().take(n).cloned().collect()
        } else if c[5] == 8 << 30 {
            data()[..n].to_vec()
        } else {
            p::bytes(c[5], n)
        };
        let r = RP { out: c[1] as u8, key: key.clone(), ..RP::default() };
        let out = c[1] as usize;
        let h = match c[0] {
            0 => cx.op("blake2s", || blake2s(&msg))?,
            1 => cx.op("Params..to_state().update().finalize()", || {
                let mut p = Params::new();
                p.hash_length(out).key(&key);
                p.to_state().update(&msg).finalize()
            })?,
            2 => cx.op("State::new", || State::new().update(&msg).finalize())?,
            3 => cx.op("State::default", || State::default().update(&msg).finalize())?,
            4 => cx.op("Write", || {
                let mut s = Params::default().to_state();
                #[cfg(feature = "std")]
                {
                    use std::io::Write;
                    s.write_all(&msg).expect("write_all");
                    s.flush().expect("flush");
                }
                #[cfg(not(feature = "std"))]
                s.update(&msg);
                s.finalize()
            })?,
            _ => cx.op("Params::default().clone()", || Params::default().clone().to_state().clone().update(&msg).finalize())?,
        };
        let want = if c[5] == 8 << 30 { cx.prefix(&r, 0, if n <= LONGEST { LONGEST } else { LARGEST }, n) } else { r.hash(&msg) };
        cx.eq("digest", h.as_bytes(), &want)
    }

    fn describe(&self, c: &[u64]) -> String {
        format!("entry {} out {} key {}x{} message {}x{}", c[0], c[1], c[2], p::kind_name(c[3]), c[4], p::kind_name(c[5]))
    }
}
