//! C08: hash8. Cases: [0, (kind, len) x 8] digests ([2, ..] all lanes read the same memory, [3, ..] equal bytes); [1, mask, key kind, len] a keyed subset must panic;
//! [4, lane, field, change, share, len, base] one lane differs in one parameter field; [5, lane, position, len] in one input byte.
use crate::bfs::Mode;
use crate::c::long;
use crate::c::c07::{lane_shapes, off, perms8};
use crate::ctx::{data, Check, Cx};
use crate::p::{build_min, bytes, neighbour, neighbours, pk, rp, BUSYU, PLAIN};
use blake2s_simd::{hash8, Hash, Params};

pub struct C08;
pub const TBL: usize = 1400;
pub const TBL2: usize = 9_000;
/// Streams of lanes lie 131137 bytes apart.
pub const LONGEST: usize = 70_000;

const DESC: &[[u64; 2]] = &[
    [0, 0], [0, 1], [0, 63], [0, 64], [0, 65], [0, 127], [0, 128], [0, 129], [0, 192], [0, 193], [0, 256], [0, 320], [0, 1000], [2, 0], [2, 64],
    [2, 128], [2, 129], [3, 0], [3, 64], [3, 128], [3, 200], [6, 64], [6, 128], [6, 129],
];

pub fn h8(p: &[Params], i: &[&[u8]; 8]) -> [Hash; 8] {
    hash8(&p[0], &p[1], &p[2], &p[3], &p[4], &p[5], &p[6], &p[7], i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7])
}

impl Check for C08 {
    fn long(&self) -> (&'static [u64], Mode) {
        (&[long::H8, long::CALLS8], Mode::Digest)
    }
    fn enumerate(&self, th: bool, emit: &mut dyn FnMut(&[u64]) -> bool) {
        for k in [0, 2, 3, 6] {
            for n in 0..=1300 {
                let mut c = vec![0];
                for _ in 0..8 {
                    c.extend_from_slice(&[k, n]);
                }
                if !emit(&c) {
                    return;
                }
                // Mixed kinds, one length.
                let mut c = vec![0];
                for i in 0..8 {
                    c.extend_from_slice(&[[0, 2, 3, 6][(i + k as usize) % 4], n]);
                }
                if !emit(&c) {
                    return;
                }
            }
        }
        // Long inputs: all of one length, and one lane shorter by some blocks.
        for n in 1301..=if th { 9000 } else { 5000 } {
            for less in [0, 1, 64 * (n / 8 % 9 + 1)] {
                let mut c = vec![0];
                for i in 0..8 {
                    c.extend_from_slice(&[0, if i == n % 8 { n - less } else { n }]);
                }
                if !emit(&c) {
                    return;
                }
            }
        }
        for n in (5001..LONGEST as u64 - 600).filter(|n| n % 64 == 0 || n % 1024 == 1 || n % 1024 == 1023) {
            for less in [0, 64 * (n / 64 % 9), 64] {
                let mut c = vec![0];
                for i in 0..8 {
                    c.extend_from_slice(&[0, if i == n / 64 % 8 { n - less } else { n }]);
                }
                if !emit(&c) {
                    return;
                }
            }
        }
        // Every pair of lengths: one lane differs.
        let lmax = if th { 260 } else { 200 };
        for a in 0..=lmax {
            for b in 0..=lmax {
                for i in if th { vec![0, 1, 2, 3, 4, 5, 6, 7] } else { vec![(a + b) % 8] } {
                    let mut c = vec![0];
                    for j in 0..8 {
                        c.extend_from_slice(&[0, if i == j { b } else { a }]);
                    }
                    if !emit(&c) {
                        return;
                    }
                }
            }
        }
        let put = |l: &[u64; 8], emit: &mut dyn FnMut(&[u64]) -> bool| {
            let mut c = [0u64; 17];
            for i in 0..8 {
                c[1 + 2 * i..3 + 2 * i].copy_from_slice(&DESC[l[i] as usize]);
            }
            emit(&c)
        };
        let vals: Vec<u64> = (0..DESC.len() as u64).collect();
        lane_shapes(&vals, &[6, 8, 15, 19], th, &mut |l| put(l, emit));
        perms8(&mut |a| {
            let mut l = [0u64; 8];
            for i in 0..8 {
                l[i] = [3, 8, 11, 15, 19, 20, 22, 12][a[i]];
            }
            put(&l, emit)
        });
        let few: Vec<u64> = if th { vals.clone() } else { vec![0, 1, 3, 4, 6, 8, 14, 15, 18, 22] };
        lane_shapes(&few, &[], th, &mut |l| {
            let mut c = [0u64; 17];
            for i in 0..8 {
                c[1 + 2 * i..3 + 2 * i].copy_from_slice(&DESC[l[i] as usize]);
            }
            [2, 3].iter().all(|&t| {
                c[0] = t;
                emit(&c)
            })
        });
        for k in [0, 2, 3, 6] {
            for n in 0..=400 {
                for t in [2, 3] {
                    let mut c = vec![t];
                    for i in 0..8 {
                        c.extend_from_slice(&[[0, 2, 3, 6][if n % 2 == 0 { k as usize / 2 } else { (i + k as usize) % 4 }], n]);
                    }
                    if !emit(&c) {
                        return;
                    }
                }
            }
        }
        for lane in 0..8 {
            for (f, x) in neighbours(false) {
                for share in 0..3 {
                    for n in [0, 1, 64, 65, 128, 200] {
                        for base in 0..2 {
                            if !emit(&[4, lane, f, x, share, n, base]) {
                                return;
                            }
                        }
                    }
                }
            }
            for n in [1, 64, 65, 128, 200] {
                for pos in 0..n {
                    if !emit(&[5, lane, pos, n]) {
                        return;
                    }
                }
            }
        }
        for m in 0..256 {
            for k in 0..4 {
                for n in [0, 64, 65, 128, 200] {
                    if !emit(&[1, m, k, n]) {
                        return;
                    }
                }
            }
        }
    }
    fn run(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        let d = data();
        if c[0] == 1 {
            let key = [bytes(0, 32), vec![0], bytes(2, 16), vec![0; 32]][c[2] as usize].clone();
            let ps: Vec<Params> = (0..8)
                .map(|i| {
                    let mut p = Params::new();
                    if c[1] >> i & 1 == 1 {
                        p.key(&key);
                    }
                    p
                })
                .collect();
            let ins: [&[u8]; 8] = [&d[..c[3] as usize]; 8];
            if c[1] != 0 {
                return cx.must_panic("hash8 with keyed parameters", || h8(&ps, &ins));
            }
            let h = cx.op("hash8", || h8(&ps, &ins))?;
            let w = pk(0).hash(ins[0]);
            for x in &h {
                cx.eq("digest", x.as_bytes(), &w)?;
            }
            return Ok(());
        }
        if c[0] == 4 || c[0] == 5 {
            let lane = c[1] as usize;
            let n = c[if c[0] == 4 { 5 } else { 3 }] as usize;
            let base = if c[0] == 4 && c[6] == 1 { BUSYU } else { PLAIN };
            let rs: Vec<_> = (0..8).map(|i| rp(&if c[0] == 4 && i == lane { neighbour(&base, c[2], c[3]) } else { base })).collect();
            let ps: Vec<Params> = rs.iter().map(build_min).collect();
            let share = if c[0] == 4 { c[4] } else { 2 };
            let mut copies: Vec<Vec<u8>> = (0..8).map(|_| d[off(0)..off(0) + n].to_vec()).collect();
            if c[0] == 5 {
                copies[lane][c[2] as usize] ^= 1 << (c[2] % 8);
            }
            let ins: [&[u8]; 8] = std::array::from_fn(|i| match share {
                0 => &d[off(i)..off(i) + n],
                1 => &d[off(0)..off(0) + n],
                _ => &copies[i][..],
            });
            let h = cx.op("hash8", || h8(&ps, &ins))?;
            for i in 0..8 {
                cx.eq(&format!("lane {}", i), h[i].as_bytes(), &rs[i].hash(ins[i]))?;
            }
            return Ok(());
        }
        let ps: Vec<Params> = (0..8).map(|i| build_min(&pk(c[1 + 2 * i]))).collect();
        let copies: Vec<Vec<u8>> = if c[0] == 3 { (0..8).map(|_| d[off(0)..off(0) + TBL].to_vec()).collect() } else { vec![] };
        let o = |i: usize| if c[0] == 0 { off(i) } else { off(0) };
        let mut ins: [&[u8]; 8] = [&[]; 8];
        for i in 0..8 {
            let n = c[2 + 2 * i] as usize;
            ins[i] = if c[0] == 3 { &copies[i][..n] } else { &d[o(i)..o(i) + n] };
        }
        let h = cx.op("hash8", || h8(&ps, &ins))?;
        for i in 0..8 {
            let w = cx.prefix(&pk(c[1 + 2 * i]), o(i), if ins[i].len() <= TBL { TBL } else if ins[i].len() <= TBL2 { TBL2 } else { LONGEST }, ins[i].len());
            cx.eq(&format!("lane {}", i), h[i].as_bytes(), &w)?;
        }
        Ok(())
    }
    fn describe(&self, c: &[u64]) -> String {
        if c[0] == 4 {
            let share = ["each its own memory", "all reading the same memory", "all with equal bytes"][c[4] as usize];
            format!("hash8 of {} bytes, {}, parameters alike ({}) but in lane {} {} changed by {:#x}", c[5], share, ["plain", "all set"][c[6] as usize], c[1], crate::p::FIELD[c[2] as usize], c[3])
        } else if c[0] == 5 {
            format!("hash8 of {} equal bytes but for byte {} in lane {}", c[3], c[2], c[1])
        } else if c[0] != 1 {
            format!("hash8 lanes (kind,len) {:?}{}", c[1..].chunks(2).collect::<Vec<_>>(), ["", "", ", all reading the same memory", ", all with equal bytes"][c[0] as usize])
        } else {
            format!("hash8 with lanes {:#010b} keyed (key {}), length {}", c[1], c[2], c[3])
        }
    }
}
