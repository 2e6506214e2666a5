//! C09: hash4_exact and hash8_exact. Cases: [0, ways, content, blocks, 14 parameters]; [1, ways, len x 8] must panic.
use crate::bfs::Mode;
use crate::c::long;
use crate::c::c07::off;
use crate::ctx::{data, Check, Cx};
use crate::p::{self, *};
use crate::refm::RP;
use blake2s_simd::{hash4_exact, hash8_exact, Hash, Params};

pub struct C09;

pub fn exact(ways: usize, p: &Params, i: &[&[u8]]) -> Vec<Hash> {
    if ways == 4 {
        hash4_exact(p, i[0], i[1], i[2], i[3]).to_vec()
    } else {
        hash8_exact(p, i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]).to_vec()
    }
}

impl Check for C09 {
    fn long(&self) -> (&'static [u64], Mode) {
        (&[long::EX, long::CALLSX], Mode::Digest)
    }
    fn enumerate(&self, th: bool, emit: &mut dyn FnMut(&[u64]) -> bool) {
        for ways in [4u64, 8] {
            let go = |content: u64, blocks: u64, p: &[u64; NP], emit: &mut dyn FnMut(&[u64]) -> bool| {
                let mut c = vec![0, ways, content, blocks];
                c.extend_from_slice(p);
                emit(&c)
            };
            for base in [DEFAULT, BUSY, MAXED, BUSYU] {
                for b in 1..=if th || base == DEFAULT { 1200 } else { 300 } {
                    if !go(0, b, &base, emit) {
                        return;
                    }
                }
                // Lane contents: one lane differs in one bit; constant lanes; all lanes alike.
                for content in 1..=8 + 8 * 128 {
                    for b in [1, 2] {
                        if !go(content, b, &base, emit) {
                            return;
                        }
                    }
                }
                // Lanes that share memory.
                for content in 2000..2003 {
                    for b in 1..40 {
                        if !go(content, b, &base, emit) {
                            return;
                        }
                    }
                }
                for k in 0..=32 {
                    for o in 1..=32 {
                        for b in [1, 2, 3] {
                            let mut p = base;
                            p[KLEN] = k;
                            p[OUT] = o;
                            if !go(0, b, &p, emit) {
                                return;
                            }
                        }
                    }
                }
                for f in 0..NP {
                    let dom: Vec<u64> = match f {
                        OUT => (1..=32).collect(),
                        KLEN => (0..=32).collect(),
                        SLEN | PLEN => (0..=8).collect(),
                        KKIND | SKIND | PKIND => (0..=5).chain(16..16 + 64).chain(4096..4096 + 256).collect(),
                        FANOUT | NDEPTH => (0..=255).collect(),
                        DEPTH => (1..=255).collect(),
                        LEAF => (0..32).map(|i| 1 << i).chain((0..32).map(|i| 0xffffffff ^ 1 << i)).collect(),
                        NOFF => (0..48).map(|i| 1 << i).chain((0..48).map(|i| 0xffffffffffff ^ 1 << i)).collect(),
                        INNER => (0..=32).collect(),
                        _ => vec![0, 1],
                    };
                    for x in dom {
                        let mut p = base;
                        p[f] = x;
                        for b in [1, 2, 5] {
                            if !go(0, b, &p, emit) {
                                return;
                            }
                        }
                    }
                }
            }
            // Illegal shapes.
            let lens: &[u64] = &[0, 1, 63, 64, 65, 127, 128, 129, 192, 256];
            let n = ways as usize;
            let mut put = |l: &[u64]| {
                let mut c = vec![1, ways];
                c.extend_from_slice(l);
                emit(&c)
            };
            for a in 0..=if th { 9000 } else { 4100 } {
                if a == 0 || a % 64 != 0 {
                    if !put(&vec![a; n]) {
                        return;
                    }
                }
            }
            for a in [0, 64, 128, 65, 4096] {
                for b in 0..=if th { 9000 } else { 4200 } {
                    if a != b {
                        let mut l = vec![a; n];
                        l[b as usize % n] = b;
                        if !put(&l) {
                            return;
                        }
                    }
                }
            }
            for &a in lens {
                for &b in lens {
                    for m in 1..(1u32 << n) - 1 {
                        let l: Vec<u64> = (0..n).map(|i| if m >> i & 1 == 1 { a } else { b }).collect();
                        if a != b && !put(&l) {
                            return;
                        }
                    }
                }
            }
            for &a in lens {
                for i in 0..n {
                    for j in 0..i {
                        for &x in lens {
                            for &y in lens {
                                let mut l = vec![a; n];
                                l[i] = x;
                                l[j] = y;
                                if (x != a || y != a) && !put(&l) {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    fn run(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        let d = data();
        let ways = c[1] as usize;
        if c[0] == 1 {
            let ins: Vec<&[u8]> = (0..ways).map(|i| &d[off(i)..off(i) + c[2 + i] as usize]).collect();
            for (name, b) in [("default", DEFAULT), ("keyed, all parameters", BUSY), ("last node", BUSYU)] {
                let p = build_min(&rp(&b));
                cx.must_panic(&format!("the call with parameters {}", name), || exact(ways, &p, &ins))?;
            }
            return Ok(());
        }
        let r: RP = rp(&c[4..]);
        let n = c[3] as usize * 64;
        let content = c[2];
        let lanes: Vec<Vec<u8>> = (0..ways)
            .map(|i| match content {
                0 => d[off(i)..off(i) + n].to_vec(),
                1 => bytes(1, n),
                2 => bytes(2, n),
                3 => bytes(0, n),
                4..=8 => bytes(4096 + 16 * content + i as u64, n),
                k => {
                    let (l, pos) = ((k - 9) / 128, (k - 9) % 128);
                    let mut v = bytes(0, n);
                    if l == i as u64 {
                        let q = (pos * 4 + pos / 32) as usize % n;
                        v[q] ^= 1 << (pos % 8);
                    }
                    v
                }
            })
            .collect();
        let ins: Vec<&[u8]> = match content {
            2000 => vec![&d[off(0)..off(0) + n]; ways],
            2001 => (0..ways).map(|i| &d[off(0) + i..off(0) + i + n]).collect(),
            2002 => (0..ways).map(|i| &d[off(i / 2)..off(i / 2) + n]).collect(),
            _ => lanes.iter().map(|v| &v[..]).collect(),
        };
        let p = cx.op("Params", || build_min(&r))?;
        let h = cx.op("hash_exact", || exact(ways, &p, &ins))?;
        for i in 0..ways {
            let w = r.hash(ins[i]);
            cx.eq(&format!("lane {}", i), h[i].as_bytes(), &w)?;
        }
        Ok(())
    }
    fn describe(&self, c: &[u64]) -> String {
        if c[0] == 0 {
            format!("hash{}_exact {}content {} blocks {}", c[1], p::describe(&c[4..]), c[2], c[3])
        } else {
            format!("hash{}_exact with lengths {:?}", c[1], &c[2..])
        }
    }
}

