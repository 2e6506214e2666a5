//! C10: compression back ends. Cases:
//!  [fn, 5 numbers per lane (chaining kind, block kind, count, last block, last node)]
//!  [100 + which, len]  forced-portable states hash like default ones
//! fn: 0 portable, 1 sse4.1, 2 portable x8, 3 avx2 x8, 4 sse4.1 x4 transposed, 5 avx2 transposed, 6 avx2 vectorized.
use crate::ctx::{data, Check, Cx};
use crate::p::{self, bytes};
use crate::refm;
use crate::bm::{self as b, AlignedWords8};
#[cfg(target_arch = "x86_64")]
use std::arch::x86_64::{__m128i, __m256i};

pub struct C10;

const NAMES: [&str; 7] = ["portable::compress", "sse41::compress", "portable::compress8", "avx2::compress8", "sse41::compress4_transposed", "avx2::compress8_transposed_all", "avx2::compress8_vectorized"];

fn lanes_of(f: u64) -> usize {
    match f {
        0 | 1 => 1,
        4 => 4,
        _ => 8,
    }
}
pub fn available(f: u64) -> bool {
    match f {
        0 | 2 => true,
        1 | 4 => is_x86_feature_detected!("sse4.1"),
        _ => is_x86_feature_detected!("avx2"),
    }
}

type H = [u32; 8];
fn words(kind: u64) -> H {
    let v = bytes(kind, 32);
    let mut h = [0; 8];
    for i in 0..8 {
        h[i] = u32::from_le_bytes([v[4 * i], v[4 * i + 1], v[4 * i + 2], v[4 * i + 3]]);
    }
    h
}
#[derive(Clone)]
pub struct Lane {
    pub h: H,
    pub m: [u8; 64],
    pub t: u64,
    pub lb: u32,
    pub ln: u32,
}
fn lane(c: &[u64]) -> Lane {
    let mut m = [0; 64];
    m.copy_from_slice(&bytes(c[1], 64));
    Lane { h: words(c[0]), m, t: c[2], lb: c[3] as u32, ln: c[4] as u32 }
}

pub fn call(f: u64, l: &[Lane]) -> Vec<H> {
    let n = l.len();
    let mut h: Vec<H> = l.iter().map(|x| x.h).collect();
    unsafe {
        match f {
            0 => b::compress_portable(&mut h[0], &l[0].m, l[0].t, l[0].lb, l[0].ln),
            1 => b::compress_sse41(&mut h[0], &l[0].m, l[0].t, l[0].lb, l[0].ln),
            2 | 3 => {
                let g = if f == 2 { b::compress8_portable } else { b::compress8_avx2 };
                let mut it = h.iter_mut();
                let mut nx = || it.next().unwrap();
                g(
                    nx(), nx(), nx(), nx(), nx(), nx(), nx(), nx(), &l[0].m, &l[1].m, &l[2].m, &l[3].m, &l[4].m, &l[5].m, &l[6].m, &l[7].m,
                    l[0].t, l[1].t, l[2].t, l[3].t, l[4].t, l[5].t, l[6].t, l[7].t, l[0].lb, l[1].lb, l[2].lb, l[3].lb, l[4].lb, l[5].lb, l[6].lb,
                    l[7].lb, l[0].ln, l[1].ln, l[2].ln, l[3].ln, l[4].ln, l[5].ln, l[6].ln, l[7].ln,
                );
            }
            _ => {
                let mut hv = [AlignedWords8([0; 8]); 8];
                let (mut cl, mut ch, mut lb, mut ln) = (AlignedWords8([0; 8]), AlignedWords8([0; 8]), AlignedWords8([0; 8]), AlignedWords8([0; 8]));
                for i in 0..n {
                    for w in 0..8 {
                        hv[w].0[i] = h[i][w];
                    }
                    cl.0[i] = l[i].t as u32;
                    ch.0[i] = (l[i].t >> 32) as u32;
                    lb.0[i] = l[i].lb;
                    ln.0[i] = l[i].ln;
                }
                match f {
                    4 => {
                        let v = |a: &AlignedWords8| *(a as *const AlignedWords8 as *const __m128i);
                        let mut q: [__m128i; 8] = std::mem::zeroed();
                        for w in 0..8 {
                            q[w] = v(&hv[w]);
                        }
                        b::compress4_transposed_sse41(&mut q, &l[0].m, &l[1].m, &l[2].m, &l[3].m, v(&cl), v(&ch), v(&lb), v(&ln));
                        for w in 0..8 {
                            *(&mut hv[w] as *mut AlignedWords8 as *mut __m128i) = q[w];
                        }
                    }
                    5 => transposed_all(&mut hv, l, &cl, &ch, &lb, &ln),
                    _ => b::compress8_vectorized_avx2(&mut hv, &l[0].m, &l[1].m, &l[2].m, &l[3].m, &l[4].m, &l[5].m, &l[6].m, &l[7].m, &cl, &ch, &lb, &ln),
                }
                for i in 0..n {
                    for w in 0..8 {
                        h[i][w] = hv[w].0[i];
                    }
                }
            }
        }
    }
    h
}

#[target_feature(enable = "avx2")]
unsafe fn transposed_all(hv: &mut [AlignedWords8; 8], l: &[Lane], cl: &AlignedWords8, ch: &AlignedWords8, lb: &AlignedWords8, ln: &AlignedWords8) {
    let v = |a: &AlignedWords8| *(a as *const AlignedWords8 as *const __m256i);
    let mut mv: [__m256i; 16] = std::mem::zeroed();
    for w in 0..16 {
        let mut a = AlignedWords8([0; 8]);
        for i in 0..8 {
            let m = &l[i].m[4 * w..];
            a.0[i] = u32::from_le_bytes([m[0], m[1], m[2], m[3]]);
        }
        mv[w] = v(&a);
    }
    b::compress8_transposed_all_avx2(&mut *(hv as *mut _ as *mut [__m256i; 8]), &mv, v(cl), v(ch), v(lb), v(ln));
}

const F: u64 = 0xffff_ffff;

fn counts() -> Vec<u64> {
    let mut v: Vec<u64> = vec![0];
    for k in 0..64 {
        v.push(1 << k);
        v.push((1u64 << k).wrapping_sub(1));
        v.push(!(1 << k));
        v.push((1u64 << k).wrapping_add(64));
        v.push((1u64 << k).wrapping_sub(64));
    }
    v.push(u64::MAX);
    v.sort();
    v.dedup();
    v
}

/// All of q, as many to a call as f has lanes; `rot` times, shifted by a lane each time.
fn spread(f: u64, q: &[[u64; 5]], rot: usize, emit: &mut dyn FnMut(&[u64]) -> bool) -> bool {
    let n = lanes_of(f);
    for r in 0..rot {
        for s in (0..q.len()).step_by(n) {
            let mut c = vec![f];
            for i in 0..n {
                c.extend_from_slice(&q[(s + (i + r) % n) % q.len()]);
            }
            if !emit(&c) {
                return false;
            }
        }
    }
    true
}

impl Check for C10 {
    fn enumerate(&self, th: bool, emit: &mut dyn FnMut(&[u64]) -> bool) {
        let flags = [(0, 0), (F, 0), (0, F), (F, F)];
        // Single-lane sweeps, also used lane by lane (each lane a rotation of the sweep) for the wide functions.
        let mut sweep: Vec<[u64; 5]> = vec![];
        for k in 0..4u64 {
            for m in 0..4u64 {
                for &(lb, ln) in &flags {
                    for t in [0, 64, 1 << 32] {
                        sweep.push([k, m, t, lb, ln]);
                    }
                }
            }
        }
        for &(lb, ln) in &flags {
            for i in 0..256 {
                for m in 0..3 {
                    sweep.push([16 + i, m, 64, lb, ln]);
                }
            }
            for i in 0..512 {
                for h in 0..3 {
                    sweep.push([h, 16 + i, 64, lb, ln]);
                }
            }
            for t in counts() {
                for h in 0..3 {
                    sweep.push([h, h, t, lb, ln]);
                }
            }
        }
        // Two bits of the count.
        for i in 0..64 {
            for j in 0..i {
                sweep.push([0, 0, 1 << i | 1 << j, F * (j & 1), 0]);
            }
        }
        // Special words at one place or two, in block and chaining value.
        for w in 0..p::WORDS.len() as u64 {
            for i in 0..16u64 {
                for j in 0..=i {
                    sweep.push([0, 1 << 25 | i << 12 | j << 6 | w, 64, F * (j & 1), 0]);
                    if i < 8 {
                        sweep.push([1 << 25 | i << 12 | j << 6 | w, 0, 64, F * (j & 1), 0]);
                        sweep.push([1 << 25 | i << 12 | j << 6 | w, 1, 0, F * (i & 1), F * (j & 1)]);
                    }
                }
            }
        }
        for pos in 0..64u64 {
            for v in (0..256).step_by(if th { 1 } else { 5 }) {
                sweep.push([0, 8192 + 256 * pos + v, 128, 0, 0]);
            }
        }
        for f in 0..7u64 {
            if !available(f) {
                continue;
            }
            let n = lanes_of(f);
            // The same input in all lanes, and all lanes different.
            for s in 0..sweep.len() {
                let mut c = vec![f];
                let mut c2 = vec![f];
                for i in 0..n {
                    c.extend_from_slice(&sweep[s]);
                    c2.extend_from_slice(&sweep[(s + i * 1297) % sweep.len()]);
                }
                if !emit(&c) || !emit(&c2) {
                    return;
                }
            }
            if n == 1 {
                // All pairs of single bits of the block, and of block and chaining value.
                let lim = 512;
                for i in 0..lim {
                    for j in 0..i {
                        if !emit(&[f, 0, 1 << 24 | i << 12 | j, 64, 0, 0]) {
                            return;
                        }
                    }
                    for j in 0..256 {
                        if !emit(&[f, 16 + j, 16 + i, 64, F, F]) {
                            return;
                        }
                    }
                }
            } else {
                // The same pairs, eight (four) to a call, each in every lane once.
                let mut q: Vec<[u64; 5]> = vec![];
                for i in 0..512u64 {
                    for j in 0..i {
                        q.push([0, 1 << 24 | i << 12 | j, 64, F * (i & 1), F * (j & 1)]);
                    }
                    for j in 0..256 {
                        q.push([16 + j, 16 + i, 64, F, 0]);
                    }
                }
                for i in 0..256u64 {
                    for j in 0..i {
                        q.push([1 << 24 | i << 12 | j, 0, 64, F, F]);
                    }
                }
                if !spread(f, &q, if th { n } else { 1 }, emit) {
                    return;
                }
            }
            if th {
                // All values of both halves of every word of the block and the chaining value.
                for w in 0..24u64 {
                    let mut q: Vec<[u64; 5]> = vec![];
                    for half in 0..2 {
                        for v in 0..65536 {
                            let k = 1 << 27 | (w % 16) << 20 | half << 16 | v;
                            q.push(if w < 16 { [3, k, 64, 0, 0] } else { [k, 3, 64, F, 0] });
                        }
                    }
                    if !spread(f, &q, 1, emit) {
                        return;
                    }
                }
            }
            if n == 1 {
                continue;
            }
            // Lane independence: at most two lanes deviate from a common base.
            let mut desc: Vec<[u64; 5]> = vec![];
            for (i, t) in [0u64, 1, 64, 65, 0xffff_ffc0, 0xffff_ffff, 1 << 32, (1 << 32) + 64, 1 << 63, u64::MAX, 0x0123_4567_89ab_cdef].iter().enumerate() {
                let fl = flags[i % 4];
                desc.push([0, 3, *t, fl.0, fl.1]);
                desc.push([i as u64 % 4, 16 + 47 * i as u64, *t, flags[(i + 1) % 4].0, flags[(i + 1) % 4].1]);
            }
            for &(lb, ln) in &flags {
                desc.push([0, 0, 64, lb, ln]);
                desc.push([3, 3, 64, lb, ln]);
            }
            for base in [[0, 0, 64, 0, 0], [3, 3, u64::MAX, F, F], [1, 1, 0, F, 0]] {
                for i in 0..n {
                    for j in 0..=i {
                        for x in &desc {
                            for y in &desc {
                                if i == j && x != y {
                                    continue;
                                }
                                let mut c = vec![f];
                                for k in 0..n {
                                    c.extend_from_slice(if k == i { x } else if k == j { y } else { &base });
                                }
                                if !emit(&c) {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
            // Every assignment of the four flag pairs to the lanes, with distinct counts.
            let total = 4u64.pow(n as u32);
            for a in 0..total {
                let mut c = vec![f];
                for i in 0..n {
                    let fl = flags[(a >> (2 * i) & 3) as usize];
                    c.extend_from_slice(&[i as u64 % 4, i as u64 % 4, (i as u64) << 30 | 64, fl.0, fl.1]);
                }
                if !emit(&c) {
                    return;
                }
            }
        }
        for w in 0..4 {
            for n in 0..=if th { 5000 } else { 2100 } {
                if !emit(&[100 + w, n]) {
                    return;
                }
            }
        }
    }

    fn run(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        if c[0] >= 100 {
            let m = &data()[..c[1] as usize];
            let key: Vec<u8> = if c[0] & 1 == 1 { bytes(3, 32) } else { vec![] };
            let (x, y) = if c[0] < 102 {
                let mut p = blake2s_simd::Params::new();
                p.key(&key);
                cx.op("blake2s, both implementations", || {
                    let mut s = p.to_state();
                    b::force_portable(&mut s);
                    (p.to_state().update(m).finalize(), s.update(m).finalize())
                })?
            } else {
                let mut p = blake2s_simd::blake2sp::Params::new();
                p.key(&key);
                cx.op("blake2sp, both implementations", || {
                    let mut s = p.to_state();
                    b::force_portable_blake2sp(&mut s);
                    (p.to_state().update(m).finalize(), s.update(m).finalize())
                })?
            };
            return cx.eq("forced portable (got) and default (want)", y.as_bytes(), x.as_bytes());
        }
        let l: Vec<Lane> = c[1..].chunks(5).map(lane).collect();
        if !available(c[0]) {
            return Ok(());
        }
        let h = cx.op(NAMES[c[0] as usize], || call(c[0], &l))?;
        for i in 0..l.len() {
            let mut w = l[i].h;
            refm::compress(&mut w, &l[i].m, l[i].t, l[i].lb != 0, l[i].ln != 0);
            let f = |h: &H| h.iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<u8>>();
            if h[i] != w {
                return cx.eq(&format!("lane {} chaining value", i), &f(&h[i]), &f(&w));
            }
            cx.traces += 1;
        }
        cx.outcome(&h[0].iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<u8>>());
        Ok(())
    }

    fn describe(&self, c: &[u64]) -> String {
        if c[0] >= 100 {
            return format!("{} {} forced portable, length {}", ["blake2s", "blake2sp"][(c[0] as usize - 100) / 2], if c[0] & 1 == 1 { "keyed" } else { "unkeyed" }, c[1]);
        }
        let l: Vec<String> = c[1..].chunks(5).map(|x| format!("(h {}, block {}, count {:#x}, last block {}, last node {})", p::kind_name(x[0]), p::kind_name(x[1]), x[2], x[3] != 0, x[4] != 0)).collect();
        format!("{} {}", NAMES[c[0] as usize], l.join(" "))
    }
}
