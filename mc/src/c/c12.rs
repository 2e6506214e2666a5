//! C12: inputs beyond 4 GiB. Case: [job]. Every job feeds a real instance to just below a point where a counter's
//! low word wraps, then enumerates continuations from there (or calls a one-shot function on a longer input).
//! The inputs are slices of a 32 GiB mapping that repeats the 2 MiB of data().
use crate::bm;
use crate::c::c07::{fin8, up8};
use crate::c::c08::h8;
use crate::c::c09::exact;
use crate::ctx::{data, Check, Cx};
use crate::refm::{self, RP, RS};
use blake2s_simd::{blake2s, blake2sp, Params, State};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::OnceLock;

pub struct C12;

const B: u64 = 1 << 32;
/// Reference snapshots lie here; the real states are taken this far too.
const P: u64 = B - 256;
const K: usize = 1500;
const STD: bool = cfg!(feature = "std");

pub fn region() -> &'static [u8] {
    static R: OnceLock<&'static [u8]> = OnceLock::new();
    R.get_or_init(|| unsafe {
        let d = data();
        let fd = libc::memfd_create(b"c12\0".as_ptr() as *const _, 0);
        assert!(fd >= 0 && libc::ftruncate(fd, d.len() as i64) == 0);
        assert!(libc::pwrite(fd, d.as_ptr() as *const _, d.len(), 0) == d.len() as isize);
        let n = (32usize << 30) / d.len() + 4;
        let len = n * d.len();
        let base = libc::mmap(std::ptr::null_mut(), len, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as *mut u8;
        assert!(base as isize != -1, "address space");
        for i in 0..n {
            let q = libc::mmap(base.add(i * d.len()) as *mut _, d.len(), libc::PROT_READ, libc::MAP_SHARED | libc::MAP_FIXED, fd, 0);
            assert!(q as isize != -1, "mapping");
        }
        std::slice::from_raw_parts(base, len)
    })
}

pub fn at(off: usize, from: u64, len: u64) -> &'static [u8] {
    &region()[off + from as usize..off + (from + len) as usize]
}

/// Start of lane i's stream in the region.
fn off(i: usize) -> usize {
    i * (131_072 + 65)
}

/// The reference compression, eight states at a time (h[word][lane]).
#[inline(always)]
fn ref8_body(h: &mut [[u32; 8]; 8], t: &mut u64, d: &[u8], offs: &[usize; 8], stride: usize, n: u64) {
    const S: [[usize; 16]; 10] = refm::SIGMA;
    type V = [u32; 8];
    #[inline(always)]
    fn add(a: &V, b: &V) -> V {
        std::array::from_fn(|i| a[i].wrapping_add(b[i]))
    }
    #[inline(always)]
    fn xr(a: &V, b: &V, r: u32) -> V {
        std::array::from_fn(|i| (a[i] ^ b[i]).rotate_right(r))
    }
    for k in 0..n as usize {
        let mut m = [[0u32; 8]; 16];
        for l in 0..8 {
            let q = &d[offs[l] + k * stride..][..64];
            for w in 0..16 {
                m[w][l] = u32::from_le_bytes([q[4 * w], q[4 * w + 1], q[4 * w + 2], q[4 * w + 3]]);
            }
        }
        *t += 64;
        let mut v = [[0u32; 8]; 16];
        for i in 0..8 {
            v[i] = h[i];
            v[i + 8] = [refm::IV[i]; 8];
        }
        for l in 0..8 {
            v[12][l] ^= *t as u32;
            v[13][l] ^= (*t >> 32) as u32;
        }
        for s in &S {
            for (i, &[a, b, c, e]) in refm::LANES.iter().enumerate() {
                v[a] = add(&add(&v[a], &v[b]), &m[s[2 * i]]);
                v[e] = xr(&v[e], &v[a], 16);
                v[c] = add(&v[c], &v[e]);
                v[b] = xr(&v[b], &v[c], 12);
                v[a] = add(&add(&v[a], &v[b]), &m[s[2 * i + 1]]);
                v[e] = xr(&v[e], &v[a], 8);
                v[c] = add(&v[c], &v[e]);
                v[b] = xr(&v[b], &v[c], 7);
            }
        }
        for i in 0..8 {
            for l in 0..8 {
                h[i][l] ^= v[i][l] ^ v[i + 8][l];
            }
        }
    }
}
#[target_feature(enable = "avx2")]
unsafe fn ref8_avx2(h: &mut [[u32; 8]; 8], t: &mut u64, d: &[u8], offs: &[usize; 8], stride: usize, n: u64) {
    ref8_body(h, t, d, offs, stride, n)
}
fn ref8(h: &mut [[u32; 8]; 8], t: &mut u64, d: &[u8], offs: &[usize; 8], stride: usize, n: u64) {
    if is_x86_feature_detected!("avx2") {
        unsafe { ref8_avx2(h, t, d, offs, stride, n) }
    } else {
        ref8_body(h, t, d, offs, stride, n)
    }
}

/// Eight reference states after n whole blocks each, none of them the last.
fn ref8_states(ps: &[RP; 8], offs: &[usize; 8], stride: usize, n: u64) -> Vec<RS> {
    let d = region();
    let start = || {
        let mut h = [[0u32; 8]; 8];
        let mut t = 0;
        for l in 0..8 {
            let mut s = ps[l].state();
            if s.pending.len() == 64 {
                let mut b = [0u8; 64];
                b.copy_from_slice(&s.pending);
                s.t += 64;
                refm::compress(&mut s.h, &b, s.t, false, false);
            }
            assert!(l == 0 || t == s.t);
            t = s.t;
            for w in 0..8 {
                h[w][l] = s.h[w];
            }
        }
        (h, t)
    };
    let out = |h: &[[u32; 8]; 8], t: u64| -> Vec<RS> { (0..8).map(|l| RS { h: std::array::from_fn(|w| h[w][l]), t, pending: vec![] }).collect() };
    // The eight-at-a-time loop against the plain reference, from the start and at the end.
    let scalar = |from: Vec<RS>, first: u64, n: u64| -> Vec<RS> {
        from.into_iter()
            .enumerate()
            .map(|(l, mut s)| {
                for k in first..first + n {
                    let mut b = [0u8; 64];
                    b.copy_from_slice(&d[offs[l] + k as usize * stride..][..64]);
                    s.t += 64;
                    refm::compress(&mut s.h, &b, s.t, false, false);
                }
                s
            })
            .collect()
    };
    let same = |a: &[RS], b: &[RS]| assert!(a.iter().zip(b).all(|(x, y)| x.h == y.h && x.t == y.t), "the eight-lane reference is wrong");
    let (mut h, mut t) = start();
    let c = 3000.min(n);
    let s0 = out(&h, t);
    ref8(&mut h, &mut t, d, offs, stride, c);
    same(&out(&h, t), &scalar(s0, 0, c));
    let adv: [usize; 8] = std::array::from_fn(|l| offs[l] + c as usize * stride);
    ref8(&mut h, &mut t, d, &adv, stride, n - c);
    let end = out(&h, t);
    let (mut h2, mut t2) = (h, t);
    let adv: [usize; 8] = std::array::from_fn(|l| offs[l] + n as usize * stride);
    ref8(&mut h2, &mut t2, d, &adv, stride, 40);
    same(&out(&h2, t2), &scalar(end.clone(), n, 40));
    end
}

fn key() -> Vec<u8> {
    (1..=32).map(|i| 255 - 7 * i as u8).collect()
}
fn keyed() -> RP {
    RP { key: key(), ..RP::default() }
}

/// Default parameters, eight streams, P bytes absorbed.
fn g1() -> &'static Vec<RS> {
    static G: OnceLock<Vec<RS>> = OnceLock::new();
    G.get_or_init(|| ref8_states(&std::array::from_fn(|_| RP::default()), &std::array::from_fn(off), 64, P / 64))
}
/// Keyed, stream 3, P bytes absorbed.
fn g2() -> &'static RS {
    static G: OnceLock<RS> = OnceLock::new();
    G.get_or_init(|| {
        let mut s = keyed().state();
        s.absorb(at(off(3), 0, P - 64));
        s.absorb(at(off(3), P - 64, 64));
        s
    })
}
/// BLAKE2sp leaves of stream 0 with P bytes each (8 P in total).
fn sp_leaves(k: bool) -> &'static Vec<RS> {
    static G: OnceLock<Vec<RS>> = OnceLock::new();
    static H: OnceLock<Vec<RS>> = OnceLock::new();
    let key = if k { key() } else { vec![] };
    (if k { &H } else { &G })
        .get_or_init(|| ref8_states(&std::array::from_fn(|i| refm::sp_leaf_params(32, &key, i)), &std::array::from_fn(|i| 64 * i), 512, P / 64))
}
/// Reference leaves advanced from 8 P to a later total.
struct SpRef {
    leaves: Vec<RS>,
    n: u64,
    keylen: usize,
}
impl SpRef {
    fn new(k: bool) -> SpRef {
        SpRef { leaves: sp_leaves(k).clone(), n: 8 * P, keylen: if k { 32 } else { 0 } }
    }
    fn to(&mut self, n: u64) -> Vec<u8> {
        assert!(n >= self.n && n >= 8 * P + 512);
        while self.n < n {
            let take = (64 - self.n % 64).min(n - self.n);
            self.leaves[(self.n / 64 % 8) as usize].absorb(at(0, self.n, take));
            self.n += take;
        }
        let ds: Vec<Vec<u8>> = self.leaves.iter().enumerate().map(|(i, s)| s.digest(32, i == 7)).collect();
        refm::sp_root(32, self.keylen, &ds)
    }
}

/// Digests of the stream's prefixes of `start`+k bytes, k in 1..=n, from the state at `start`.
fn table(s: &RS, off: usize, start: u64, n: usize, last: bool) -> Vec<Vec<u8>> {
    let mut s = s.clone();
    let mut t = vec![vec![]];
    for b in at(off, start, n as u64) {
        s.absorb(std::slice::from_ref(b));
        t.push(s.digest(32, last));
    }
    t
}

const JOBS: &[(&str, bool, bool)] = &[
    // name, quick tier with std, quick tier without std
    ("update8/finalize8", true, true),                          // 0
    ("hash8, different lengths", true, true),                   // 1
    ("hash8, equal lengths", true, false),                      // 2
    ("hash8_exact", true, true),                                // 3
    ("hash4_exact", true, true),                                // 4
    ("blake2sp::State", true, false),                           // 5
    ("blake2sp() one-shot", true, false),                       // 6
    ("State, default", true, true),                             // 7
    ("State, keyed", true, false),                              // 8
    ("State, portable", true, false),                           // 9
    ("State, one slice of 2^32 bytes", true, false),            // 10
    ("blake2s() one-shot", true, false),                        // 11
    ("blake2sp::State, keyed", false, false),                   // 12
    ("State to 2^33 and 2^34", false, false),                   // 13
    ("State::update8 with lanes far apart", false, false),      // 14
    ("hash8_exact, exactly 2^32", false, false),                // 15
    ("hash8 with one short lane", false, false),                // 16
    ("update8 with slices beyond 2^32", false, false),          // 17
];

fn list(th: bool) -> Vec<u64> {
    (0..JOBS.len() as u64).filter(|&j| th || if STD { JOBS[j as usize].1 } else { JOBS[j as usize].2 }).collect()
}

static NEXT: AtomicUsize = AtomicUsize::new(0);

/// Feed `to` bytes of a stream in a few large pieces, checking the count.
fn feed(cx: &mut Cx, s: &mut State, off: usize, from: u64, to: u64) -> Result<(), String> {
    let n = to - from;
    let mut cuts = vec![n / 2 + 13, n / 2 + 14, n / 2 + 14 + n / 4, n];
    if n < 1 << 20 {
        cuts = vec![n];
    }
    let mut d = 0;
    for c in cuts {
        cx.op("update", || {
            s.update(at(off, from + d, c - d));
        })?;
        d = c;
        count(cx, s.count(), from + d)?;
    }
    Ok(())
}

fn count(cx: &mut Cx, got: u64, want: u64) -> Result<(), String> {
    cx.traces += 1;
    if got == want {
        Ok(())
    } else {
        Err(format!("count() is {} after {} bytes", got, want))
    }
}

/// From a real state at P, all continuations of one or two updates.
fn tails(cx: &mut Cx, s: &State, off: usize, t: &[Vec<u8>], start: u64) -> Result<(), String> {
    for a in 1..=450usize {
        let mut x = s.clone();
        cx.states += 1;
        let h = cx.op("update, finalize", || x.update(at(off, start, a as u64)).finalize())?;
        cx.eq(&format!("digest of {} bytes", start + a as u64), h.as_bytes(), &t[a])?;
        count(cx, x.count(), start + a as u64)?;
        for b in [1usize, 2, 63, 64, 65, 127, 128, 129, 256, 700] {
            let mut y = x.clone();
            cx.states += 1;
            let h = cx.op("update, finalize", || y.update(at(off, start + a as u64, b as u64)).finalize())?;
            cx.eq(&format!("digest of {}+{} bytes", start + a as u64, b), h.as_bytes(), &t[a + b])?;
            count(cx, y.count(), start + (a + b) as u64)?;
        }
    }
    Ok(())
}

fn walk(cx: &mut Cx, mut s: State, off: usize, r: impl FnOnce() -> (&'static RS, bool)) -> Result<(), String> {
    feed(cx, &mut s, off, 0, P)?;
    let (rs, last) = r();
    let t = table(rs, off, P, K, last);
    tails(cx, &s, off, &t, P)
}

fn sp_walk(cx: &mut Cx, k: bool) -> Result<(), String> {
    let mut s = cx.op("Params::to_state", || {
        let mut p = blake2sp::Params::new();
        if k {
            p.key(&key());
        }
        p.to_state()
    })?;
    let mut n = 0u64;
    let mut step = |cx: &mut Cx, s: &mut blake2sp::State, to: u64| -> Result<u64, String> {
        cx.op("blake2sp::State::update", || {
            s.update(at(0, n, to - n));
        })?;
        n = to;
        cx.states += 1;
        count(cx, s.count(), n)?;
        Ok(n)
    };
    // The total itself passes 2^32 here, the leaves' counters at 2^35.
    for x in [B / 2 + 7, B - 700, B - 513, B - 1, B, B + 1, B + 63, B + 1000, 2 * B - 3, 2 * B + 5, 4 * B - 64, 4 * B + 1, 8 * P - 2000] {
        step(cx, &mut s, x)?;
    }
    let mut r = SpRef::new(k);
    let mut n = step(cx, &mut s, 8 * P + 512)?;
    let mut i = 0;
    while n < 8 * B + 3000 {
        let c = [1, 63, 64, 65, 7, 448, 512, 1, 960, 31][i % 10];
        i += 1;
        n = step(cx, &mut s, n + c)?;
        let h = cx.op("blake2sp::State::finalize", || s.finalize())?;
        let w = r.to(n);
        cx.eq(&format!("digest of {} bytes", n), h.as_bytes(), &w)?;
        let h = cx.op("blake2sp::State::finalize", || s.finalize())?;
        cx.eq(&format!("second digest of {} bytes", n), h.as_bytes(), &w)?;
    }
    Ok(())
}

fn job(j: u64, cx: &mut Cx) -> Result<(), String> {
    let p = Params::new();
    let lanes = |lens: &[u64; 8]| -> [&'static [u8]; 8] { std::array::from_fn(|i| at(off(i), 0, lens[i])) };
    let cmp = |cx: &mut Cx, h: &[blake2s_simd::Hash], lens: &[u64]| -> Result<(), String> {
        for i in 0..h.len() {
            let w = if lens[i] > P {
                let mut s = g1()[i].clone();
                s.absorb(at(off(i), P, lens[i] - P));
                s.digest(32, false)
            } else {
                RP::default().hash(at(off(i), 0, lens[i]))
            };
            cx.states += 1;
            cx.eq(&format!("lane {} of {} bytes", i, lens[i]), h[i].as_bytes(), &w)?;
        }
        Ok(())
    };
    let h8case = |cx: &mut Cx, lens: [u64; 8]| -> Result<(), String> {
        let ps: Vec<Params> = (0..8).map(|_| Params::new()).collect();
        let ins = lanes(&lens);
        let h = cx.op("hash8", || h8(&ps, &ins))?;
        cmp(cx, &h, &lens)
    };
    match j {
        0 => {
            let mut st: Vec<State> = (0..8).map(|_| p.to_state()).collect();
            let kp = {
                let mut q = Params::new();
                q.key(&key());
                q
            };
            st[3] = kp.to_state();
            bm::force_portable(&mut st[6]);
            // Lane i's pending bytes and count differ from its neighbours'.
            let at0: [u64; 8] = std::array::from_fn(|i| P + 17 * i as u64);
            for i in 0..8 {
                let n = 40 * i as u64;
                feed(cx, &mut st[i], off(i), 0, n)?;
            }
            let ins: [&[u8]; 8] = std::array::from_fn(|i| at(off(i), 40 * i as u64, at0[i] - 40 * i as u64));
            cx.op("update8", || up8(&mut st, &ins))?;
            for i in 0..8 {
                count(cx, st[i].count(), at0[i])?;
            }
            let t: Vec<Vec<Vec<u8>>> = (0..8).map(|i| if i == 3 { table(g2(), off(3), P, K, false) } else { table(&g1()[i], off(i), P, K, i == 5) }).collect();
            st[5].set_last_node(true);
            for a in 1..=330u64 {
                for d in [0u64, 1, 64] {
                    let mut x = st.clone();
                    let len: [u64; 8] = std::array::from_fn(|i| a + d * i as u64);
                    let ins: [&[u8]; 8] = std::array::from_fn(|i| at(off(i), at0[i], len[i]));
                    cx.states += 1;
                    cx.op("update8", || up8(&mut x, &ins))?;
                    let h = cx.op("finalize8", || fin8(&mut x))?;
                    for i in 0..8 {
                        let k = (at0[i] - P + len[i]) as usize;
                        cx.eq(&format!("finalize8 lane {} after {} bytes", i, P + k as u64), h[i].as_bytes(), &t[i][k])?;
                        let g = cx.op("finalize", || x[i].finalize())?;
                        cx.eq(&format!("finalize lane {} after {} bytes", i, P + k as u64), g.as_bytes(), &t[i][k])?;
                        count(cx, x[i].count(), P + k as u64)?;
                    }
                }
            }
            Ok(())
        }
        1 => h8case(cx, std::array::from_fn(|i| B + 128 + [0, 1, 64, 65, 0, 128, 63, 200][i])),
        2 => h8case(cx, [B + 64; 8]),
        3 | 15 => {
            let n = if j == 3 { B + 64 } else { B };
            let ins = lanes(&[n; 8]);
            let h = cx.op("hash8_exact", || exact(8, &p, &ins))?;
            cmp(cx, &h, &[n; 8])
        }
        4 => {
            let n = B + 64;
            let ins = lanes(&[n; 8]);
            let h = cx.op("hash4_exact", || exact(4, &p, &ins[..4]))?;
            cmp(cx, &h, &[n; 4])
        }
        5 => sp_walk(cx, false),
        12 => sp_walk(cx, true),
        6 => {
            let n = 8 * B + 300;
            let h = cx.op("blake2sp", || blake2sp::blake2sp(at(0, 0, n)))?;
            let w = SpRef::new(false).to(n);
            cx.states += 1;
            cx.eq(&format!("digest of {} bytes", n), h.as_bytes(), &w)
        }
        7 => walk(cx, p.to_state(), off(0), || (&g1()[0], false)),
        8 => {
            let mut q = Params::new();
            q.key(&key());
            walk(cx, q.to_state(), off(3), || (g2(), false))
        }
        9 => {
            let mut s = p.to_state();
            bm::force_portable(&mut s);
            s.set_last_node(true);
            walk(cx, s, off(1), || (&g1()[1], true))
        }
        10 => {
            let mut s = p.to_state();
            cx.op("update", || {
                s.update(at(off(2), 0, B));
            })?;
            count(cx, s.count(), B)?;
            let t = table(&g1()[2], off(2), P, K, false);
            let h = cx.op("finalize", || s.finalize())?;
            cx.states += 1;
            cx.eq("digest of 2^32 bytes", h.as_bytes(), &t[256])?;
            tails(cx, &s, off(2), &t[256..], B)
        }
        11 => {
            let n = B + 65;
            let h = cx.op("blake2s", || blake2s(at(off(4), 0, n)))?;
            let mut s = g1()[4].clone();
            s.absorb(at(off(4), P, n - P));
            cx.states += 1;
            cx.eq(&format!("digest of {} bytes", n), h.as_bytes(), &s.digest(32, false))
        }
        13 => {
            let mut s = p.to_state();
            let mut r = g1()[5].clone();
            let mut n = P;
            feed(cx, &mut s, off(5), 0, P)?;
            for m in [2 * B - 256, 4 * B - 256] {
                feed(cx, &mut s, off(5), n, m)?;
                r.absorb(at(off(5), n, m - n));
                let t = table(&r, off(5), m, K, false);
                tails(cx, &s, off(5), &t, m)?;
                n = m;
            }
            Ok(())
        }
        14 => {
            // Half of the lanes beyond 2^32 before the parallel updates, the others at the start.
            let mut st: Vec<State> = (0..8).map(|_| p.to_state()).collect();
            for i in [1, 4, 6] {
                feed(cx, &mut st[i], off(i), 0, P)?;
            }
            for a in 1..=450u64 {
                let mut x = st.clone();
                let ins: [&[u8]; 8] = std::array::from_fn(|i| at(off(i), if st[i].count() > 0 { P } else { 0 }, a + i as u64));
                cx.states += 1;
                cx.op("update8", || up8(&mut x, &ins))?;
                let h = cx.op("finalize8", || fin8(&mut x))?;
                let lens: [u64; 8] = std::array::from_fn(|i| if st[i].count() > 0 { P } else { 0 } + a + i as u64);
                cmp(cx, &h, &lens)?;
            }
            Ok(())
        }
        16 => h8case(cx, [B + 130, B + 1, 10, B + 65, B + 64, B + 2, B + 190, B]),
        17 => {
            let mut st: Vec<State> = (0..8).map(|_| p.to_state()).collect();
            let lens: [u64; 8] = std::array::from_fn(|i| B + 321 - 40 * i as u64);
            let ins = lanes(&lens);
            cx.op("update8", || up8(&mut st, &ins))?;
            let h = cx.op("finalize8", || fin8(&mut st))?;
            cmp(cx, &h, &lens)?;
            for i in 0..8 {
                count(cx, st[i].count(), lens[i])?;
            }
            Ok(())
        }
        _ => Err("no such job".into()),
    }
}

impl Check for C12 {
    fn enumerate(&self, th: bool, emit: &mut dyn FnMut(&[u64]) -> bool) {
        for j in list(th) {
            if !emit(&[j]) {
                return;
            }
        }
    }
    fn run(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        job(c[0], cx)
    }
    fn explore(&self, cx: &mut Cx) {
        let l = list(cx.thorough);
        region();
        loop {
            // The first three turns compute the reference snapshots.
            let i = match NEXT.fetch_add(1, Relaxed) {
                0 => {
                    g1();
                    continue;
                }
                1 => {
                    if l.contains(&5) {
                        sp_leaves(false);
                    }
                    continue;
                }
                2 => {
                    g2();
                    continue;
                }
                i => i - 3,
            };
            if i >= l.len() || cx.stopped() {
                return;
            }
            let c = [l[i]];
            cx.set_case(&c);
            cx.samples.push(self.describe(&c));
            let t = std::time::Instant::now();
            if let Err(m) = crate::ctx::guarded(self, &c, cx) {
                let m = format!("{}: {}", self.describe(&c), m);
                cx.violation(&c, m);
            }
            cx.note(&format!("ms: {}", self.describe(&c)), t.elapsed().as_millis() as u64);
        }
    }
    fn describe(&self, c: &[u64]) -> String {
        JOBS[c[0] as usize].0.to_string()
    }
    fn call_limit(&self) -> u64 {
        780
    }
}
