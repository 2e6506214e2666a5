//! C13: memory placement. Inputs lie in read-only memory flush against inaccessible pages (or at a chosen
//! alignment), states and chaining values in writable memory between inaccessible pages with canaries around them.
//! Case: [op, place, align, len, variant].
//! place: 0 inputs end at an inaccessible page, 1 inputs begin after one, 2 start at `align` bytes past a 64-byte boundary.
//! variant: lanes: 0 separate buffers, 1 identical slices, 2 overlapping slices, 3 on separate buffers of different
//! lengths (see `lane_len`); states: placement number.
use crate::bm::{self, AlignedWords8};
use crate::c::c07::{fin8, up8};
use crate::c::c08::h8;
use crate::c::c09::exact;
use crate::c::c10;
use crate::ctx::{data, Check, Cx};
use crate::refm::{self, RP};
use blake2s_simd::{blake2s, blake2sp, Params, State};
use std::cell::OnceCell;
use std::mem::{align_of, size_of};

pub struct C13;

const PG: usize = 4096;
const RO: usize = 3 * PG;
const RW: usize = 4 * PG;

pub struct Arena {
    pub ro: Vec<*mut u8>, // nine read-only buffers of RO bytes
    pub rw: Vec<*mut u8>, // ten writable buffers of RW bytes
}

fn guarded(len: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), len + 2 * PG, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
        assert!(p as isize != -1);
        assert!(libc::mprotect(p.add(PG) as *mut _, len, libc::PROT_READ | libc::PROT_WRITE) == 0);
        p.add(PG)
    }
}

thread_local! {
    static ARENA: OnceCell<Arena> = const { OnceCell::new() };
}

fn with<R>(f: impl FnOnce(&Arena) -> R) -> R {
    ARENA.with(|a| {
        f(a.get_or_init(|| {
            let ro = (0..9)
                .map(|i| unsafe {
                    let p = guarded(RO);
                    std::ptr::copy_nonoverlapping(data()[i * 30_000..].as_ptr(), p, RO);
                    assert!(libc::mprotect(p as *mut _, RO, libc::PROT_READ) == 0);
                    p as *mut u8
                })
                .collect();
            Arena { ro, rw: (0..10).map(|_| guarded(RW)).collect() }
        }))
    })
}

/// The length of lane i in a case of length n: the same for all lanes, or (variants 3 on) one lane or every lane shorter.
fn lane_len(n: usize, variant: u64, i: usize) -> usize {
    let k = (variant % 8) as usize;
    match variant {
        0..=2 => n,
        3 => n.saturating_sub(13 * i),
        4 => n.saturating_sub(64 * (7 - i)),
        8..=15 if i == k => n / 2,
        16..=23 if i == k => 0,
        24..=31 if i == k => n.saturating_sub(1),
        32..=39 if i == k => n.saturating_sub(64),
        _ => n,
    }
}

impl Arena {
    /// The input slice of a lane.
    fn input(&self, lane: usize, place: u64, align: u64, len: usize, variant: u64) -> &'static [u8] {
        let (buf, shift) = match variant {
            1 => (0, 0),
            2 => (0, lane),
            _ => (lane, 0),
        };
        let len = lane_len(len, variant, lane);
        let o = match place {
            0 => RO - len - shift,
            1 => shift,
            _ => 64 + align as usize + shift,
        };
        unsafe { std::slice::from_raw_parts(self.ro[buf].add(o), len) }
    }
    /// Put a value into writable memory: place 0 flush with the end, 1 flush with the start, 2.. at multiples of its alignment.
    fn put<T>(&self, slot: usize, place: u64, align: u64, v: T) -> Placed<T> {
        let a = align_of::<T>();
        assert!(size_of::<T>() % a == 0 && size_of::<T>() + 512 <= RW);
        let o = match place {
            0 => RW - size_of::<T>(),
            1 => 0,
            _ => 128 + a * align as usize,
        };
        unsafe {
            let base = self.rw[slot];
            std::ptr::write_bytes(base, 0xA7, RW);
            let p = base.add(o) as *mut T;
            std::ptr::write(p, v);
            Placed { base, o, p }
        }
    }
}

struct Placed<T> {
    base: *mut u8,
    o: usize,
    p: *mut T,
}
impl<T> Placed<T> {
    fn get(&mut self) -> &'static mut T {
        unsafe { &mut *self.p }
    }
    fn canary(&self) -> Result<(), String> {
        let all = unsafe { std::slice::from_raw_parts(self.base, RW) };
        for i in (0..self.o).chain(self.o + size_of::<T>()..RW) {
            if all[i] != 0xA7 {
                return Err(format!("wrote {} bytes from the start of an object of {} bytes", i as isize - self.o as isize, size_of::<T>()));
            }
        }
        Ok(())
    }
}

const OPS: [&str; 16] = [
    "blake2s", "blake2sp", "State::update x2", "update8/finalize8", "hash8", "hash4_exact", "hash8_exact", "key", "salt", "personal", "Hash == slice", "io::Write",
    "State placement", "blake2sp::State placement", "compression functions", "update8 state placement",
];

impl Check for C13 {
    fn enumerate(&self, th: bool, emit: &mut dyn FnMut(&[u64]) -> bool) {
        // (place, align) pairs: flush at both ends, and all 64 alignments.
        let places: Vec<(u64, u64)> = [(0, 0), (1, 0)].into_iter().chain((0..64).map(|a| (2, a))).collect();
        let some: Vec<(u64, u64)> = [(0, 0), (1, 0)].into_iter().chain([1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 48, 63].map(|a| (2, a))).collect();
        let flush = [(0u64, 0u64), (1, 0)];
        let top: u64 = if th { 4096 } else { 1700 };
        for op in [0, 1, 2, 11] {
            for n in 0..=top {
                for &(p, a) in if n <= 330 || th { &places[..] } else { &flush[..] } {
                    if !emit(&[op, p, a, n, 0]) {
                        return;
                    }
                }
            }
        }
        // Longer inputs, flush against a page, around every block boundary.
        for op in [0, 1, 2, 11] {
            for n in (top + 1..=RO as u64 - 1).filter(|n| [0, 1, 63].contains(&(n % 64))) {
                for &(p, a) in &flush {
                    if !emit(&[op, p, a, n, 0]) {
                        return;
                    }
                }
            }
        }
        // Lanes of different lengths.
        for op in [3, 4, 15] {
            for n in (0..=if th { 4300u64 } else { 330 }).filter(|n| th || *n < 70 || n % 64 < 2 || n % 64 == 63).chain((1024..1100).step_by(25)).chain([2047, 2048, 2049, 4095, 4096, 4097]) {
                for v in [3, 4].into_iter().chain(8..40) {
                    for &(p, a) in &flush {
                        if !emit(&[op, p, a, n, v]) {
                            return;
                        }
                    }
                }
            }
        }
        for op in [3, 4] {
            for n in 0..=if th { 1100 } else { 420 } {
                for v in 0..3 {
                    for &(p, a) in if n % 64 < 2 || n % 64 == 63 || th { &places[..] } else { &flush[..] } {
                        if !emit(&[op, p, a, n, v]) {
                            return;
                        }
                    }
                }
            }
        }
        for op in [5, 6] {
            for b in 1..=if th { 60 } else { 17 } {
                for v in 0..3 {
                    for &(p, a) in &places {
                        if !emit(&[op, p, a, 64 * b, v]) {
                            return;
                        }
                    }
                }
            }
        }
        for (op, m) in [(7, 32), (8, 8), (9, 8), (10, 40)] {
            for n in 0..=m {
                for &(p, a) in &places {
                    for v in 0..2 {
                        if !emit(&[op, p, a, n, v]) {
                            return;
                        }
                    }
                }
            }
        }
        for op in [12, 13] {
            for &(p, a) in &places {
                for n in [0, 1, 63, 64, 65, 127, 128, 129, 200, 448, 449, 511, 512, 513, 960, 961, 1023, 1024, 1025, 1473, 1537, 2100] {
                    for v in 0..4 {
                        if !emit(&[op, p, a, n, v]) {
                            return;
                        }
                    }
                }
            }
        }
        for f in 0..7 {
            for &(p, a) in &places {
                for &(q, b) in &some {
                    if !emit(&[14, p, a, f, q << 8 | b]) {
                        return;
                    }
                }
            }
        }
        for &(p, a) in &places {
            for n in [0, 1, 64, 65, 128, 129, 200] {
                for v in 0..3 {
                    if !emit(&[15, p, a, n, v]) {
                        return;
                    }
                }
            }
        }
    }

    fn run(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        let (place, align, n, var) = (c[1], c[2], c[3] as usize, c[4]);
        let d = RP::default();
        with(|ar| {
            let lanes = |k: usize| -> Vec<&'static [u8]> { (0..k).map(|i| ar.input(i, place, align, n, var)).collect() };
            let arr = || {
                let mut r: [&'static [u8]; 8] = [&[]; 8];
                r.copy_from_slice(&lanes(8));
                r
            };
            match c[0] {
                0 => {
                    let m = lanes(1)[0];
                    let h = cx.op("blake2s", || blake2s(m))?;
                    cx.eq("digest", h.as_bytes(), &d.hash(m))
                }
                1 => {
                    let m = lanes(1)[0];
                    let h = cx.op("blake2sp", || blake2sp::blake2sp(m))?;
                    cx.eq("digest", h.as_bytes(), &refm::blake2sp(32, &[], m))
                }
                2 => {
                    let m = lanes(1)[0];
                    for k in [1, n / 2, n.saturating_sub(64)] {
                        let (x, y) = m.split_at(k.min(n));
                        let h = cx.op("update, update", || State::new().update(x).update(y).finalize())?;
                        cx.eq("digest", h.as_bytes(), &d.hash(m))?;
                        let h = cx.op("blake2sp update, update", || blake2sp::State::new().update(x).update(y).finalize())?;
                        cx.eq("blake2sp digest", h.as_bytes(), &refm::blake2sp(32, &[], m))?;
                    }
                    Ok(())
                }
                3 => {
                    let ins = arr();
                    let h = cx.op("update8", || {
                        let mut s: Vec<State> = (0..8).map(|_| State::new()).collect();
                        up8(&mut s, &ins);
                        up8(&mut s, &ins);
                        fin8(&mut s)
                    })?;
                    for i in 0..8 {
                        let mut m = ins[i].to_vec();
                        m.extend_from_slice(ins[i]);
                        cx.eq("digest", h[i].as_bytes(), &d.hash(&m))?;
                    }
                    Ok(())
                }
                4 => {
                    let ins = arr();
                    let p: Vec<Params> = (0..8).map(|_| Params::new()).collect();
                    let h = cx.op("hash8", || h8(&p, &ins))?;
                    for i in 0..8 {
                        cx.eq("digest", h[i].as_bytes(), &d.hash(ins[i]))?;
                    }
                    Ok(())
                }
                5 | 6 => {
                    let w = if c[0] == 5 { 4 } else { 8 };
                    let ins = lanes(w);
                    let h = cx.op("hash_exact", || exact(w, &Params::new(), &ins))?;
                    for i in 0..w {
                        cx.eq("digest", h[i].as_bytes(), &d.hash(ins[i]))?;
                    }
                    Ok(())
                }
                7..=9 => {
                    let k = ar.input(0, place, align, n, 0);
                    let mut r = RP::default();
                    match c[0] {
                        7 => r.key = k.to_vec(),
                        8 => r.salt = k.to_vec(),
                        _ => r.personal = k.to_vec(),
                    }
                    if c[0] == 7 && var == 1 {
                        let h = cx.op("blake2sp key", || blake2sp::Params::new().key(k).to_state().update(b"x").finalize())?;
                        return cx.eq("digest", h.as_bytes(), &refm::blake2sp(32, k, b"x"));
                    }
                    let h = cx.op("parameter", || {
                        let mut p = Params::new();
                        match c[0] {
                            7 => p.key(k),
                            8 => p.salt(k),
                            _ => p.personal(k),
                        };
                        p.to_state().update(b"x").finalize()
                    })?;
                    cx.eq("digest", h.as_bytes(), &r.hash(b"x"))
                }
                10 => {
                    let s = ar.input(0, place, align, n, 0);
                    let out = if var == 1 { 32 } else { n.clamp(1, 32) };
                    let h = ar.put(0, place.min(2), align, Params::new().hash_length(out).to_state().finalize()).get();
                    let r = cx.op("Hash == [u8]", || *h == *s)?;
                    cx.traces += 1;
                    if r != (h.as_bytes() == s) {
                        return Err("wrong comparison".into());
                    }
                    Ok(())
                }
                11 => {
                    let m = lanes(1)[0];
                    let h = cx.op("write", || {
                        let (mut s, mut t) = (State::new(), blake2sp::State::new());
                        #[cfg(feature = "std")]
                        {
                            use std::io::Write;
                            s.write_all(m).expect("write_all");
                            t.write_all(m).expect("write_all");
                        }
                        #[cfg(not(feature = "std"))]
                        {
                            s.update(m);
                            t.update(m);
                        }
                        (s.finalize(), t.finalize())
                    })?;
                    cx.eq("digest", h.0.as_bytes(), &d.hash(m))?;
                    cx.eq("digest", h.1.as_bytes(), &refm::blake2sp(32, &[], m))
                }
                12 | 13 => {
                    let m = &data()[..n];
                    let key = if var & 1 == 1 { crate::p::bytes(0, 32) } else { vec![] };
                    let k = n / 3;
                    if c[0] == 12 {
                        let mut s = Params::new();
                        s.key(&key);
                        let mut s = s.to_state();
                        if var & 2 == 2 {
                            bm::force_portable(&mut s);
                        }
                        let mut pl = ar.put(0, place, align % 16, s);
                        let s = pl.get();
                        let h = cx.op("update, finalize", || {
                            s.update(&m[..k]).finalize();
                            s.update(&m[k..]).finalize()
                        })?;
                        cx.eq("digest", h.as_bytes(), &RP { key, ..RP::default() }.hash(m))?;
                        pl.canary()
                    } else {
                        let mut s = blake2sp::Params::new();
                        s.key(&key);
                        let mut s = s.to_state();
                        if var & 2 == 2 {
                            bm::force_portable_blake2sp(&mut s);
                        }
                        let mut pl = ar.put(0, place, align % 16, s);
                        let s = pl.get();
                        let h = cx.op("update, finalize", || {
                            s.update(&m[..k]).finalize();
                            s.update(&m[k..]).finalize()
                        })?;
                        cx.eq("digest", h.as_bytes(), &refm::blake2sp(32, &key, m))?;
                        pl.canary()
                    }
                }
                14 => self.compression(ar, c, cx),
                _ => {
                    let mut pl: Vec<Placed<State>> = (0..8).map(|i| ar.put(i, place, (align + i as u64) % 16, State::new())).collect();
                    let ins: Vec<&'static [u8]> = (0..8).map(|i| ar.input(i, if var < 3 { 0 } else { place }, 0, n, var)).collect();
                    let mut it = pl.iter_mut().map(|p| p.get());
                    let mut nx = || it.next().unwrap();
                    let (a, b, e, f, g, h, i, j) = (nx(), nx(), nx(), nx(), nx(), nx(), nx(), nx());
                    let r = cx.op("update8, finalize8", || {
                        blake2s_simd::update8(a, b, e, f, g, h, i, j, ins[0], ins[1], ins[2], ins[3], ins[4], ins[5], ins[6], ins[7]);
                        blake2s_simd::finalize8(a, b, e, f, g, h, i, j)
                    })?;
                    for i in 0..8 {
                        cx.eq("digest", r[i].as_bytes(), &d.hash(ins[i]))?;
                        pl[i].canary()?;
                    }
                    Ok(())
                }
            }
        })
    }

    fn describe(&self, c: &[u64]) -> String {
        let pl = match c[1] {
            0 => "ending at an inaccessible page".to_string(),
            1 => "starting after an inaccessible page".to_string(),
            _ => format!("at alignment offset {}", c[2]),
        };
        format!("{} {}, length/function {}, variant {}", OPS[c[0] as usize], pl, c[3], c[4])
    }
}

impl C13 {
    /// Blocks read-only at any alignment, chaining values (4-byte aligned) or vectors (32-byte aligned) between canaries.
    fn compression(&self, ar: &Arena, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        let (place, align, f) = (c[1], c[2], c[3]);
        let (q, qa) = (c[4] >> 8, c[4] & 255);
        if !c10::available(f) || f == 4 {
            return Ok(());
        }
        let nl = match f {
            0 | 1 => 1,
            _ => 8,
        };
        let blk: Vec<&'static [u8; 64]> = (0..nl).map(|i| <&[u8; 64]>::try_from(ar.input(i, place, align, 64, 0)).unwrap()).collect();
        let h0 = |i: usize| {
            let mut h = RP::default().h0();
            h[0] ^= i as u32;
            h
        };
        let want = |i: usize| {
            let mut h = h0(i);
            refm::compress(&mut h, blk[i], 64 + i as u64, i % 2 == 1, i % 3 == 0);
            h
        };
        let (lb, ln) = (|i: usize| if i % 2 == 1 { !0u32 } else { 0 }, |i: usize| if i % 3 == 0 { !0u32 } else { 0 });
        let bytes = |h: &[u32; 8]| h.iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<u8>>();
        if f <= 3 {
            let mut pl: Vec<Placed<[u32; 8]>> = (0..nl).map(|i| ar.put(i, q, (qa + i as u64) % 64, h0(i))).collect();
            let mut it = pl.iter_mut().map(|p| p.get());
            if f <= 1 {
                let h = it.next().unwrap();
                let g = if f == 0 { bm::compress_portable } else { bm::compress_sse41 };
                cx.op("compress", || unsafe { g(h, blk[0], 64, lb(0), ln(0)) })?;
            } else {
                let mut nx = || it.next().unwrap();
                let (a, b, d, e, k, l, m, n) = (nx(), nx(), nx(), nx(), nx(), nx(), nx(), nx());
                let g = if f == 2 { bm::compress8_portable } else { bm::compress8_avx2 };
                cx.op("compress8", || unsafe {
                    g(
                        a, b, d, e, k, l, m, n, blk[0], blk[1], blk[2], blk[3], blk[4], blk[5], blk[6], blk[7], 64, 65, 66, 67, 68, 69, 70, 71, lb(0), lb(1), lb(2),
                        lb(3), lb(4), lb(5), lb(6), lb(7), ln(0), ln(1), ln(2), ln(3), ln(4), ln(5), ln(6), ln(7),
                    )
                })?;
            }
            for i in 0..nl {
                cx.eq("chaining value", &bytes(pl[i].get()), &bytes(&want(i)))?;
                pl[i].canary()?;
            }
            return Ok(());
        }
        let mut hv = [AlignedWords8([0; 8]); 8];
        let mut w = [AlignedWords8([0; 8]); 4];
        for i in 0..8 {
            for j in 0..8 {
                hv[j].0[i] = h0(i)[j];
            }
            w[0].0[i] = 64 + i as u32;
            w[2].0[i] = lb(i);
            w[3].0[i] = ln(i);
        }
        let mut ph = ar.put(0, q, qa % 8, hv);
        let h = ph.get();
        if f == 5 {
            // By-value vectors; the 16 message vectors flush in memory of their own.
            let mut mv = [AlignedWords8([0; 8]); 16];
            for j in 0..16 {
                for i in 0..8 {
                    mv[j].0[i] = u32::from_le_bytes([blk[i][4 * j], blk[i][4 * j + 1], blk[i][4 * j + 2], blk[i][4 * j + 3]]);
                }
            }
            let mut pm = ar.put(1, place, align % 8, mv);
            let m = pm.get();
            cx.op("compress8_transposed_all", || unsafe { all(h, m, &w) })?;
            pm.canary()?;
        } else {
            let mut pw: Vec<Placed<AlignedWords8>> = (0..4).map(|i| ar.put(2 + i, place, align % 8, w[i])).collect();
            let (a, b, d, e) = (pw[0].get(), pw[1].get(), pw[2].get(), pw[3].get());
            cx.op("compress8_vectorized", || unsafe { bm::compress8_vectorized_avx2(h, blk[0], blk[1], blk[2], blk[3], blk[4], blk[5], blk[6], blk[7], a, b, d, e) })?;
            for p in &pw {
                p.canary()?;
            }
        }
        ph.canary()?;
        for i in 0..8 {
            let mut g = [0u32; 8];
            for j in 0..8 {
                g[j] = ph.get()[j].0[i];
            }
            cx.eq("chaining value", &bytes(&g), &bytes(&want(i)))?;
        }
        Ok(())
    }
}

#[target_feature(enable = "avx2")]
unsafe fn all(h: &mut [AlignedWords8; 8], m: &[AlignedWords8; 16], w: &[AlignedWords8; 4]) {
    use std::arch::x86_64::__m256i;
    let v = |a: &AlignedWords8| *(a as *const AlignedWords8 as *const __m256i);
    bm::compress8_transposed_all_avx2(&mut *(h as *mut _ as *mut [__m256i; 8]), &*(m as *const _ as *const [__m256i; 16]), v(&w[0]), v(&w[1]), v(&w[2]), v(&w[3]));
}
