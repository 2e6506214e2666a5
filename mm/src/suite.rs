//! The cases: [group, ...]. Every one is run against the real code and compared with the reference.
use crate::bm;
use crate::refm::{self, RP};
use alloc::{format, string::String, vec, vec::Vec};
use blake2s_simd::{blake2s, blake2sp, finalize8, hash4_exact, hash8, hash8_exact, update8, Hash, Params, State};

type R = Result<(), String>;

/// Where expected values come from: the reference model, or a tape of what it answered in a native run of the same
/// cases (interpreting the reference model as well would take most of the time).
pub enum Tape {
    Compute,
    Record(Vec<u8>),
    Play(Vec<u8>, usize),
}

pub struct Cx {
    pub compared: u64,
    pub tape: Tape,
}
impl Cx {
    fn oracle(&mut self, f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
        match &mut self.tape {
            Tape::Compute => f(),
            Tape::Record(t) => {
                let v = f();
                t.push(v.len() as u8);
                t.extend_from_slice(&v);
                v
            }
            Tape::Play(t, p) => {
                let n = t[*p] as usize;
                let v = t[*p + 1..*p + 1 + n].to_vec();
                *p += 1 + n;
                v
            }
        }
    }
    fn hash(&mut self, r: &RP, m: &[u8]) -> Vec<u8> {
        self.oracle(|| r.hash(m))
    }
    fn sp(&mut self, out: u8, k: &[u8], m: &[u8]) -> Vec<u8> {
        self.oracle(|| refm::blake2sp(out, k, m))
    }
    fn eq(&mut self, what: &str, got: &[u8], want: &[u8]) -> R {
        self.compared += 1;
        if got == want {
            Ok(())
        } else {
            Err(format!("{}: got {:x?} want {:x?}", what, got, want))
        }
    }
    fn num(&mut self, what: &str, got: u64, want: u64) -> R {
        self.compared += 1;
        if got == want {
            Ok(())
        } else {
            Err(format!("{}: got {} want {}", what, got, want))
        }
    }
}

/// An exactly sized buffer of its own, so that an interpreter sees any access outside.
fn msg(seed: u32, n: u32) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E3779B9) ^ 0x1234567;
    let mut v = Vec::with_capacity(n as usize);
    for _ in 0..n {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        v.push((x >> 24) as u8);
    }
    v
}

fn set(r: &RP) -> Params {
    let d = RP::default();
    let mut p = Params::new();
    if r.out != d.out {
        p.hash_length(r.out as usize);
    }
    if !r.key.is_empty() {
        p.key(&r.key);
    }
    if !r.salt.is_empty() {
        p.salt(&r.salt);
    }
    if !r.personal.is_empty() {
        p.personal(&r.personal);
    }
    if r.fanout != 1 {
        p.fanout(r.fanout);
    }
    if r.depth != 1 {
        p.max_depth(r.depth);
    }
    if r.leaf != 0 {
        p.max_leaf_length(r.leaf);
    }
    if r.noff != 0 {
        p.node_offset(r.noff);
    }
    if r.ndepth != 0 {
        p.node_depth(r.ndepth);
    }
    if r.inner != 0 {
        p.inner_hash_length(r.inner as usize);
    }
    if r.last {
        p.last_node(true);
    }
    p
}

/// Bit i of the concatenated wide fields.
fn bit_params(i: u32) -> RP {
    let mut r = RP::default();
    match i {
        0..=7 => r.fanout ^= 1 << i,
        8..=15 => r.depth = (1 << (i - 8)) | 2,
        16..=47 => r.leaf = 1 << (i - 16),
        48..=95 => r.noff = 1 << (i - 48),
        96..=103 => r.ndepth = 1 << (i - 96),
        104..=135 => r.inner = (i - 103) as u8,
        136..=167 => r.out = (i - 135) as u8,
        168..=231 => {
            r.salt = vec![0; 8];
            r.salt[(i as usize - 168) / 8] = 1 << (i % 8);
        }
        232..=295 => {
            r.personal = vec![0; 8];
            r.personal[(i as usize - 232) / 8] = 1 << (i % 8);
        }
        296..=303 => r.salt = msg(5, i - 295),
        304..=311 => r.personal = msg(6, i - 303),
        312 => r.last = true,
        _ => {
            r = RP { out: 32, key: vec![255; 32], salt: vec![255; 8], personal: vec![255; 8], fanout: 255, depth: 255, leaf: !0, noff: (1 << 48) - 1, ndepth: 255, inner: 32, last: true };
            if i > 313 {
                r.noff = 0x0102_0304_0506;
                r.leaf = 0x0708_090a;
                r.salt = msg(1, 8);
                r.personal = msg(2, 8);
                r.key = msg(3, 17);
                r.out = 29;
            }
        }
    }
    r
}

fn sp_lens(level: u32) -> Vec<u32> {
    if level >= 2 {
        return (0..=2200).collect();
    }
    let mut v = vec![0, 1, 63, 64, 65, 128, 447, 448, 449, 511, 512, 513, 959, 960, 961, 1023, 1024, 1025, 1472, 1473, 1537];
    if level >= 1 {
        v.extend([2, 127, 129, 200, 575, 577, 700, 1000, 1087, 1088, 1089, 1471, 1535, 1536, 1600, 1984, 1985, 2047, 2048, 2049]);
    }
    v
}

/// Level 0: quick under an interpreter, 1: thorough under an interpreter, 2: native, 3: native thorough, 4: native, no long inputs.
fn cases(level: u32, f: &mut dyn FnMut(&[u32])) {
    let native = level >= 2;
    for n in 0..=if native { 1100 } else if level == 1 { 330 } else { 130 } {
        if level == 0 && n > 4 && n % 32 > 2 && n % 32 < 30 {
            continue;
        }
        f(&[0, 0, n]);
        f(&[0, 32, n]);
    }
    for n in [191, 192, 193, 255, 256, 257] {
        f(&[0, 0, n]);
        f(&[0, 7, n]);
    }
    for k in 0..=32 {
        for n in [0, 1, 64, 65] {
            if level > 0 || n == k || n == 64 {
                f(&[0, k, n]);
            }
        }
        if level > 0 || k % 16 < 2 {
            f(&[2, k, if native { 1025 } else { 129 }]);
        }
    }
    for i in 0..=314 {
        f(&[1, i, i % 3]);
    }
    for n in sp_lens(level) {
        f(&[2, 0, n]);
        f(&[2, 32, n]);
    }
    for o in 1..=32 {
        f(&[3, o]);
    }
    let cuts: Vec<u32> = if native { (0..=200).collect() } else { vec![0, 1, 63, 64, 65, 127, 128, 129] };
    for &a in &cuts {
        for &b in &cuts {
            if level == 0 && a + b > 200 {
                continue;
            }
            f(&[4, (a + b) % 3, a, b]);
        }
    }
    let cuts: Vec<u32> = if level == 0 { vec![1, 512, 513, 1024, 1025] } else if native { (0..=2048).step_by(32).flat_map(|x| [x, x + 1]).collect() } else { vec![0, 1, 63, 64, 448, 511, 512, 513, 960, 1023, 1024, 1025, 1472] };
    for &a in &cuts {
        for &b in &cuts {
            f(&[5, (a ^ b) & 1, a, b]);
        }
    }
    let lens: &[u32] = &[0, 1, 64, 65, 128, 129];
    for &a in lens {
        for &b in lens {
            for lane in 0..if native { 8 } else { 1 } {
                let l = if native { lane } else { (a + 3 * b) % 8 };
                if level == 0 && (a / 64 + b / 32) % 2 == 0 && a != b {
                    continue;
                }
                for k in [0, 1] {
                    f(&[6, k, a, b, l]);
                }
                f(&[7, 0, a, b, l]);
            }
        }
    }
    for b in 1..=if native { 20 } else { 3 } {
        for k in [0, 1, 32] {
            f(&[8, 4, k, b]);
            f(&[8, 8, k, b]);
        }
    }
    for i in (0..64).step_by(if level == 0 { 4 } else { 1 }) {
        f(&[9, i]);
    }
    for n in [1, 2, 31, 32] {
        f(&[10, n]);
    }
    if level == 2 || level == 3 {
        for j in 0..if level == 3 { 6 } else { 4 } {
            f(&[11, j]);
        }
    }
}

fn words(b: &[u8]) -> [u32; 8] {
    let mut w = [0u32; 8];
    for i in 0..8 {
        for j in 0..4 {
            w[i] |= (b[4 * i + j] as u32) << (8 * j);
        }
    }
    w
}
fn bytes(w: &[u32; 8]) -> Vec<u8> {
    let mut v = vec![];
    for x in w {
        for j in 0..4 {
            v.push((x >> (8 * j)) as u8);
        }
    }
    v
}

fn run(c: &[u32], cx: &mut Cx) -> R {
    match c[0] {
        0 => {
            let r = RP { key: msg(77, c[1]), ..RP::default() };
            let m = msg(c[2], c[2]);
            let want = cx.hash(&r, &m);
            if c[1] == 0 {
                cx.eq("blake2s", blake2s(&m).as_bytes(), &want)?;
            }
            let mut s = set(&r).to_state();
            cx.eq("digest", s.update(&m).finalize().as_bytes(), &want)?;
            #[cfg(feature = "std")]
            {
                use std::io::Write;
                let mut w = set(&r).to_state();
                cx.num("write", w.write(&m).map_err(|_| String::from("write failed"))? as u64, m.len() as u64)?;
                cx.eq("written", w.finalize().as_bytes(), &want)?;
            }
            cx.num("count", s.count(), c[2] as u64)
        }
        1 => {
            let r = bit_params(c[1]);
            let m = msg(9, c[2] * 64);
            let want = cx.hash(&r, &m);
            cx.eq("digest", set(&r).to_state().update(&m).finalize().as_bytes(), &want)
        }
        2 | 3 => {
            let (k, o, n) = if c[0] == 2 { (msg(78, c[1]), 32, c[2]) } else { (vec![], c[1], 600) };
            let m = msg(n, n);
            let want = cx.sp(o as u8, &k, &m);
            if c[0] == 2 && k.is_empty() {
                cx.eq("blake2sp", blake2sp::blake2sp(&m).as_bytes(), &want)?;
            }
            let mut p = blake2sp::Params::new();
            if o != 32 {
                p.hash_length(o as usize);
            }
            if !k.is_empty() {
                p.key(&k);
            }
            let mut s = p.to_state();
            cx.eq("digest", s.update(&m).finalize().as_bytes(), &want)?;
            cx.num("count", s.count(), n as u64)
        }
        4 => {
            let r = match c[1] {
                0 => RP::default(),
                1 => RP { key: msg(79, 32), ..RP::default() },
                _ => bit_params(314),
            };
            let (a, b) = (msg(80, c[2]), msg(81, c[3]));
            let mut s = set(&r).to_state();
            s.update(&a);
            let want = cx.hash(&r, &a);
            cx.eq("first", s.finalize().as_bytes(), &want)?;
            let mut t = s.clone();
            s.update(&b);
            let mut all = a.clone();
            all.extend_from_slice(&b);
            let want2 = cx.hash(&r, &all);
            cx.eq("second", s.finalize().as_bytes(), &want2)?;
            cx.eq("clone", t.finalize().as_bytes(), &want)?;
            cx.num("count", s.count(), all.len() as u64)
        }
        5 => {
            let k = if c[1] == 1 { msg(82, 32) } else { vec![] };
            let (a, b) = (msg(83, c[2]), msg(84, c[3]));
            let mut p = blake2sp::Params::new();
            p.key(&k);
            let mut s = p.to_state();
            s.update(&a);
            let want = cx.sp(32, &k, &a);
            cx.eq("first", s.finalize().as_bytes(), &want)?;
            s.update(&b);
            let mut all = a.clone();
            all.extend_from_slice(&b);
            let want = cx.sp(32, &k, &all);
            cx.eq("second", s.finalize().as_bytes(), &want)?;
            cx.num("count", s.count(), all.len() as u64)
        }
        6 => {
            // Lane c[4] gets b bytes, the others a; keyed ones have another first lane.
            let rp = |i: u32| if c[1] == 1 && i % 2 == 0 { bit_params(312 + i / 3) } else { RP::default() };
            let m: Vec<Vec<u8>> = (0..8).map(|i| msg(90 + i, if i == c[4] { c[3] } else { c[2] })).collect();
            let pre: Vec<Vec<u8>> = (0..8).map(|i| msg(60 + i, if c[1] == 1 { i * 11 } else { 0 })).collect();
            let mut st: Vec<State> = (0..8).map(|i| set(&rp(i)).to_state()).collect();
            for i in 0..8 {
                st[i].update(&pre[i]);
            }
            {
                let mut it = st.iter_mut();
                let mut n = || it.next().unwrap();
                update8(n(), n(), n(), n(), n(), n(), n(), n(), &m[0], &m[1], &m[2], &m[3], &m[4], &m[5], &m[6], &m[7]);
            }
            let h: [Hash; 8] = {
                let mut it = st.iter_mut();
                let mut n = || it.next().unwrap();
                finalize8(n(), n(), n(), n(), n(), n(), n(), n())
            };
            for i in 0..8 {
                let mut all = pre[i].clone();
                all.extend_from_slice(&m[i]);
                let want = cx.hash(&rp(i as u32), &all);
                cx.eq("finalize8", h[i].as_bytes(), &want)?;
                cx.eq("finalize", st[i].finalize().as_bytes(), &want)?;
                cx.num("count", st[i].count(), all.len() as u64)?;
            }
            Ok(())
        }
        7 => {
            let rp = |i: u32| if i == 5 { bit_params(312) } else { bit_params(48 + i) };
            let m: Vec<Vec<u8>> = (0..8).map(|i| msg(90 + i, if i == c[4] { c[3] } else { c[2] })).collect();
            let p: Vec<Params> = (0..8).map(|i| set(&rp(i))).collect();
            let h = hash8(&p[0], &p[1], &p[2], &p[3], &p[4], &p[5], &p[6], &p[7], &m[0], &m[1], &m[2], &m[3], &m[4], &m[5], &m[6], &m[7]);
            for i in 0..8 {
                let want = cx.hash(&rp(i as u32), &m[i]);
                cx.eq("hash8", h[i].as_bytes(), &want)?;
            }
            Ok(())
        }
        8 => {
            let r = RP { key: msg(99, c[2]), salt: msg(98, 5), ..RP::default() };
            let m: Vec<Vec<u8>> = (0..8).map(|i| msg(90 + i, c[3] * 64)).collect();
            let p = set(&r);
            let h = if c[1] == 4 {
                hash4_exact(&p, &m[0], &m[1], &m[2], &m[3]).to_vec()
            } else {
                hash8_exact(&p, &m[0], &m[1], &m[2], &m[3], &m[4], &m[5], &m[6], &m[7]).to_vec()
            };
            for i in 0..h.len() {
                let want = cx.hash(&r, &m[i]);
                cx.eq("exact", h[i].as_bytes(), &want)?;
            }
            Ok(())
        }
        9 => {
            // Compression with one count bit set per lane (or all but one).
            let blk: Vec<[u8; 64]> = (0..8)
                .map(|i| {
                    let mut b = [0; 64];
                    b.copy_from_slice(&msg(100 + i, 64));
                    b
                })
                .collect();
            let h0: Vec<[u32; 8]> = (0..8).map(|i| words(&msg(110 + i, 32))).collect();
            let cnt = |i: u64| {
                let b = 1u64 << ((c[1] as u64 + i) % 64);
                if i % 2 == 0 {
                    b
                } else {
                    !b
                }
            };
            let fl = |i: u32| ((c[1] >> (i % 3)) & 1 != 0, (c[1] >> ((i + 1) % 4)) & 1 != 0);
            let m = |b: bool| if b { !0u32 } else { 0 };
            let mut want = h0.clone();
            for i in 0..8 {
                want[i] = words(&cx.oracle(|| {
                    let mut h = h0[i];
                    refm::compress(&mut h, &blk[i], cnt(i as u64), fl(i as u32).0, fl(i as u32).1);
                    bytes(&h)
                }));
            }
            let mut h = h0[0];
            unsafe { bm::compress_portable(&mut h, &blk[0], cnt(0), m(fl(0).0), m(fl(0).1)) };
            cx.eq("compress_portable", &bytes(&h), &bytes(&want[0]))?;
            let mut hs = h0.clone();
            let lb: Vec<u32> = (0..8).map(|i| m(fl(i).0)).collect();
            let ln: Vec<u32> = (0..8).map(|i| m(fl(i).1)).collect();
            let mut it = hs.iter_mut();
            let mut n = || it.next().unwrap();
            unsafe { bm::compress8_portable(
                n(), n(), n(), n(), n(), n(), n(), n(), &blk[0], &blk[1], &blk[2], &blk[3], &blk[4], &blk[5], &blk[6], &blk[7],
                cnt(0), cnt(1), cnt(2), cnt(3), cnt(4), cnt(5), cnt(6), cnt(7),
                lb[0], lb[1], lb[2], lb[3], lb[4], lb[5], lb[6], lb[7], ln[0], ln[1], ln[2], ln[3], ln[4], ln[5], ln[6], ln[7],
            ) };
            for i in 0..8 {
                cx.eq("compress8_portable", &bytes(&hs[i]), &bytes(&want[i]))?;
            }
            Ok(())
        }
        10 => {
            let r = RP { out: c[1] as u8, ..RP::default() };
            let m = msg(7, 70);
            let want = cx.hash(&r, &m);
            let p = set(&r);
            let h = p.to_state().update(&m).finalize();
            let x: String = want.iter().map(|b| format!("{:02x}", b)).collect();
            cx.eq("hex", h.to_hex().as_bytes(), x.as_bytes())?;
            let d = format!("{:?} {:?}", h, p.to_state());
            cx.num("equal", (h == p.to_state().update(&m).finalize() && h == want[..] && !d.is_empty()) as u64, 1)?;
            let mut w = want.clone();
            w[0] ^= 128;
            cx.num("unequal", (h == w[..] || h == want[1..]) as u64, 0)
        }
        _ => big(c, cx),
    }
}

/// Beyond 4 GiB on a machine whose usize has 32 bits.
fn big(c: &[u32], cx: &mut Cx) -> R {
    let chunk = msg(5, 1 << 20);
    let total: u64 = if c[1] >= 4 { 1 << 33 } else { 1 << 32 };
    let p = total - (1 << 20);
    let key = if c[1] % 2 == 1 { msg(6, 32) } else { vec![] };
    let r = RP { key, ..RP::default() };
    if c[1] >= 2 && c[1] < 4 {
        // The total of a BLAKE2sp state passes 2^32.
        let mut q = blake2sp::Params::new();
        q.key(&r.key);
        let mut s = q.to_state();
        let mut n = 0u64;
        let mut ls: Vec<refm::RS> = (0..8).map(|i| refm::sp_leaf_params(32, &r.key, i).state()).collect();
        let mut step = |cx: &mut Cx, s: &mut blake2sp::State, k: usize, fin: bool| -> R {
            let at = (n % (1 << 20)) as usize;
            s.update(&chunk[at..at + k]);
            let mut a = at;
            while a < at + k {
                let e = (a / 64 * 64 + 64).min(at + k);
                ls[a / 64 % 8].absorb(&chunk[a..e]);
                a = e;
            }
            n += k as u64;
            cx.num("count", s.count(), n)?;
            if fin {
                let ds: Vec<Vec<u8>> = ls.iter().enumerate().map(|(i, s)| s.digest(32, i == 7)).collect();
                cx.eq("digest", s.finalize().as_bytes(), &refm::sp_root(32, r.key.len(), &ds))?;
            }
            Ok(())
        };
        for _ in 0..p >> 20 {
            step(cx, &mut s, 1 << 20, false)?;
        }
        step(cx, &mut s, (1 << 20) - 300, true)?;
        for _ in 0..100 {
            step(cx, &mut s, 3, true)?;
        }
        for k in [64, 512, 513, 1024, 1] {
            step(cx, &mut s, k, true)?;
        }
        return Ok(());
    }
    let mut s = set(&r).to_state();
    let mut f = r.state();
    for _ in 0..p >> 20 {
        s.update(&chunk);
        f.absorb(&chunk);
    }
    cx.num("count", s.count(), p)?;
    let head = (1 << 20) - 200;
    s.update(&chunk[..head]);
    f.absorb(&chunk[..head]);
    let tail = msg(8, 700);
    #[cfg(feature = "native32")]
    let m = crate::native32::mark();
    for a in (0..=400).step_by(1) {
        for b in [0usize, 1, 64, 129, 300] {
            let (mut x, mut y) = (s.clone(), f.clone());
            x.update(&tail[..a]);
            x.update(&tail[a..a + b]);
            y.absorb(&tail[..a + b]);
            cx.eq("digest", x.finalize().as_bytes(), &y.digest(32, false))?;
            cx.num("count", x.count(), total - 200 + (a + b) as u64)?;
            // The same through eight lanes, this one among fresh ones.
            if b == 1 && a % 8 == 0 {
                let mut st: Vec<State> = (0..8).map(|i| if i == a as usize / 8 % 8 { s.clone() } else { Params::new().to_state() }).collect();
                {
                    let t = &tail[..a + b];
                    let mut it = st.iter_mut();
                    let mut n = || it.next().unwrap();
                    update8(n(), n(), n(), n(), n(), n(), n(), n(), t, t, t, t, t, t, t, t);
                }
                let mut it = st.iter_mut();
                let mut n = || it.next().unwrap();
                let h = finalize8(n(), n(), n(), n(), n(), n(), n(), n());
                let plain = RP::default().hash(&tail[..a + b]);
                for i in 0..8 {
                    let w = if i == a as usize / 8 % 8 { y.digest(32, false) } else { plain.clone() };
                    cx.eq("finalize8", h[i].as_bytes(), &w)?;
                }
            }
            #[cfg(feature = "native32")]
            {
                drop((x, y));
                crate::native32::release(m);
            }
        }
    }
    Ok(())
}

pub fn main(level: u32, shard: u32, nshards: u32, only: &[u32], tape: &mut Tape) -> i32 {
    let mut cx = Cx { compared: 0, tape: core::mem::replace(tape, Tape::Compute) };
    let (mut states, mut i, mut bad) = (0u64, 0u32, 0);
    let mut all: Vec<Vec<u32>> = vec![];
    cases(level, &mut |c| {
        if only.is_empty() && i % nshards == shard || !only.is_empty() && c == only {
            all.push(c.to_vec());
        }
        i += 1;
    });
    #[cfg(feature = "native32")]
    let m = crate::native32::mark();
    for c in &all {
        crate::put(&format!("CASE {:?}\n", c));
        states += 1;
        if let Err(e) = run(c, &mut cx) {
            crate::put(&format!("FAIL {:?} {}\n", c, e));
            bad += 1;
            if bad >= 5 {
                break;
            }
        }
        #[cfg(feature = "native32")]
        crate::native32::release(m);
    }
    let compared = cx.compared;
    *tape = cx.tape;
    crate::put(&format!("DONE {} {} {}\n", states, compared, i));
    (bad > 0) as i32
}
