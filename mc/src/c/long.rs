//! Long histories, shared by several properties: one large input per call (lengths around powers of two, up to 2^22
//! and once 2^26), and very many calls (more than 2^16) on one instance. Case: [90, family, variant].
//! The inputs are slices of the repeating mapping of c12.
use crate::bm;
use crate::bfs::Mode;
use crate::c::c07::{fin8, up8};
use crate::c::c08::h8;
use crate::c::c09::exact;
use crate::c::c12::at;
use crate::ctx::Cx;
use crate::p::{build_min, pk, pk_state};
use crate::refm::{self, RP, RS};
use blake2s_simd::{blake2s, blake2sp, Params, State};

pub const TAG: u64 = 90;

// Families.
pub const ONE2S: u64 = 0;
pub const INC2S: u64 = 1;
pub const ONESP: u64 = 2;
pub const INCSP: u64 = 3;
pub const UP8: u64 = 4;
pub const H8: u64 = 5;
pub const EX: u64 = 6;
pub const MANY2S: u64 = 7;
pub const MANYSP: u64 = 8;
pub const MANY8: u64 = 9;
pub const CALLS8: u64 = 10;
pub const CALLSX: u64 = 11;
pub const BUILD: u64 = 12;
pub const CALLS1: u64 = 13;
pub const COUNT: u64 = 14;

fn variants(f: u64) -> u64 {
    match f {
        ONE2S => 6,
        INC2S => 12,
        ONESP => 6,
        INCSP => 9,
        UP8 => 14,
        H8 => 11,
        EX => 4,
        MANY2S => 33,
        MANYSP => 24,
        MANY8 => 10,
        CALLS8 => 3,
        CALLSX => 4,
        BUILD => 6,
        CALLS1 => 4,
        COUNT => 8,
        _ => 0,
    }
}

/// More calls than a 16-bit counter holds.
const N: u64 = 66_000;

pub fn emit(fs: &[u64], f: &mut dyn FnMut(&[u64]) -> bool) -> bool {
    for &x in fs {
        for v in 0..variants(x) {
            if !f(&[TAG, x, v]) {
                return false;
            }
        }
    }
    true
}

pub fn describe(c: &[u64]) -> String {
    let n = [
        "one large message through BLAKE2s entry", "large updates of a State", "one large message through BLAKE2sp entry", "large updates of a blake2sp::State", "large update8",
        "hash8 of large inputs", "hash_exact of large inputs", "many calls on a State", "many calls on a blake2sp::State", "many update8/finalize8 calls", "many hash8 calls",
        "many hash_exact calls", "many builder calls", "many one-shot calls", "count() over large totals",
    ];
    format!("{}, variant {}", n[c[1] as usize], c[2])
}

/// Lengths in ascending order.
fn ladder(th: bool, unit: u64) -> Vec<u64> {
    let mut v = vec![];
    for k in 15..=if th { 25 } else { 22 } {
        for d in [-1i64, 0, 1, 65] {
            v.push(((1i64 << k) + d) as u64);
        }
        v.push((3 << (k - 1)) + 7);
    }
    v.push((1 << 26) + 65);
    // Everything that could be a piece or a batch: multiples of 16 KiB and of 10000 bytes.
    for k in 4..=if th { 256 } else { 64 } {
        for d in [-1i64, 0, 1] {
            v.push(((k << 14) + d) as u64);
        }
        v.push(k as u64 * 10_000);
    }
    v.extend([1_000_000, 2_000_000, 10_000_000]);
    if th {
        v.push((1 << 29) + 129);
    }
    v.iter_mut().for_each(|x| *x -= *x % unit);
    v.sort();
    v.dedup();
    v
}

/// The reference for a stream of the mapping, moving forward only.
struct R {
    s: RS,
    off: usize,
    n: u64,
    p: RP,
}
impl R {
    fn new(p: &RP, off: usize) -> R {
        R { s: p.state(), off, n: 0, p: p.clone() }
    }
    fn to(&mut self, n: u64) -> Vec<u8> {
        self.s.absorb(at(self.off, self.n, n - self.n));
        self.n = n;
        self.s.digest(self.p.out as usize, self.p.last)
    }
}

struct RSp {
    ls: Vec<RS>,
    off: usize,
    n: u64,
    out: u8,
    keylen: usize,
}
impl RSp {
    fn new(out: u8, key: &[u8], off: usize) -> RSp {
        RSp { ls: (0..8).map(|i| refm::sp_leaf_params(out, key, i).state()).collect(), off, n: 0, out, keylen: key.len() }
    }
    fn to(&mut self, n: u64) -> Vec<u8> {
        while self.n < n {
            let take = (64 - self.n % 64).min(n - self.n);
            self.ls[(self.n / 64 % 8) as usize].absorb(at(self.off, self.n, take));
            self.n += take;
        }
        let ds: Vec<Vec<u8>> = self.ls.iter().enumerate().map(|(i, s)| s.digest(32, i == 7)).collect();
        refm::sp_root(self.out, self.keylen, &ds)
    }
}

fn off(i: usize) -> usize {
    i * (131_072 + 65)
}

fn count(cx: &mut Cx, got: u64, want: u64, what: &str) -> Result<(), String> {
    cx.traces += 1;
    if got == want {
        Ok(())
    } else {
        Err(format!("count() is {} after {} bytes ({})", got, want, what))
    }
}

fn spparams(v: u64) -> (blake2sp::Params, u8, Vec<u8>) {
    let mut p = blake2sp::Params::new();
    let (out, key) = match v {
        0 => (32, vec![]),
        1 => (32, (1..=32).collect::<Vec<u8>>()),
        _ => (17, vec![9, 0, 255]),
    };
    p.hash_length(out as usize).key(&key);
    (p, out, key)
}

/// Checkpoints among very many steps.
fn stop(i: u64) -> bool {
    i % 499 == 0 || i < 4 || (i + 2) & (i + 1) == 0 || (i + 1) & i == 0 || i & (i - 1) == 0 || i == N
}

pub fn run(c: &[u64], mode: Mode, cx: &mut Cx) -> Result<(), String> {
    let th = cx.thorough;
    let v = c[2];
    let dig = mode == Mode::Digest;
    match c[1] {
        ONE2S => {
            let rp = pk([0, 0, 1, 3, 7, 0][v as usize]);
            let p = build_min(&rp);
            let mut r = R::new(&rp, off(v as usize));
            for n in ladder(th, 1) {
                let m = at(r.off, 0, n);
                let h = cx.op("hash", || match v {
                    0 => blake2s(m),
                    1..=4 => p.to_state().update(m).finalize(),
                    _ => {
                        let mut s = State::new();
                        bm::force_portable(&mut s);
                        s.update(m).finalize()
                    }
                })?;
                let w = r.to(n);
                cx.states += 1;
                cx.eq(&format!("digest of {} bytes", n), h.as_bytes(), &w)?;
            }
        }
        INC2S => {
            // From a state with `pre` bytes, one large call; then a small one.
            let (kind, pre, how) = ([0u64, 1, 8][v as usize % 3], [1u64, 64, 100, 129][v as usize / 3], v % 2);
            let rp = pk(kind & 7);
            for n in ladder(th, 1) {
                if n > 1 << 23 && v > 1 {
                    break;
                }
                let mut s = cx.op("to_state", || pk_state(kind))?;
                let o = off(v as usize);
                cx.op("update", || {
                    s.update(at(o, 0, pre));
                })?;
                let m = at(o, pre, n);
                if how == 1 {
                    let k = cx.op("write", || wr(&mut s, m))??;
                    if k as u64 != n {
                        // A short write is legal: feed the rest.
                        cx.op("update", || {
                            s.update(&m[k..]);
                        })?;
                    }
                } else {
                    cx.op("update", || {
                        s.update(m);
                    })?;
                }
                count_or(cx, dig, || s.count(), pre + n)?;
                let mut r = R::new(&rp, o);
                for x in [0u64, 1, 64, 65, 200] {
                    let at_n = pre + n + [0, 0, 1, 65, 130][[0, 1, 64, 65, 200].iter().position(|y| *y == x).unwrap()];
                    cx.op("update", || {
                        s.update(at(o, at_n, x));
                    })?;
                    cx.states += 1;
                    if dig {
                        let h = cx.op("finalize", || s.finalize())?;
                        let w = r.to(at_n + x);
                        cx.eq(&format!("digest of {} bytes after a call with {}", at_n + x, n), h.as_bytes(), &w)?;
                    }
                    count_or(cx, dig, || s.count(), at_n + x)?;
                }
            }
        }
        ONESP => {
            let (p, out, key) = spparams([0, 0, 1, 2, 0, 1][v as usize]);
            let mut r = RSp::new(out, &key, off(v as usize));
            for n in ladder(th, 1) {
                let m = at(r.off, 0, n);
                let h = cx.op("hash", || match v {
                    0 => blake2sp::blake2sp(m),
                    1..=3 => p.to_state().update(m).finalize(),
                    _ => {
                        let mut s = p.to_state();
                        bm::force_portable_blake2sp(&mut s);
                        s.update(m).finalize()
                    }
                })?;
                let w = r.to(n);
                cx.states += 1;
                cx.eq(&format!("digest of {} bytes", n), h.as_bytes(), &w)?;
            }
        }
        INCSP => {
            let (pk, pre) = (v % 3, [1u64, 512, 1000][v as usize / 3]);
            let (p, out, key) = spparams(pk);
            for n in ladder(th, 1) {
                if n > 1 << 23 && v > 1 {
                    break;
                }
                let o = off(v as usize);
                let mut s = cx.op("to_state", || p.to_state())?;
                cx.op("update", || {
                    s.update(at(o, 0, pre));
                    s.update(at(o, pre, n));
                })?;
                count_or(cx, dig, || s.count(), pre + n)?;
                let mut r = RSp::new(out, &key, o);
                let mut t = pre + n;
                for x in [0u64, 1, 511, 512, 1025] {
                    cx.op("update", || {
                        s.update(at(o, t, x));
                    })?;
                    t += x;
                    cx.states += 1;
                    if dig {
                        let h = cx.op("finalize", || s.finalize())?;
                        let w = r.to(t);
                        cx.eq(&format!("digest of {} bytes after a call with {}", t, n), h.as_bytes(), &w)?;
                    }
                    count_or(cx, dig, || s.count(), t)?;
                }
            }
        }
        UP8 | H8 => {
            // Variants: all lanes long; one long lane among short ones (8); staggered long lanes; mixed kinds (update8 only).
            let keyed_ok = c[1] == UP8;
            let kinds: [u64; 8] = match v {
                10 => [0, 2, 3, 6, 0, 2, 3, 6],
                11 if keyed_ok => [0, 1, 2, 3, 4, 5, 6, 7],
                12 if keyed_ok => [8, 1, 10, 3, 12, 5, 14, 7],
                13 if keyed_ok => [1; 8],
                _ => [0; 8],
            };
            let ps: Vec<Params> = kinds.iter().map(|&k| build_min(&pk(k))).collect();
            let mut rs: Vec<R> = (0..8).map(|i| R::new(&pk(kinds[i] & 7), off(i))).collect();
            for n in ladder(th, 1) {
                let one = (1..=8).contains(&v);
                if n > 1 << 23 && (v > 1 || th && n > 1 << 27) {
                    break;
                }
                let len: Vec<u64> = (0..8)
                    .map(|i| {
                        if one {
                            if i as u64 == v - 1 { n } else { [0, 1, 64, 65, 130, 128, 700, 63][i] }
                        } else if v >= 9 {
                            n + [0, 64, 1, 129, 5000, 0, 65, 1000][i] * (v - 8)
                        } else {
                            n
                        }
                    })
                    .collect();
                let ins: [&[u8]; 8] = std::array::from_fn(|i| at(off(i), 0, len[i]));
                cx.states += 1;
                let hs = if c[1] == H8 {
                    cx.op("hash8", || h8(&ps, &ins))?.to_vec()
                } else {
                    let mut st: Vec<State> = cx.op("to_state", || kinds.iter().map(|&k| pk_state(k)).collect())?;
                    cx.op("update8", || up8(&mut st, &ins))?;
                    for i in 0..8 {
                        count_or(cx, dig, || st[i].count(), len[i])?;
                    }
                    let h = cx.op("finalize8", || fin8(&mut st))?.to_vec();
                    for i in 0..8 {
                        let g = cx.op("finalize", || st[i].finalize())?;
                        if dig && g != h[i] {
                            return Err(format!("lane {} of lengths {:?}: finalize gives {:?}, finalize8 gave {:?}", i, len, g, h[i]));
                        }
                    }
                    h
                };
                if !dig {
                    continue;
                }
                for i in 0..8 {
                    // Short lanes repeat, and some ladders overlap: start again when going back.
                    if len[i] < rs[i].n {
                        rs[i] = R::new(&pk(kinds[i] & 7), off(i));
                    }
                    let w = rs[i].to(len[i]);
                    cx.eq(&format!("lane {} of lengths {:?}", i, len), hs[i].as_bytes(), &w)?;
                }
            }
        }
        EX => {
            let ways = if v % 2 == 0 { 4 } else { 8 };
            let rp = pk(if v < 2 { 0 } else { 7 });
            let p = build_min(&rp);
            let mut rs: Vec<R> = (0..ways).map(|i| R::new(&rp, off(i))).collect();
            for n in ladder(th, 64) {
                if n > 1 << 27 {
                    break;
                }
                let ins: Vec<&[u8]> = (0..ways).map(|i| at(off(i), 0, n)).collect();
                let h = cx.op("hash_exact", || exact(ways, &p, &ins))?;
                cx.states += 1;
                for i in 0..ways {
                    let w = rs[i].to(n);
                    cx.eq(&format!("lane {} of {} bytes", i, n), h[i].as_bytes(), &w)?;
                }
            }
        }
        MANY2S => {
            let (kind, how) = ([0u64, 1, 8][v as usize % 3], v / 3);
            let rp = pk(kind & 7);
            let o = off(v as usize % 7);
            let mut r = R::new(&rp, o);
            let mut s = cx.op("to_state", || pk_state(kind))?;
            let mut n = 0u64;
            let mut last = rp.last;
            let lens = [1u64, 64, 65, 0, 63, 0, 1, 0, 1, 1, 3];
            for i in 1..=N {
                let b = at(o, n, lens[how as usize]);
                n += b.len() as u64;
                match how {
                    0..=4 => cx.op("update", || {
                        s.update(b);
                    })?,
                    5 => {
                        cx.op("finalize", || s.finalize())?;
                    }
                    6 => {
                        cx.op("update, finalize", || s.update(b).finalize())?;
                    }
                    7 => {
                        last = i % 2 == 1;
                        cx.op("set_last_node", || {
                            s.set_last_node(last);
                        })?;
                    }
                    8 => {
                        s = cx.op("clone, update", || {
                            let mut t = s.clone();
                            t.update(b);
                            t
                        })?
                    }
                    9 => {
                        let k = cx.op("write", || wr(&mut s, b))??;
                        if k > b.len() {
                            return Err(format!("write of {} bytes returned {}", b.len(), k));
                        }
                        n -= (b.len() - k) as u64;
                    }
                    _ => {
                        // A clone goes its own way.
                        cx.op("clone", || {
                            let mut t = s.clone();
                            t.update(at(o, 0, 70)).finalize();
                            s.update(b);
                        })?
                    }
                }
                if !dig {
                    count_or(cx, dig, || s.count(), n)?;
                } else if stop(i) {
                    cx.states += 1;
                    let h = cx.op("finalize", || s.finalize())?;
                    r.p.last = last;
                    let w = r.to(n);
                    cx.eq(&format!("digest of {} bytes after {} calls", n, i), h.as_bytes(), &w)?;
                }
            }
        }
        MANYSP => {
            let (p, out, key) = spparams(v % 3);
            let how = v / 3;
            let o = off(v as usize % 7);
            let mut r = RSp::new(out, &key, o);
            let mut s = cx.op("to_state", || p.to_state())?;
            let mut n = 0u64;
            let lens = [1u64, 64, 512, 513, 0, 0, 1, 1];
            for i in 1..=N {
                let b = at(o, n, lens[how as usize]);
                n += b.len() as u64;
                match how {
                    0..=4 => cx.op("update", || {
                        s.update(b);
                    })?,
                    5 => {
                        cx.op("finalize", || s.finalize())?;
                    }
                    6 => {
                        cx.op("update, finalize", || s.update(b).finalize())?;
                    }
                    _ => {
                        let k = cx.op("write", || wrsp(&mut s, b))??;
                        if k > b.len() {
                            return Err(format!("write of {} bytes returned {}", b.len(), k));
                        }
                        n -= (b.len() - k) as u64;
                    }
                }
                if !dig {
                    count_or(cx, dig, || s.count(), n)?;
                } else if stop(i) {
                    cx.states += 1;
                    let h = cx.op("finalize", || s.finalize())?;
                    let w = r.to(n);
                    cx.eq(&format!("digest of {} bytes after {} calls", n, i), h.as_bytes(), &w)?;
                }
            }
        }
        MANY8 => {
            let kinds: [u64; 8] = if v % 2 == 0 { [0; 8] } else { [8, 1, 2, 3, 12, 5, 6, 7] };
            let lens: [u64; 8] = match v / 2 {
                0 => [1; 8],
                1 => [64; 8],
                2 => [0, 1, 2, 3, 5, 7, 11, 13],
                3 => [0, 65, 0, 64, 1, 0, 130, 0],
                _ => [0; 8],
            };
            let mut st: Vec<State> = cx.op("to_state", || kinds.iter().map(|&k| pk_state(k)).collect())?;
            let mut rs: Vec<R> = (0..8).map(|i| R::new(&pk(kinds[i] & 7), off(i))).collect();
            let mut n = [0u64; 8];
            for i in 1..=N {
                let ins: [&[u8]; 8] = std::array::from_fn(|l| at(off(l), n[l], lens[l]));
                cx.op("update8", || up8(&mut st, &ins))?;
                for l in 0..8 {
                    n[l] += lens[l];
                }
                if v / 2 == 4 {
                    cx.op("finalize8", || fin8(&mut st))?;
                }
                if !dig {
                    for l in 0..8 {
                        count_or(cx, dig, || st[l].count(), n[l])?;
                    }
                } else if stop(i) {
                    cx.states += 1;
                    let h = cx.op("finalize8", || fin8(&mut st))?;
                    for l in 0..8 {
                        let w = rs[l].to(n[l]);
                        cx.eq(&format!("lane {} after {} update8 calls, {} bytes", l, i, n[l]), h[l].as_bytes(), &w)?;
                    }
                }
            }
        }
        CALLS8 => {
            let ks = [[0u64; 8], [0, 2, 3, 6, 0, 2, 3, 6], [6; 8]][v as usize];
            let ps: Vec<Params> = ks.iter().map(|&k| build_min(&pk(k))).collect();
            let len = |l: usize| [64u64, 10, 0, 65, 64, 1, 129, 128][l];
            let want: Vec<Vec<u8>> = (0..8).map(|l| R::new(&pk(ks[l]), off(l)).to(len(l))).collect();
            let ins: [&[u8]; 8] = std::array::from_fn(|l| at(off(l), 0, len(l)));
            for i in 1..=N {
                let h = cx.op("hash8", || h8(&ps, &ins))?;
                for l in 0..8 {
                    if h[l].as_bytes() != &want[l][..] {
                        return cx.eq(&format!("lane {}, call {}", l, i), h[l].as_bytes(), &want[l]);
                    }
                }
                cx.traces += 8;
            }
            cx.states += N;
        }
        CALLSX => {
            let ways = if v % 2 == 0 { 4 } else { 8 };
            let rp = pk(if v < 2 { 0 } else { 5 });
            let p = build_min(&rp);
            let want: Vec<Vec<u8>> = (0..ways).map(|l| R::new(&rp, off(l)).to(128)).collect();
            let ins: Vec<&[u8]> = (0..ways).map(|l| at(off(l), 0, 128)).collect();
            for i in 1..=N {
                let h = cx.op("hash_exact", || exact(ways, &p, &ins))?;
                for l in 0..ways {
                    if h[l].as_bytes() != &want[l][..] {
                        return cx.eq(&format!("lane {}, call {}", l, i), h[l].as_bytes(), &want[l]);
                    }
                }
                cx.traces += ways as u64;
            }
            cx.states += N;
        }
        BUILD => {
            let msg = at(0, 0, 70);
            // 0: setters again and again; 1: a chain of clones; 2: states from one builder. 3..6 the same for BLAKE2sp.
            if v < 3 {
                let (ra, rb) = (pk(7), pk(3));
                let (wa, wb) = (ra.hash(msg), rb.hash(msg));
                let mut p = build_min(&ra);
                let q = build_min(&ra);
                for i in 1..=N {
                    let odd = i % 2 == 1;
                    let h = cx.op("builder", || match v {
                        0 => {
                            crate::p::set_all(&mut p, if odd { &rb } else { &ra });
                            p.to_state().update(msg).finalize()
                        }
                        1 => {
                            p = p.clone();
                            p.to_state().update(msg).finalize()
                        }
                        _ => q.to_state().update(msg).finalize(),
                    })?;
                    cx.eq(&format!("digest after {} rounds", i), h.as_bytes(), if v == 0 && odd { &wb } else { &wa })?;
                }
            } else {
                let key: Vec<u8> = (1..=32).collect();
                let (wa, wb) = (refm::blake2sp(32, &key, msg), refm::blake2sp(5, &key[..7], msg));
                let mut p = blake2sp::Params::new();
                p.key(&key);
                for i in 1..=N / 4 {
                    let odd = i % 2 == 1;
                    let h = cx.op("builder", || match v {
                        3 => {
                            if odd {
                                p.key(&key[..7]).hash_length(5);
                            } else {
                                p.hash_length(32).key(&key);
                            }
                            p.to_state().update(msg).finalize()
                        }
                        4 => {
                            p = p.clone();
                            p.to_state().update(msg).finalize()
                        }
                        _ => p.to_state().update(msg).finalize(),
                    })?;
                    cx.eq(&format!("digest after {} rounds", i), h.as_bytes(), if v == 3 && odd { &wb } else { &wa })?;
                }
            }
            cx.states += N;
        }
        CALLS1 => {
            let (len, sp) = ([70u64, 0, 600, 1100][v as usize], v >= 2);
            let m = at(off(v as usize), 0, len);
            let w = if sp { refm::blake2sp(32, &[], m) } else { RP::default().hash(m) };
            for i in 1..=N {
                let h = cx.op("one-shot", || if sp { blake2sp::blake2sp(m) } else { blake2s(m) })?;
                if h.as_bytes() != &w[..] {
                    return cx.eq(&format!("call {}", i), h.as_bytes(), &w);
                }
                cx.traces += 1;
            }
            cx.states += N;
        }
        COUNT => {
            // Totals around every power of two up to 2^31, for a State (0..3), a blake2sp::State (4..6) and update8 (7).
            let o = off(v as usize);
            let mut pts: Vec<u64> = vec![];
            let top = match v {
                0 | 1 | 4..=6 if cfg!(feature = "std") => 33,
                3 if cfg!(feature = "std") => 31,
                _ => 28,
            };
            for k in 10..=top {
                for d in [-513i64, -65, -64, -1, 0, 1, 64, 449, 512] {
                    pts.push(((1i64 << k) + d) as u64);
                }
                pts.push((3 << (k - 1)) + 5);
            }
            let mut n = 0u64;
            if v < 4 {
                let kind = [0u64, 1, 8, 7][v as usize];
                let mut s = cx.op("to_state", || pk_state(kind))?;
                for p in pts {
                    if p < n {
                        continue;
                    }
                    cx.op("update", || {
                        s.update(at(o, n, p - n));
                    })?;
                    n = p;
                    cx.states += 1;
                    count(cx, s.count(), n, "State")?;
                    cx.op("finalize", || s.finalize())?;
                    count(cx, s.count(), n, "State, finalized")?;
                    count(cx, s.clone().count(), n, "clone")?;
                }
            } else if v < 7 {
                let (p, _, _) = spparams(v - 4);
                let mut s = cx.op("to_state", || p.to_state())?;
                for p in pts {
                    if p < n {
                        continue;
                    }
                    cx.op("update", || {
                        s.update(at(o, n, p - n));
                    })?;
                    n = p;
                    cx.states += 1;
                    count(cx, s.count(), n, "blake2sp::State")?;
                    cx.op("finalize", || s.finalize())?;
                    count(cx, s.count(), n, "blake2sp::State, finalized")?;
                }
            } else {
                let mut st: Vec<State> = cx.op("to_state", || (0..8).map(|k| pk_state(k)).collect())?;
                let mut ns = [0u64; 8];
                for p in pts {
                    let ins: [&[u8]; 8] = std::array::from_fn(|i| at(off(i), ns[i], (p >> (i / 2)).saturating_sub(ns[i])));
                    cx.op("update8", || up8(&mut st, &ins))?;
                    cx.states += 1;
                    for i in 0..8 {
                        ns[i] += ins[i].len() as u64;
                        count(cx, st[i].count(), ns[i], "update8")?;
                    }
                }
            }
        }
        _ => return Err("no such family".into()),
    }
    Ok(())
}

fn count_or(cx: &mut Cx, dig: bool, f: impl FnOnce() -> u64, want: u64) -> Result<(), String> {
    if dig {
        return Ok(());
    }
    let k = cx.op("count", f)?;
    count(cx, k, want, "long history")
}

#[cfg(feature = "std")]
fn wr(s: &mut State, b: &[u8]) -> Result<usize, String> {
    crate::c::c03::io(std::io::Write::write(s, b))
}
#[cfg(not(feature = "std"))]
fn wr(s: &mut State, b: &[u8]) -> Result<usize, String> {
    s.update(b);
    Ok(b.len())
}
#[cfg(feature = "std")]
fn wrsp(s: &mut blake2sp::State, b: &[u8]) -> Result<usize, String> {
    crate::c::c03::io(std::io::Write::write(s, b))
}
#[cfg(not(feature = "std"))]
fn wrsp(s: &mut blake2sp::State, b: &[u8]) -> Result<usize, String> {
    s.update(b);
    Ok(b.len())
}
