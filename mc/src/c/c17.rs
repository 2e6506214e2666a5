//! C17: independence of instances.
//! One thread: case [kind, kind, kind]: all merges of the operation sequences of three instances.
//! Two threads: `mc steps TIER OUT SHARD NSHARDS`, one process per shard and single-threaded: thread A runs an
//! operation one instruction at a time, and after every instruction a forked copy of the process lets a second
//! thread run every operation to the end before A continues, both checked against the reference. First in a process
//! that has never used the library before (cold), then again warm.
use crate::bm;
use crate::c::c07::{fin8, up8};
use crate::c::c08::h8;
use crate::c::c09::exact;
use crate::ctx::{data, hex, Check, Cx};
use crate::p::{build_min, pk};
use crate::refm::{self, RP};
use crate::step;
use blake2s_simd::{blake2s, blake2sp, Hash, Params, State};

pub struct C17;

pub const KINDS: [&str; 8] = ["State", "keyed State with all parameters", "blake2sp::State", "keyed blake2sp::State", "builder reused", "eight states", "one-shot functions", "portable State and clone"];

enum Obj {
    No,
    S(State),
    Sp(blake2sp::State),
    P(Params),
    V(Vec<State>),
}

/// Instance number i of a kind has its own data.
fn d(kind: usize, i: usize, from: usize, n: usize) -> &'static [u8] {
    let o = 1000 + 40_000 * kind + 9_001 * i + from;
    &data()[o..o + n]
}

pub const STEPS: usize = 4;

/// Step `s` of an instance. Appends every observation.
fn act(kind: usize, i: usize, s: usize, o: &mut Obj, out: &mut Vec<u8>) {
    let lanes = |n: usize| -> [&'static [u8]; 8] { std::array::from_fn(|l| d(kind, i, l * 700 + l, n)) };
    match (kind, s) {
        (0, 0) => *o = Obj::S(Params::new().to_state()),
        (1, 0) => *o = Obj::S(build_min(&pk(7 - 2 * (i as u64 % 2))).to_state()),
        (2, 0) => *o = Obj::Sp(blake2sp::State::new()),
        (3, 0) => {
            let mut p = blake2sp::Params::new();
            p.key(d(3, i, 0, 32));
            *o = Obj::Sp(p.to_state());
        }
        (0 | 1, 1) | (0 | 1, 2) => {
            if let Obj::S(x) = o {
                x.update(if s == 1 { d(kind, i, 0, 70) } else { d(kind, i, 70, 130) });
                if s == 1 {
                    out.extend_from_slice(x.finalize().as_bytes());
                }
            }
        }
        (2 | 3, 1) | (2 | 3, 2) => {
            if let Obj::Sp(x) = o {
                x.update(if s == 1 { d(kind, i, 0, 600) } else { d(kind, i, 600, 900) });
            }
        }
        (0..=1, _) => {
            if let Obj::S(x) = o {
                out.extend_from_slice(x.finalize().as_bytes());
                out.extend_from_slice(&x.count().to_le_bytes());
            }
        }
        (2..=3, _) => {
            if let Obj::Sp(x) = o {
                out.extend_from_slice(x.finalize().as_bytes());
                out.extend_from_slice(&x.count().to_le_bytes());
            }
        }
        (4, 0) => *o = Obj::P(build_min(&pk(7))),
        (4, 1) => {
            if let Obj::P(p) = o {
                out.extend_from_slice(p.to_state().update(d(4, i, 0, 65)).finalize().as_bytes());
                p.key(d(4, i, 9, 3 + i)).salt(d(4, i, 20, 8));
            }
        }
        (4, 2) => {
            if let Obj::P(p) = o {
                out.extend_from_slice(p.to_state().update(d(4, i, 1, 65)).finalize().as_bytes());
                p.key(&[]).personal(d(4, i, 30, 8));
            }
        }
        (4, _) => {
            if let Obj::P(p) = o {
                out.extend_from_slice(p.to_state().update(d(4, i, 2, 64)).finalize().as_bytes());
            }
        }
        (5, 0) => *o = Obj::V((0..8).map(|l| build_min(&pk(l)).to_state()).collect()),
        (5, 1 | 2) => {
            if let Obj::V(v) = o {
                up8(v, &lanes(if s == 1 { 130 } else { 65 }));
            }
        }
        (5, _) => {
            if let Obj::V(v) = o {
                for h in fin8(v) {
                    out.extend_from_slice(h.as_bytes());
                }
            }
        }
        (6, 0) => {
            let ps: Vec<Params> = (0..8).map(|l| build_min(&pk([0, 2, 3, 6][l % 4]))).collect();
            for h in h8(&ps, &lanes(130 + i)) {
                out.extend_from_slice(h.as_bytes());
            }
        }
        (6, 1) => exact(4, &build_min(&pk(1)), &lanes(128)[..4]).iter().for_each(|h| out.extend_from_slice(h.as_bytes())),
        (6, 2) => exact(8, &build_min(&pk(3)), &lanes(192)).iter().for_each(|h| out.extend_from_slice(h.as_bytes())),
        (6, _) => {
            out.extend_from_slice(blake2s(d(6, i, 0, 200)).as_bytes());
            out.extend_from_slice(blake2sp::blake2sp(d(6, i, 0, 1100)).as_bytes());
        }
        (_, 0) => {
            let mut x = Params::new().to_state();
            bm::force_portable(&mut x);
            *o = Obj::S(x);
        }
        (_, 1) => {
            if let Obj::S(x) = o {
                x.update(d(7, i, 0, 100));
            }
        }
        (_, 2) => {
            if let Obj::S(x) = o {
                let mut y = x.clone();
                x.update(d(7, i, 100, 100));
                y.set_last_node(true);
                out.extend_from_slice(y.finalize().as_bytes());
            }
        }
        _ => {
            if let Obj::S(x) = o {
                let h = x.finalize();
                out.extend_from_slice(h.as_bytes());
                out.extend_from_slice(h.to_hex().as_bytes());
                out.push((h == *d(7, i, 0, 32)) as u8);
            }
        }
    }
}

/// What the specification says all steps' observations are.
fn want(kind: usize, i: usize) -> Vec<u8> {
    let mut o = vec![];
    let lane = |l: usize, n: usize| d(kind, i, l * 700 + l, n);
    match kind {
        0 | 1 => {
            let r = if kind == 0 { pk(0) } else { pk(7 - 2 * (i as u64 % 2)) };
            o.extend(r.hash(d(kind, i, 0, 70)));
            o.extend(r.hash(d(kind, i, 0, 200)));
            o.extend_from_slice(&200u64.to_le_bytes());
        }
        2 | 3 => {
            let k: &[u8] = if kind == 3 { d(3, i, 0, 32) } else { &[] };
            o.extend(refm::blake2sp(32, k, d(kind, i, 0, 1500)));
            o.extend_from_slice(&1500u64.to_le_bytes());
        }
        4 => {
            let mut r = pk(7);
            o.extend(r.hash(d(4, i, 0, 65)));
            r.key = d(4, i, 9, 3 + i).to_vec();
            r.salt = d(4, i, 20, 8).to_vec();
            o.extend(r.hash(d(4, i, 1, 65)));
            r.key = vec![];
            r.personal = d(4, i, 30, 8).to_vec();
            o.extend(r.hash(d(4, i, 2, 64)));
        }
        5 => {
            for l in 0..8 {
                let mut m = lane(l, 130).to_vec();
                m.extend_from_slice(lane(l, 65));
                o.extend(pk(l as u64).hash(&m));
            }
        }
        6 => {
            for l in 0..8 {
                o.extend(pk([0, 2, 3, 6][l % 4]).hash(lane(l, 130 + i)));
            }
            for l in 0..4 {
                o.extend(pk(1).hash(lane(l, 128)));
            }
            for l in 0..8 {
                o.extend(pk(3).hash(lane(l, 192)));
            }
            o.extend(pk(0).hash(d(6, i, 0, 200)));
            o.extend(refm::blake2sp(32, &[], d(6, i, 0, 1100)));
        }
        _ => {
            let mut r = pk(0);
            r.last = true;
            o.extend(r.hash(d(7, i, 0, 100)));
            r.last = false;
            let h = r.hash(d(7, i, 0, 200));
            o.extend_from_slice(&h);
            o.extend_from_slice(hex(&h).as_bytes());
            o.push(0);
        }
    }
    o
}

// ---- two instances alike but for one aspect ----

pub const FAMS: [&str; 4] = ["State", "blake2sp::State", "one-shot functions", "eight States"];
const ASPECTS: [&str; 24] = [
    "base", "last message byte", "first message byte", "middle message byte", "one byte more", "one byte less", "one block more", "key", "other key", "digest length", "portable", "last_node",
    "salt", "personal", "fanout", "max_depth", "max_leaf_length", "node_offset", "node_depth", "inner_hash_length", "node_offset, high half", "set_last_node between the finalizations", "key length",
    "split elsewhere",
];
/// The first aspects exist for blake2sp too.
fn aspects(fam: u64) -> Vec<u64> {
    match fam {
        0 => (0..ASPECTS.len() as u64).collect(),
        1 => (0..11).chain([22, 23]).collect(),
        2 => (0..7).chain([9]).chain(11..21).collect(),
        _ => (0..21).chain([22]).collect(),
    }
}

struct Twin {
    fam: u64,
    a: u64,
    r: RP,
    msg: Vec<u8>,
    cut: usize,
}

impl Twin {
    fn new(fam: u64, len: usize, a: u64) -> Twin {
        let n = match a {
            4 => len + 1,
            5 => len.saturating_sub(1),
            6 => len + 64,
            _ => len,
        };
        let mut msg = data()[..n].to_vec();
        if n > 0 {
            match a {
                1 => msg[n - 1] ^= 1,
                2 => msg[0] ^= 1,
                3 => msg[n / 2] ^= 1,
                _ => {}
            }
        }
        let mut r = RP::default();
        let base_key = if a == 7 || a == 8 || a == 22 { data()[77..109].to_vec() } else { vec![] };
        r.key = base_key;
        match a {
            8 => r.key[31] ^= 1,
            22 => r.key.truncate(31),
            9 => r.out = 31,
            11 => r.last = true,
            12 => r.salt = vec![0, 0, 0, 0, 0, 0, 0, 1],
            13 => r.personal = vec![0, 0, 0, 0, 0, 0, 0, 1],
            14 => r.fanout = 2,
            15 => r.depth = 2,
            16 => r.leaf = 1 << 24,
            17 => r.noff = 1,
            18 => r.ndepth = 1,
            19 => r.inner = 1,
            20 => r.noff = 1 << 40,
            _ => {}
        }
        let cut = if a == 23 { n / 3 } else { (len / 2).min(n) };
        Twin { fam, a, r, msg, cut }
    }
    fn steps(&self) -> usize {
        if self.fam == 2 { 2 } else { 5 }
    }
    fn spp(&self) -> blake2sp::Params {
        let mut p = blake2sp::Params::new();
        p.hash_length(self.r.out as usize).key(&self.r.key);
        p
    }
    /// Lane l of the eight-lane families: only lane 5 has the aspect.
    fn lane(&self, l: usize) -> Twin {
        Twin::new(0, self.msg.len() - (self.a == 4) as usize + (self.a == 5) as usize - 64 * (self.a == 6) as usize, if l == 5 { self.a } else { 0 })
    }
    fn act(&self, s: usize, o: &mut Obj, out: &mut Vec<u8>) {
        let (x, y) = self.msg.split_at(self.cut);
        match self.fam {
            0 => match (s, o) {
                (0, o) => {
                    let mut st = build_min(&self.r).to_state();
                    if self.a == 10 {
                        bm::force_portable(&mut st);
                    }
                    *o = Obj::S(st);
                }
                (1 | 2, Obj::S(st)) => {
                    st.update(if s == 1 { x } else { y });
                }
                (_, Obj::S(st)) => {
                    out.extend_from_slice(st.finalize().as_bytes());
                    out.extend_from_slice(&st.count().to_le_bytes());
                    if self.a == 21 {
                        st.set_last_node(true);
                    }
                }
                _ => {}
            },
            1 => match (s, o) {
                (0, o) => {
                    let mut st = self.spp().to_state();
                    if self.a == 10 {
                        bm::force_portable_blake2sp(&mut st);
                    }
                    *o = Obj::Sp(st);
                }
                (1 | 2, Obj::Sp(st)) => {
                    st.update(if s == 1 { x } else { y });
                }
                (_, Obj::Sp(st)) => {
                    out.extend_from_slice(st.finalize().as_bytes());
                    out.extend_from_slice(&st.count().to_le_bytes());
                }
                _ => {}
            },
            2 => {
                out.extend_from_slice(blake2s(&self.msg).as_bytes());
                out.extend_from_slice(blake2sp::blake2sp(&self.msg).as_bytes());
                let ls: Vec<Twin> = (0..8).map(|l| self.lane(l)).collect();
                let ps: Vec<Params> = ls.iter().map(|t| build_min(&t.r)).collect();
                let ins: [&[u8]; 8] = std::array::from_fn(|l| &ls[l].msg[..]);
                for h in &h8(&ps, &ins) {
                    out.extend_from_slice(h.as_bytes());
                }
                let n = self.msg.len() / 64 * 64;
                if n > 0 {
                    // One lane has this instance's message, the others a common one.
                    let p = build_min(&self.r);
                    let m: Vec<&[u8]> = (0..8).map(|l| if l == 2 { &self.msg[..n] } else { &data()[..n] }).collect();
                    for h in exact(4, &p, &m[..4]).iter().chain(&exact(8, &p, &m)) {
                        out.extend_from_slice(h.as_bytes());
                    }
                }
            }
            _ => match (s, o) {
                (0, o) => {
                    *o = Obj::V((0..8).map(|l| {
                        let t = self.lane(l);
                        let mut st = build_min(&t.r).to_state();
                        if t.a == 10 {
                            bm::force_portable(&mut st);
                        }
                        st
                    }).collect())
                }
                (1 | 2, Obj::V(v)) => {
                    let ls: Vec<Twin> = (0..8).map(|l| self.lane(l)).collect();
                    up8(v, &std::array::from_fn(|l| if s == 1 { &ls[l].msg[..ls[l].cut] } else { &ls[l].msg[ls[l].cut..] }));
                }
                (_, Obj::V(v)) => {
                    for h in fin8(v) {
                        out.extend_from_slice(h.as_bytes());
                    }
                }
                _ => {}
            },
        }
    }
    fn want(&self) -> Vec<u8> {
        let mut o = vec![];
        match self.fam {
            0 => {
                let mut r = self.r.clone();
                for _ in 0..2 {
                    o.extend(r.hash(&self.msg));
                    o.extend_from_slice(&(self.msg.len() as u64).to_le_bytes());
                    r.last |= self.a == 21;
                }
            }
            1 => {
                for _ in 0..2 {
                    o.extend(refm::blake2sp(self.r.out, &self.r.key, &self.msg));
                    o.extend_from_slice(&(self.msg.len() as u64).to_le_bytes());
                }
            }
            2 => {
                o.extend(RP::default().hash(&self.msg));
                o.extend(refm::blake2sp(32, &[], &self.msg));
                for l in 0..8 {
                    let t = self.lane(l);
                    o.extend(t.r.hash(&t.msg));
                }
                let n = self.msg.len() / 64 * 64;
                if n > 0 {
                    for l in [0, 1, 2, 3, 0, 1, 2, 3, 4, 5, 6, 7] {
                        o.extend(self.r.hash(if l == 2 { &self.msg[..n] } else { &data()[..n] }));
                    }
                }
                o.extend(o.clone());
            }
            _ => {
                for _ in 0..2 {
                    for l in 0..8 {
                        let t = self.lane(l);
                        o.extend(t.r.hash(&t.msg));
                    }
                }
            }
        }
        o
    }
}

fn twins(c: &[u64], cx: &mut Cx) -> Result<(), String> {
    let t = [Twin::new(c[1], c[2] as usize, c[3]), Twin::new(c[1], c[2] as usize, c[4])];
    let wants = [t[0].want(), t[1].want()];
    let per = t[0].steps();
    let check = |what: &str, out: &[Vec<u8>; 2], cx: &mut Cx| -> Result<(), String> {
        for i in 0..2 {
            cx.traces += 1;
            if out[i] != wants[i] {
                let d = out[i].iter().zip(&wants[i]).position(|(a, b)| a != b).unwrap_or(0) & !31;
                return cx.eq(&format!("{}: instance {} ({}), observations from byte {}", what, i, ASPECTS[c[3 + i] as usize], d), &out[i][d..], &wants[i][d..]);
            }
        }
        Ok(())
    };
    // One after the other in the same place.
    let mut slot = Obj::No;
    let mut out = [vec![], vec![]];
    for i in 0..2 {
        for s in 0..per {
            cx.op(FAMS[c[1] as usize], || t[i].act(s, &mut slot, &mut out[i]))?;
        }
    }
    check("one after the other in the same place", &out, cx)?;
    cx.outcome(&out[0]);
    cx.outcome(&out[1]);
    // All merges.
    for m in 0u32..1 << (2 * per) {
        if m.count_ones() as usize != per {
            continue;
        }
        cx.states += 1;
        let mut obj = [Obj::No, Obj::No];
        let mut out = [vec![], vec![]];
        let mut pos = [0usize; 2];
        for k in 0..2 * per {
            let i = (m >> k & 1) as usize;
            cx.op(FAMS[c[1] as usize], || t[i].act(pos[i], &mut obj[i], &mut out[i]))?;
            pos[i] += 1;
        }
        check(&format!("merge {:010b}", m), &out, cx)?;
    }
    Ok(())
}

// ---- many live instances ----

pub const CROWDS: [&str; 5] = ["State", "keyed State, all parameters", "blake2sp::State", "builders", "groups of eight States"];

fn crowd(c: &[u64], cx: &mut Cx) -> Result<(), String> {
    let (fam, n, order) = (c[1], c[2] as usize, c[3]);
    // Instance i: its own message.
    let msg = |i: usize| -> (&'static [u8], &'static [u8]) {
        let o = (i * 37) % 1_900_000;
        let len = 66 + i % 7;
        (&data()[o..o + len], &data()[o + len..o + len + 65 + i % 5])
    };
    let rp = |i: usize| -> RP {
        let mut r = pk(if fam == 1 || fam == 3 { 7 } else { 0 });
        if fam == 1 || fam == 3 {
            r.key = data()[i % 1_000_000..i % 1_000_000 + 1 + i % 32].to_vec();
            r.noff = i as u64;
        }
        r
    };
    let idx = |k: usize, round: u64| -> usize {
        match (order + round) % 3 {
            0 => k,
            1 => n - 1 - k,
            // Strided by something coprime to every power of two.
            _ => if n % 3 == 0 { k } else { (k * 3 + 1) % n },
        }
    };
    let mut o: Vec<Obj> = Vec::with_capacity(n);
    // Creation, two rounds of updates, an intermediate and two final digests; the second half also replaces every
    // third instance by a new one half-way.
    for i in 0..n {
        o.push(cx.op("creation", || match fam {
            0 | 1 => Obj::S(build_min(&rp(i)).to_state()),
            2 => Obj::Sp(blake2sp::State::new()),
            3 => Obj::P(build_min(&rp(i))),
            _ => Obj::V((0..8).map(|_| State::new()).collect()),
        })?);
    }
    let lanes = |i: usize, s: usize| -> [&'static [u8]; 8] { std::array::from_fn(|l| if s == 0 { msg(i * 8 + l).0 } else { msg(i * 8 + l).1 }) };
    for s in 0..2 {
        for k in 0..n {
            let i = idx(k, s as u64);
            if s == 1 && i % 3 == 2 {
                // Dropped and replaced: the new one gets the first part again.
                o[i] = Obj::No;
                o[i] = cx.op("creation", || match fam {
                    0 | 1 => Obj::S(build_min(&rp(i)).to_state()),
                    2 => Obj::Sp(blake2sp::State::new()),
                    3 => Obj::P(build_min(&rp(i))),
                    _ => Obj::V((0..8).map(|_| State::new()).collect()),
                })?;
                match &mut o[i] {
                    Obj::S(x) => cx.op("update", || { x.update(msg(i).0); })?,
                    Obj::Sp(x) => cx.op("update", || { x.update(msg(i).0); })?,
                    Obj::V(v) => cx.op("update8", || up8(v, &lanes(i, 0)))?,
                    _ => {}
                }
            }
            let part = if s == 0 { msg(i).0 } else { msg(i).1 };
            match &mut o[i] {
                Obj::S(x) => cx.op("update", || { x.update(part); })?,
                Obj::Sp(x) => cx.op("update", || { x.update(part); })?,
                Obj::V(v) => cx.op("update8", || up8(v, &lanes(i, s)))?,
                Obj::P(p) => {
                    if s == 0 {
                        cx.op("salt", || { p.salt(&part[..8]); })?
                    } else {
                        cx.op("salt, personal", || { p.salt(&msg(i).0[..8]).personal(&part[..8]); })?
                    }
                }
                Obj::No => {}
            }
        }
    }
    for s in 0..2u64 {
        for k in 0..n {
            let i = idx(k, 2 + s);
            let (mut got, mut want) = (vec![], vec![]);
            match &mut o[i] {
                Obj::S(x) => got.extend_from_slice(cx.op("finalize", || x.finalize())?.as_bytes()),
                Obj::Sp(x) => got.extend_from_slice(cx.op("finalize", || x.finalize())?.as_bytes()),
                Obj::V(v) => cx.op("finalize8", || fin8(v))?.iter().for_each(|h| got.extend_from_slice(h.as_bytes())),
                Obj::P(p) => got.extend_from_slice(cx.op("to_state", || p.to_state().update(msg(i).0).finalize())?.as_bytes()),
                Obj::No => {}
            }
            let whole = |i: usize| [msg(i).0, msg(i).1].concat();
            match fam {
                0 | 1 => want = rp(i).hash(&whole(i)),
                2 => want = refm::blake2sp(32, &[], &whole(i)),
                3 => {
                    let mut r = rp(i);
                    r.salt = msg(i).0[..8].to_vec();
                    r.personal = msg(i).1[..8].to_vec();
                    want = r.hash(msg(i).0);
                }
                _ => (0..8).for_each(|l| want.extend(pk(0).hash(&whole(i * 8 + l)))),
            }
            cx.eq(&format!("instance {} of {}", i, n), &got, &want)?;
        }
    }
    Ok(())
}

// ---- instances handed from thread to thread ----

/// Moves what is inside to another thread whether or not the compiler would.
struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}
impl<T> Carry<T> {
    fn get(self) -> T {
        self.0
    }
}

/// Three threads that run what they are sent, one thing at a time.
struct Pool {
    tx: Vec<std::sync::mpsc::Sender<Carry<Box<dyn FnOnce()>>>>,
    done: std::sync::mpsc::Receiver<bool>,
}

impl Pool {
    fn new(slot: usize) -> Pool {
        let (dtx, done) = std::sync::mpsc::channel();
        let tx = (0..2)
            .map(|_| {
                let (tx, rx) = std::sync::mpsc::channel::<Carry<Box<dyn FnOnce()>>>();
                let dtx = dtx.clone();
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn(move || {
                        crate::sig::alt_stack();
                        crate::ctx::MY_SLOT.with(|s| s.set(slot));
                        for f in rx {
                            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f.get())).is_ok();
                            let _ = dtx.send(ok);
                        }
                    })
                    .unwrap();
                tx
            })
            .collect();
        Pool { tx, done }
    }
    /// Runs f on thread t: 0 the caller, 1 and 2 the pool's, 3 a new one that ends afterwards.
    fn on(&self, t: usize, f: impl FnOnce()) -> bool {
        let b: Box<dyn FnOnce() + '_> = Box::new(f);
        // It has ended before this function returns.
        let b: Box<dyn FnOnce()> = unsafe { std::mem::transmute(b) };
        match t {
            0 => std::panic::catch_unwind(std::panic::AssertUnwindSafe(b)).is_ok(),
            1 | 2 => {
                self.tx[t - 1].send(Carry(b)).unwrap();
                self.done.recv().unwrap()
            }
            _ => {
                let c = Carry(b);
                let slot = crate::ctx::MY_SLOT.with(|s| s.get());
                std::thread::spawn(move || {
                    crate::sig::alt_stack();
                    crate::ctx::MY_SLOT.with(|s| s.set(slot));
                    c.get()()
                })
                .join()
                .is_ok()
            }
        }
    }
}

thread_local! {
    static POOL: std::cell::OnceCell<Pool> = const { std::cell::OnceCell::new() };
}

/// Case [102, kind, other kind, x]: step s of the first instance runs on thread x/4^s % 4, the second's on another.
fn handover(c: &[u64], cx: &mut Cx) -> Result<(), String> {
    let kinds = [c[1] as usize, c[2] as usize];
    let slot = cx.worker;
    POOL.with(|p| {
        let pool = p.get_or_init(|| Pool::new(slot));
        // Strictly alternating, and the second instance entirely between two steps of the first.
        for m in 0..1 + STEPS {
            let mut seq = vec![];
            for s in 0..STEPS {
                seq.push((0, s));
                if m == 0 {
                    seq.push((1, s));
                } else if m == s + 1 {
                    seq.extend((0..STEPS).map(|s| (1, s)));
                }
            }
            let mut obj = [Obj::No, Obj::No];
            let mut out = [vec![], vec![]];
            for (i, s) in seq {
                let x = (c[3] >> (2 * s)) as usize & 3;
                let t = if i == 0 { x } else { (x + 1 + s % 3) % 4 };
                let (o, w) = (&mut obj[i], &mut out[i]);
                let ok = cx.op(KINDS[kinds[i]], || pool.on(t, || act(kinds[i], i, s, o, w)))?;
                if !ok {
                    return Err(format!("step {} of {} on thread {} panicked", s, KINDS[kinds[i]], t));
                }
            }
            for i in 0..2 {
                cx.eq(&format!("steps handed from thread to thread (order {}), instance {}", m, i), &out[i], &want(kinds[i], i))?;
            }
        }
        Ok(())
    })
}

// ---- what the types promise about threads ----

struct Is<T>(std::marker::PhantomData<T>);
trait IsNot {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> IsNot for Is<T> {}
struct IsSync<T>(std::marker::PhantomData<T>);
impl<T> IsNot for IsSync<T> {}
impl<T: Send> Is<T> {
    const SEND: bool = true;
}
impl<T: Sync> IsSync<T> {
    const SYNC: bool = true;
}
const MARKS: [(&str, bool, bool); 6] = [
    ("Params", <Is<Params>>::SEND, <IsSync<Params>>::SYNC),
    ("State", <Is<State>>::SEND, <IsSync<State>>::SYNC),
    ("Hash", <Is<Hash>>::SEND, <IsSync<Hash>>::SYNC),
    ("blake2sp::Params", <Is<blake2sp::Params>>::SEND, <IsSync<blake2sp::Params>>::SYNC),
    ("blake2sp::State", <Is<blake2sp::State>>::SEND, <IsSync<blake2sp::State>>::SYNC),
    ("(harness: a pointer)", !<Is<*const u8>>::SEND, !<IsSync<*const u8>>::SYNC),
];

impl Check for C17 {
    fn enumerate(&self, th: bool, emit: &mut dyn FnMut(&[u64]) -> bool) {
        for i in 0..MARKS.len() as u64 {
            if !emit(&[103, i]) {
                return;
            }
        }
        for fam in 0..CROWDS.len() as u64 {
            let mut ns: Vec<u64> = (2..=70).collect();
            for b in [100, 128, 200, 256, 500, 512, 1000, 1024, 2048, 4096] {
                ns.extend([b, b + 1]);
            }
            if fam < 2 || fam == 3 || th {
                ns.extend([10_001, 65_537]);
            }
            for n in ns {
                for order in 0..if n < 5000 { 3 } else { 1 } {
                    if !emit(&[101, fam, n, order]) {
                        return;
                    }
                }
            }
        }
        for a in 0..KINDS.len() as u64 {
            for b in 0..KINDS.len() as u64 {
                if !th && b != a && b != (a + 1) % KINDS.len() as u64 {
                    continue;
                }
                for x in 0..256 {
                    if !emit(&[102, a, b, x]) {
                        return;
                    }
                }
            }
        }
        for fam in 0..FAMS.len() as u64 {
            let lens: &[u64] = match (fam, th) {
                (0, false) => &[0, 1, 64, 65, 130, 1100, 4161],
                (0, true) => &[0, 1, 2, 63, 64, 65, 127, 128, 129, 130, 192, 300, 1100, 4161, 20_000, 70_001],
                (1, false) => &[0, 1, 65, 512, 1100, 5000],
                (1, true) => &[0, 1, 64, 65, 449, 512, 1024, 1025, 1100, 1537, 5000, 20_000, 70_001],
                (_, false) => &[1, 64, 130, 1100],
                (_, true) => &[0, 1, 64, 65, 128, 130, 300, 1100, 4161],
            };
            let asp = aspects(fam);
            for &n in lens {
                for &a in &asp {
                    for &b in &asp {
                        // Unordered, except where one instance is the base.
                        if (a <= b || b == 0) && !(fam == 3 && !th && a > 0 && b > 0 && (a + b) % 3 != 0) && !emit(&[100, fam, n, a, b]) {
                            return;
                        }
                    }
                }
            }
        }
        let n = KINDS.len() as u64;
        for a in 0..n {
            for b in 0..=a {
                for c in 0..=b {
                    // First operation, so that the work spreads.
                    for first in 0..3 {
                        for second in 0..3 {
                            if !emit(&[a, b, c, first, second]) {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
    fn run(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        match c[0] {
            100 => {
                cx.states -= 1;
                return twins(c, cx);
            }
            101 => return crowd(c, cx),
            102 => return handover(c, cx),
            103 => {
                let m = MARKS[c[1] as usize];
                cx.traces += 1;
                return if m.1 && m.2 { Ok(()) } else { Err(format!("{}: Send {}, Sync {}", m.0, m.1, m.2)) };
            }
            _ => {}
        }
        let kinds = [c[0] as usize, c[1] as usize, c[2] as usize];
        let wants: Vec<Vec<u8>> = (0..3).map(|i| want(kinds[i], i)).collect();
        let per = STEPS;
        let mut merges: Vec<Vec<u8>> = vec![];
        fn gen(left: &mut [usize; 3], cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
            if left.iter().all(|x| *x == 0) {
                out.push(cur.clone());
                return;
            }
            for i in 0..3 {
                if left[i] > 0 {
                    left[i] -= 1;
                    cur.push(i as u8);
                    gen(left, cur, out);
                    cur.pop();
                    left[i] += 1;
                }
            }
        }
        let mut left = [per; 3];
        left[c[3] as usize] -= 1;
        left[c[4] as usize] -= 1;
        gen(&mut left, &mut vec![c[3] as u8, c[4] as u8], &mut merges);
        cx.states -= 1;
        for m in &merges {
            let mut obj = [Obj::No, Obj::No, Obj::No];
            let mut out = [vec![], vec![], vec![]];
            let mut pos = [0usize; 3];
            cx.states += 1;
            for &i in m {
                let i = i as usize;
                let (k, o, w) = (kinds[i], &mut obj[i], &mut out[i]);
                let s = pos[i];
                cx.op(KINDS[k], || act(k, i, s, o, w)).map_err(|e| format!("merge {:?}: {}", m, e))?;
                pos[i] += 1;
            }
            for i in 0..3 {
                cx.eq(&format!("merge {:?} of the operations of three instances: instance {}", m, i), &out[i], &wants[i])?;
            }
        }
        Ok(())
    }
    fn describe(&self, c: &[u64]) -> String {
        if c[0] == 100 {
            return format!("two instances ({}), {} bytes: {} | {}", FAMS[c[1] as usize], c[2], ASPECTS[c[3] as usize], ASPECTS[c[4] as usize]);
        }
        match c[0] {
            101 => return format!("{} live instances ({}), order {}", c[2], CROWDS[c[1] as usize], c[3]),
            102 => return format!("{} and {}, thread of each step {:?}", KINDS[c[1] as usize], KINDS[c[2] as usize], [c[3] & 3, c[3] >> 2 & 3, c[3] >> 4 & 3, c[3] >> 6]),
            103 => return format!("{} can be moved to and shared between threads", MARKS[c[1] as usize].0),
            _ => {}
        }
        format!("{} | {} | {}", KINDS[c[0] as usize], KINDS[c[1] as usize], KINDS[c[2] as usize])
    }
}

// ---- preemption after every instruction ----

/// Operations without allocation: each writes its digests into `out` and returns their number of bytes.
pub const OPS: [&str; 12] = [
    "blake2s", "State, all parameters", "blake2sp", "keyed blake2sp::State", "update8/finalize8", "hash8", "hash8, different lengths", "hash4_exact", "hash8_exact",
    "clone, set_last_node", "to_hex and ==", "portable State",
];
/// Larger ones, for the schedules with switches at shared memory only.
pub const BIG: [&str; 4] = ["blake2s of 4200 bytes", "keyed blake2sp::State, 5000 bytes", "update8/finalize8 of 600 bytes, keyed", "hash8_exact of 640 bytes"];
pub fn op_name(k: usize) -> &'static str {
    if k < OPS.len() { OPS[k] } else { BIG[k - OPS.len()] }
}
pub const OUT: usize = 640;

fn dd(op: usize, who: usize, from: usize, n: usize) -> &'static [u8] {
    let o = 600_000 + 50_000 * who + 3_000 * op + from;
    &data()[o..o + n]
}

struct W<'a>(&'a mut [u8; OUT], usize);
impl<'a> W<'a> {
    #[inline(always)]
    fn h(&mut self, h: &Hash) {
        self.b(h.as_bytes())
    }
    fn b(&mut self, b: &[u8]) {
        self.0[self.1..self.1 + b.len()].copy_from_slice(b);
        self.1 += b.len();
    }
}

pub fn op(k: usize, who: usize, out: &mut [u8; OUT]) -> usize {
    let mut w = W(out, 0);
    let m = |l: usize, n: usize| dd(k, who, l * 211, n);
    match k {
        0 => w.h(&blake2s(m(0, 70))),
        1 => {
            let mut p = Params::new();
            p.hash_length(20).key(m(1, 32)).salt(m(2, 8)).personal(m(3, 8)).fanout(3).max_depth(4).max_leaf_length(77).node_offset(9).node_depth(2).inner_hash_length(32);
            let mut s = p.to_state();
            s.update(m(4, 3));
            w.h(&s.finalize());
            s.update(m(4, 130));
            w.h(&s.finalize());
            w.b(&s.count().to_le_bytes());
        }
        2 => w.h(&blake2sp::blake2sp(m(0, 1100))),
        3 => {
            let mut p = blake2sp::Params::new();
            p.key(m(1, 32));
            let mut s = p.to_state();
            s.update(m(0, 600)).update(m(0, 600));
            w.h(&s.finalize());
            w.b(&s.count().to_le_bytes());
        }
        4 => {
            let p = Params::new();
            let mut st: [State; 8] = std::array::from_fn(|_| p.to_state());
            up8(&mut st, &std::array::from_fn(|l| m(l, 66)));
            for h in &fin8(&mut st) {
                w.h(h);
            }
        }
        5 | 6 => {
            let p: [Params; 8] = std::array::from_fn(|_| Params::new());
            for h in &h8(&p, &std::array::from_fn(|l| m(l, if k == 5 { 66 } else { 66 + l }))) {
                w.h(h);
            }
        }
        7 => {
            for h in &blake2s_simd::hash4_exact(&Params::new(), m(0, 64), m(1, 64), m(2, 64), m(3, 64)) {
                w.h(h);
            }
        }
        8 => {
            for h in &blake2s_simd::hash8_exact(&Params::new(), m(0, 64), m(1, 64), m(2, 64), m(3, 64), m(4, 64), m(5, 64), m(6, 64), m(7, 64)) {
                w.h(h);
            }
        }
        9 => {
            let mut s = State::new();
            s.update(m(0, 10));
            let mut t = s.clone();
            t.update(m(1, 60)).set_last_node(true);
            w.h(&s.finalize());
            w.h(&t.finalize());
        }
        10 => {
            let h = blake2s(m(0, 5));
            w.b(h.to_hex().as_bytes());
            w.b(&[(h == h) as u8, (h == *m(1, 32)) as u8]);
        }
        11 => {
            let mut s = State::new();
            bm::force_portable(&mut s);
            s.update(m(0, 70));
            w.h(&s.finalize());
        }
        12 => w.h(&blake2s(m(0, 4200))),
        13 => {
            let mut p = blake2sp::Params::new();
            p.key(m(1, 32));
            let mut s = p.to_state();
            s.update(m(0, 100)).update(m(0, 4900));
            w.h(&s.finalize());
        }
        14 => {
            let mut p = Params::new();
            p.key(m(1, 32));
            let mut st: [State; 8] = std::array::from_fn(|_| p.to_state());
            up8(&mut st, &std::array::from_fn(|l| m(l, 600)));
            for h in &fin8(&mut st) {
                w.h(h);
            }
        }
        _ => {
            for h in &blake2s_simd::hash8_exact(&Params::new(), m(0, 640), m(1, 640), m(2, 640), m(3, 640), m(4, 640), m(5, 640), m(6, 640), m(7, 640)) {
                w.h(h);
            }
        }
    }
    w.1
}

pub fn op_want(k: usize, who: usize) -> Vec<u8> {
    let m = |l: usize, n: usize| dd(k, who, l * 211, n);
    let def = pk(0);
    let mut o = vec![];
    match k {
        0 | 11 => o = def.hash(m(0, 70)),
        1 => {
            let r = RP {
                out: 20, key: m(1, 32).to_vec(), salt: m(2, 8).to_vec(), personal: m(3, 8).to_vec(), fanout: 3, depth: 4, leaf: 77, noff: 9, ndepth: 2, inner: 32, last: false,
            };
            o.extend(r.hash(m(4, 3)));
            let mut x = m(4, 3).to_vec();
            x.extend_from_slice(m(4, 130));
            o.extend(r.hash(&x));
            o.extend_from_slice(&133u64.to_le_bytes());
        }
        2 => o = refm::blake2sp(32, &[], m(0, 1100)),
        3 => {
            let mut x = m(0, 600).to_vec();
            x.extend_from_slice(m(0, 600));
            o = refm::blake2sp(32, m(1, 32), &x);
            o.extend_from_slice(&1200u64.to_le_bytes());
        }
        4 | 5 => (0..8).for_each(|l| o.extend(def.hash(m(l, 66)))),
        6 => (0..8).for_each(|l| o.extend(def.hash(m(l, 66 + l)))),
        7 => (0..4).for_each(|l| o.extend(def.hash(m(l, 64)))),
        8 => (0..8).for_each(|l| o.extend(def.hash(m(l, 64)))),
        9 => {
            o.extend(def.hash(m(0, 10)));
            let mut x = m(0, 10).to_vec();
            x.extend_from_slice(m(1, 60));
            let mut r = pk(0);
            r.last = true;
            o.extend(r.hash(&x));
        }
        10 => {
            o.extend(hex(&def.hash(m(0, 5))).into_bytes());
            o.extend_from_slice(&[1, 0]);
        }
        12 => o = def.hash(m(0, 4200)),
        13 => o = refm::blake2sp(32, m(1, 32), &[m(0, 100), m(0, 4900)].concat()),
        14 => (0..8).for_each(|l| {
            let mut r = pk(0);
            r.key = m(1, 32).to_vec();
            o.extend(r.hash(m(l, 600)))
        }),
        _ => (0..8).for_each(|l| o.extend(def.hash(m(l, 640)))),
    }
    o
}

/// Shared with the forked processes.
#[repr(C)]
struct Shared {
    code: u64, // 0 fine, 1 A wrong, 2 B wrong, 3 A panicked, 4 B panicked, 5 does not end, 6 wrong afterwards
    bop: u64,
    blocked: u64,
    got: [u8; 32],
    count: u64,
}

static mut SHARED: *mut Shared = std::ptr::null_mut();
static mut AT: (u64, u64) = (0, 1); // shard, shards
static mut CHILD: bool = false;
static mut POINTS: u64 = 0;
static mut BLOCKED: u64 = 0;
static mut BAD: Option<(u64, String)> = None;
static mut WANT_A: Vec<Vec<u8>> = vec![];
static mut WANT_B: Vec<Vec<u8>> = vec![];
static mut BOPS: Vec<usize> = vec![];
static BDONE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn sh() -> &'static mut Shared {
    unsafe { &mut *SHARED }
}

extern "C" fn thread_b(_: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        for &k in (*(&raw const BOPS)).iter() {
            let mut out = [0u8; OUT];
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| op(k, 1, &mut out)));
            let w = &(&(*(&raw const WANT_B)))[k];
            let bad = match r {
                Err(_) => 4,
                Ok(n) if out[..n] == w[..] => 0,
                Ok(_) => 2,
            };
            if bad != 0 {
                sh().code = bad;
                sh().bop = k as u64;
                sh().got.copy_from_slice(&out[..32]);
                break;
            }
        }
        BDONE.store(true, std::sync::atomic::Ordering::SeqCst);
    }
    std::ptr::null_mut()
}

fn wait_b(ms: u64) -> bool {
    let t = std::time::Instant::now();
    let mut n = 0u32;
    while !BDONE.load(std::sync::atomic::Ordering::SeqCst) {
        if t.elapsed().as_millis() as u64 > ms {
            return false;
        }
        n += 1;
        if n < 50 {
            unsafe { libc::sched_yield() };
        } else {
            std::thread::sleep(std::time::Duration::from_micros(20));
        }
    }
    true
}

/// After every instruction of A: this shard's points fork.
fn hook(n: u64) -> bool {
    unsafe {
        if n % AT.1 != AT.0 || (*(&raw const BAD)).is_some() || crate::ctx::late() {
            return false;
        }
        POINTS += 1;
        sh().code = 5;
        sh().blocked = 0;
        sh().count = n;
        let pid = libc::fork();
        if pid == 0 {
            CHILD = true;
            libc::alarm(30);
            sh().code = 0;
            let mut t: libc::pthread_t = std::mem::zeroed();
            if libc::pthread_create(&mut t, std::ptr::null(), thread_b, std::ptr::null_mut()) != 0 {
                libc::_exit(9);
            }
            // After many such waits a shorter one will do: letting A go on too early is only another schedule.
            if !wait_b(if BLOCKED < 40 { 100 } else { 8 }) {
                // B waits for something A holds: let A go on.
                sh().blocked = 1;
            }
            return true;
        }
        let mut st = 0;
        if pid < 0 || libc::waitpid(pid, &mut st, 0) != pid {
            println!("HARNESS fork failed");
            libc::_exit(72);
        }
        BLOCKED += sh().blocked;
        let what = if libc::WIFSIGNALED(st) {
            if libc::WTERMSIG(st) == libc::SIGALRM {
                Some("does not end".to_string())
            } else {
                Some(format!("ended with signal {}", libc::WTERMSIG(st)))
            }
        } else {
            match (libc::WEXITSTATUS(st), sh().code) {
                (0, 0) => None,
                (0, c) => Some(format!(
                    "{}, first bytes {}",
                    match c {
                        1 => "A's result is wrong".to_string(),
                        2 => format!("B's result of {} is wrong", OPS[sh().bop as usize]),
                        3 => "A panicked".to_string(),
                        6 => format!("afterwards {} is wrong", OPS[sh().bop as usize]),
                        _ => format!("B panicked in {}", OPS[sh().bop as usize]),
                    },
                    hex(&sh().got)
                )),
                (70 | 71, _) => Some("crashed".to_string()),
                (e, _) => {
                    println!("HARNESS child exit {}", e);
                    libc::_exit(72);
                }
            }
        };
        if let Some(w) = what {
            BAD = Some((n, w));
        }
        false
    }
}

/// One traced run of operation k by A; returns the number of instructions, or what went wrong.
fn traced_op(k: usize) -> (u64, Option<String>) {
    unsafe {
        let mut out = [0u8; OUT];
        let (r, n, _) = step::traced(Some(hook), None, || op(k, 0, &mut out));
        let w = &(&(*(&raw const WANT_A)))[k];
        let ok = match &r {
            Err(_) => 3,
            Ok(m) if out[..*m] == w[..] => 0,
            Ok(_) => 1,
        };
        if CHILD {
            if !wait_b(10_000) {
                libc::pause();
            }
            if sh().code == 0 && ok != 0 {
                sh().code = ok;
                sh().got.copy_from_slice(&out[..32]);
            }
            if sh().code == 0 && sh().blocked == 0 {
                if let Some(k) = crate::c::races::afterwards() {
                    sh().code = 6;
                    sh().bop = k as u64;
                }
            }
            libc::_exit(0);
        }
        (n, if ok == 0 { None } else { Some(format!("alone, {} is wrong: {}", OPS[k], hex(&out[..32]))) })
    }
}

/// The two-thread part, in a process with one thread that has not used the library. `only`: (cold, A, B, instruction).
pub fn steps(thorough: bool, shard: u64, nshards: u64) -> crate::ctx::Merged {
    step::install();
    let mut m = crate::ctx::Merged { states: 0, transitions: 0, traces: 0, outcomes: 0, viol: vec![], samples: vec![], notes: Default::default() };
    unsafe {
        SHARED = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut Shared;
        assert!(SHARED as isize != -1);
        AT = (shard, nshards);
        WANT_A = (0..OPS.len()).map(|k| op_want(k, 0)).collect();
        crate::c::races::set_wants();
        WANT_B = (0..OPS.len()).map(|k| op_want(k, 1)).collect();
        let bsets: Vec<Vec<usize>> = if thorough {
            std::iter::once((0..OPS.len()).collect()).chain((0..OPS.len()).map(|k| vec![k])).collect()
        } else {
            vec![(0..OPS.len()).collect()]
        };
        let lens = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut u64;
        'all: for cold in [true, false] {
            if !cold {
                for k in 0..OPS.len() {
                    let mut o = [0u8; OUT];
                    op(k, 0, &mut o);
                }
            }
            for (bi, bs) in bsets.iter().enumerate() {
                BOPS = bs.clone();
                for k in 0..OPS.len() {
                    // A cold run must not warm this process: it happens in a copy, which reports through shared memory.
                    let msg = lens.add(64) as *mut u8;
                    std::ptr::write_bytes(lens, 0, 512);
                    let work = |out: *mut u64| {
                        POINTS = 0;
                        BLOCKED = 0;
                        BAD = None;
                        let (n, e) = traced_op(k);
                        *out = n;
                        *out.add(1) = POINTS;
                        *out.add(2) = BLOCKED;
                        let e = match (&*(&raw const BAD), e) {
                            (Some((at, w)), _) => {
                                *out.add(3) = *at;
                                Some(w.clone())
                            }
                            (None, e) => e,
                        };
                        if let Some(w) = e {
                            *out.add(4) = w.len().min(400) as u64;
                            std::ptr::copy_nonoverlapping(w.as_ptr(), msg, w.len().min(400));
                        }
                    };
                    if cold {
                        let pid = libc::fork();
                        if pid == 0 {
                            work(lens);
                            libc::_exit(0);
                        }
                        let mut st = 0;
                        libc::waitpid(pid, &mut st, 0);
                        if st != 0 {
                            m.viol.push(crate::ctx::Violation { case: vec![1, bi as u64, k as u64], msg: format!("{} (first use) ended with status {:#x} under single-stepping", OPS[k], st) });
                            break 'all;
                        }
                    } else {
                        work(lens);
                    }
                    m.states += *lens.add(1);
                    m.transitions += *lens;
                    m.traces += *lens.add(1) * (1 + bs.len() as u64);
                    *m.notes.entry("B waited for A".into()).or_insert(0) += *lens.add(2);
                    if shard == 0 && bi == 0 {
                        m.samples.push(format!("{} {}: {} instructions, each followed by every operation on another thread", OPS[k], if cold { "as first use" } else { "warm" }, *lens));
                    }
                    let ml = *lens.add(4) as usize;
                    if ml > 0 {
                        let w = String::from_utf8_lossy(std::slice::from_raw_parts(msg, ml)).to_string();
                        m.viol.push(crate::ctx::Violation {
                            case: vec![cold as u64, bi as u64, k as u64, *lens.add(3)],
                            msg: format!("thread A in {}{} preempted after instruction {}, thread B runs its operations: {}", OPS[k], if cold { " (first use in the process)" } else { "" }, *lens.add(3), w),
                        });
                        break 'all;
                    }
                }
            }
        }
    }
    m.outcomes = OPS.len() as u64 * 2;
    m
}
