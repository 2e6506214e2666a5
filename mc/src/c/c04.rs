//! C04: builder call sequences and argument domains.
//! Case: [which (0 blake2s, 1 blake2sp), (op, arg)*]. The last call may be one that must panic.
use crate::bfs::Mode;
use crate::c::long;
use crate::ctx::{Check, Cx};
use crate::p::{self, bytes};
use crate::refm::{self, RP};
use blake2s_simd::{blake2sp, Hash, Params, State};

pub struct C04;

const NAMES: [&str; 14] = ["hash_length", "key", "salt", "personal", "fanout", "max_depth", "max_leaf_length", "node_offset", "node_depth", "inner_hash_length", "last_node", "clone", "to_state", "clone_from"];
const CLONE: u64 = 11;
const TO_STATE: u64 = 12;
/// clone_from onto a builder with everything set, which then replaces the current one.
const CLONE_FROM: u64 = 13;

/// Byte-string arguments: kind << 32 | length.
fn ba(kind: u64, len: u64) -> u64 {
    kind << 32 | len
}
fn bytes_of(arg: u64) -> Vec<u8> {
    bytes(arg >> 32, (arg & 0xffff_ffff) as usize)
}

fn legal(op: u64, a: u64) -> bool {
    match op {
        0 => (1..=32).contains(&a),
        1 => a & 0xffff_ffff <= 32,
        2 | 3 => a & 0xffff_ffff <= 8,
        5 => a != 0,
        7 => a < 1 << 48,
        9 => a <= 32,
        _ => true,
    }
}

fn model(r: &mut RP, op: u64, a: u64) {
    match op {
        0 => r.out = a as u8,
        1 => r.key = bytes_of(a),
        2 => r.salt = bytes_of(a),
        3 => r.personal = bytes_of(a),
        4 => r.fanout = a as u8,
        5 => r.depth = a as u8,
        6 => r.leaf = a as u32,
        7 => r.noff = a,
        8 => r.ndepth = a as u8,
        9 => r.inner = a as u8,
        10 => r.last = a != 0,
        _ => {}
    }
}

fn call(p: &mut Params, op: u64, a: u64) {
    match op {
        0 => p.hash_length(a as usize),
        1 => p.key(&bytes_of(a)),
        2 => p.salt(&bytes_of(a)),
        3 => p.personal(&bytes_of(a)),
        4 => p.fanout(a as u8),
        5 => p.max_depth(a as u8),
        6 => p.max_leaf_length(a as u32),
        7 => p.node_offset(a),
        8 => p.node_depth(a as u8),
        9 => p.inner_hash_length(a as usize),
        _ => p.last_node(a != 0),
    };
}

/// A small alphabet of calls, including illegal ones.
fn alphabet() -> Vec<(u64, u64)> {
    vec![
        (0, 1), (0, 20), (0, 32), (0, 33),
        (1, 0), (1, ba(0, 1)), (1, ba(2, 8)), (1, ba(3, 31)), (1, ba(0, 32)), (1, ba(1, 32)), (1, ba(0, 33)),
        (2, 0), (2, ba(0, 1)), (2, ba(2, 8)), (2, ba(3, 5)), (2, ba(0, 9)),
        (3, 0), (3, ba(0, 1)), (3, ba(2, 8)), (3, ba(3, 5)), (3, ba(0, 9)),
        (4, 0), (4, 1), (4, 255),
        (5, 1), (5, 255), (5, 0),
        (6, 0), (6, 0xffff_ffff), (6, 0x0102_0304),
        (7, 0), (7, 0xffff_ffff_ffff), (7, 0x0102_0304_0506), (7, 1 << 48),
        (8, 0), (8, 255), (8, 1),
        (9, 0), (9, 32), (9, 33),
        (10, 0), (10, 1),
        (CLONE, 0), (TO_STATE, 0), (CLONE_FROM, 0),
    ]
}
fn small_alphabet() -> Vec<(u64, u64)> {
    vec![
        (0, 20), (1, ba(1, 32)), (1, ba(2, 8)), (2, ba(2, 8)), (2, ba(3, 3)), (3, ba(3, 5)), (4, 7), (5, 9), (6, 0x0102_0304), (7, 0x0102_0304_0506), (8, 3), (9, 17), (10, 1),
        (CLONE_FROM, 0), (TO_STATE, 0),
    ]
}
fn sp_alphabet() -> Vec<(u64, u64)> {
    vec![
        (0, 1), (0, 20), (0, 31), (0, 32), (0, 0), (0, 33),
        (1, 0), (1, ba(0, 1)), (1, ba(2, 8)), (1, ba(3, 31)), (1, ba(0, 32)), (1, ba(1, 32)), (1, ba(1, 1)), (1, ba(0, 33)),
        (TO_STATE, 0),
    ]
}

fn domain(op: u64) -> Vec<u64> {
    let wrap: Vec<u64> = [8u32, 16, 24, 31, 32, 33, 40, 48, 56, 62, 63]
        .iter()
        .flat_map(|&k| (0..=33u64).map(move |d| (1u64 << k).wrapping_add(d)))
        .chain((0..40).map(|d| u64::MAX - d))
        .chain((0..=64).map(|d| i64::MAX as u64 - d))
        .collect();
    match op {
        0 | 9 => (0..1200).chain(wrap).collect(),
        1 => (0..1200u64).chain([65535, 65536, 65537, 65536 + 32, 1 << 20]).collect(),
        2 | 3 => (0..1200u64).chain([65535, 65536, 65537, 65536 + 8, 1 << 20]).collect(),
        4 | 5 | 8 => (0..256).collect(),
        6 => (0..32).map(|i| 1 << i).chain(0..600).chain((0..600).map(|d| 0xffff_ffff - d)).collect(),
        7 => {
            let mut v: Vec<u64> = (0..64).map(|i| 1 << i).collect();
            v.extend((0..64).map(|i| (1u64 << i) - 1));
            v.extend((0..300).map(|d| (1 << 48) - 150 + d));
            for i in 48..64 {
                for j in 0..64 {
                    v.push(1 << i | 1 << j);
                }
                v.push(u64::MAX << i);
            }
            v.push(u64::MAX);
            v
        }
        10 => vec![0, 1],
        _ => vec![],
    }
}

impl Check for C04 {
    fn long(&self) -> (&'static [u64], Mode) {
        (&[long::BUILD], Mode::Digest)
    }
    fn enumerate(&self, th: bool, emit: &mut dyn FnMut(&[u64]) -> bool) {
        // Argument domains, on a fresh builder and after other calls.
        for op in 0..11u64 {
            for a in domain(op) {
                for pre in 0..3 {
                    let mut c = vec![0];
                    match pre {
                        1 => c.extend_from_slice(&[0, 17, 1, ba(2, 32), 2, ba(2, 8), 3, ba(2, 8), 5, 9, 7, 0xffff_ffff_ffff, 9, 31]),
                        2 => c.extend_from_slice(&[op, match op {
                            0 | 5 => 2,
                            _ => 1,
                        }]),
                        _ => {}
                    }
                    c.extend_from_slice(&[op, a]);
                    if !emit(&c) {
                        return;
                    }
                }
                if op < 2 {
                    for pre in 0..2 {
                        let mut c = vec![1];
                        if pre == 1 {
                            c.extend_from_slice(&[0, 17, 1, ba(2, 32)]);
                        }
                        c.extend_from_slice(&[op, a]);
                        if !emit(&c) {
                            return;
                        }
                    }
                }
            }
        }
        // Every ordered pair of lengths for the byte strings, with different contents: nothing old remains.
        for op in 1..4u64 {
            let m = if op == 1 { 32 } else { 8 };
            for a in 0..=m {
                for b in 0..=m {
                    for (ka, kb) in [(2, 0), (0, 1), (0, 3), (3, 0)] {
                        if !emit(&[0, op, ba(ka, a), op, ba(kb, b)]) || (op == 1 && !emit(&[1, op, ba(ka, a), op, ba(kb, b)])) {
                            return;
                        }
                    }
                }
            }
        }
        // Every sequence of calls up to the depth: of the whole alphabets, and longer ones of one or two values each.
        for (which, al, depth) in [
            (0u64, alphabet(), if th { 4 } else { 3 }),
            (0, small_alphabet(), if th { 6 } else { 5 }),
            (1, sp_alphabet(), if th { 6 } else { 4 }),
            (1, vec![(0, 20), (0, 32), (1, 0), (1, ba(2, 8)), (1, ba(1, 32)), (TO_STATE, 0)], if th { 8 } else { 6 }),
        ] {
            let mut idx = vec![0usize; 1];
            // Odometer over all sequences of length 1..=depth, with refused calls in any place.
            'outer: loop {
                let mut c = vec![which];
                for &x in &idx {
                    c.extend_from_slice(&[al[x].0, al[x].1]);
                }
                if !emit(&c) {
                    return;
                }
                // Next sequence: extend if possible, else increment.
                if idx.len() < depth {
                    idx.push(0);
                    continue;
                }
                loop {
                    match idx.pop() {
                        None => break 'outer,
                        Some(x) if x + 1 < al.len() => {
                            idx.push(x + 1);
                            break;
                        }
                        _ => {}
                    }
                }
            }
        }
    }

    fn run(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        let msg = bytes(0, 70);
        if c[0] == 0 {
            let mut p = cx.op("Params::new", Params::new)?;
            let mut r = RP::default();
            let mut states: Vec<(State, RP)> = vec![];
            let mut originals: Vec<(Params, RP)> = vec![];
            for x in c[1..].chunks(2) {
                let (op, a) = (x[0], x[1]);
                if op == CLONE {
                    let q = cx.op("clone", || p.clone())?;
                    originals.push((std::mem::replace(&mut p, q), r.clone()));
                } else if op == CLONE_FROM {
                    let mut q = p::build(&p::rp(&p::MAXED), 0);
                    cx.op("clone_from", || q.clone_from(&p))?;
                    originals.push((std::mem::replace(&mut p, q), r.clone()));
                } else if op == TO_STATE {
                    states.push((cx.op("to_state", || p.to_state())?, r.clone()));
                } else if legal(op, a) {
                    cx.op(&format!("{}({})", NAMES[op as usize], show(op, a)), || call(&mut p, op, a))?;
                    model(&mut r, op, a);
                } else {
                    // Refused, and the builder goes on with what it had.
                    cx.must_panic(&format!("{}({})", NAMES[op as usize], show(op, a)), || call(&mut p, op, a))?;
                }
            }
            states.push((cx.op("to_state", || p.to_state())?, r.clone()));
            states.push((cx.op("to_state", || p.to_state())?, r));
            for (q, r) in originals {
                states.push((cx.op("to_state", || q.to_state())?, r));
            }
            for (mut s, r) in states {
                let h: Hash = cx.op("hash", || s.update(&msg).finalize())?;
                let w = r.hash(&msg);
                cx.eq("digest under the values set last", h.as_bytes(), &w)?;
            }
        } else {
            let mut p = cx.op("Params::new", blake2sp::Params::new)?;
            let (mut out, mut key) = (32u8, vec![]);
            let mut states: Vec<(blake2sp::State, u8, Vec<u8>)> = vec![];
            for x in c[1..].chunks(2) {
                let (op, a) = (x[0], x[1]);
                let mut f = || match op {
                    0 => {
                        p.hash_length(a as usize);
                    }
                    _ => {
                        p.key(&bytes_of(a));
                    }
                };
                if op == TO_STATE {
                    states.push((cx.op("to_state", || p.to_state())?, out, key.clone()));
                } else if legal(op, a) {
                    cx.op(&format!("{}({})", NAMES[op as usize], show(op, a)), f)?;
                    match op {
                        0 => out = a as u8,
                        _ => key = bytes_of(a),
                    }
                } else {
                    cx.must_panic(&format!("blake2sp {}({})", NAMES[op as usize], show(op, a)), &mut f)?;
                }
            }
            states.push((cx.op("to_state", || p.to_state())?, out, key.clone()));
            states.push((cx.op("to_state", || p.to_state())?, out, key));
            for (mut s, out, key) in states {
                let h: Hash = cx.op("hash", || s.update(&msg).finalize())?;
                let w = refm::blake2sp(out, &key, &msg);
                cx.eq("digest under the values set last", h.as_bytes(), &w)?;
            }
        }
        Ok(())
    }

    fn describe(&self, c: &[u64]) -> String {
        let mut s = String::from(if c[0] == 0 { "blake2s::Params" } else { "blake2sp::Params" });
        for x in c[1..].chunks(2) {
            s += &format!(".{}({})", NAMES[x[0] as usize], show(x[0], x[1]));
        }
        s
    }
}

fn show(op: u64, a: u64) -> String {
    match op {
        1..=3 => format!("{} bytes {}", a & 0xffff_ffff, p::kind_name(a >> 32)),
        _ => format!("{:#x}", a),
    }
}
