//! Parameter sets encoded as numbers, built for the reference (RP) and for the code under test.

use crate::ctx::data;
use crate::refm::RP;
use blake2s_simd::{Params, State};

/// Words at which a 32-bit addition, rotation or comparison changes its behaviour.
pub const WORDS: [u32; 14] = [0, 1, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 0xff, 0xffff, 0x0001_0000, 0xffff_0000, 0xff00_0000, 0x00ff_00ff, 0x5555_5555, 0x6a09_e667, 0x1f83_d9ab];

/// Byte strings (keys, salts, personalizations, messages) by kind.
/// 0 pattern A, 1 zeros, 2 ones, 3 pattern B, 4 pattern with last byte 0, 5 pattern with first byte 0,
/// 16+i: single bit i, 8192+256*pos+v: byte v at position pos (rest zero), 4096+v: every byte is v,
/// 1<<24 | i<<12 | j: bits i and j set, 1<<25 | i<<12 | j<<6 | w: pattern with words i and j set to WORDS[w], 1<<26 | x: counting from x,
/// 1<<27 | w<<20 | half<<16 | v: pattern with a half of word w set to v.
pub fn bytes(kind: u64, len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len];
    match kind {
        0 => v.copy_from_slice(&data()[..len]),
        1 => {}
        2 => v.iter_mut().for_each(|b| *b = 0xff),
        3 => v.copy_from_slice(&data()[1_000_003..1_000_003 + len]),
        4 => {
            v.copy_from_slice(&data()[..len]);
            if len > 0 {
                v[len - 1] = 0;
            }
        }
        5 => {
            v.copy_from_slice(&data()[..len]);
            if len > 0 {
                v[0] = 0;
            }
        }
        k if k & (1 << 27) != 0 => {
            v.copy_from_slice(&data()[..len]);
            let at = 4 * ((k >> 20) & 0x1f) as usize + 2 * ((k >> 16) & 1) as usize;
            if at + 2 <= len {
                v[at..at + 2].copy_from_slice(&(k as u16).to_le_bytes());
            }
        }
        k if k & (1 << 26) != 0 => v.iter_mut().enumerate().for_each(|(i, b)| *b = (i as u64 + k) as u8),
        k if k & (1 << 25) != 0 => {
            // Pattern A with words p and q replaced by a special value.
            v.copy_from_slice(&data()[..len]);
            for p in [(k >> 12) & 0x3f, (k >> 6) & 0x3f] {
                if 4 * p + 4 <= len as u64 {
                    v[4 * p as usize..4 * p as usize + 4].copy_from_slice(&WORDS[(k & 0x3f) as usize].to_le_bytes());
                }
            }
        }
        k if k & (1 << 24) != 0 => {
            for p in [(k >> 12) & 0xfff, k & 0xfff] {
                if (p / 8) < len as u64 {
                    v[(p / 8) as usize] |= 1 << (p % 8);
                }
            }
        }
        k if k >= 8192 => {
            let p = ((k - 8192) / 256) as usize;
            if p < len {
                v[p] = (k - 8192) as u8;
            }
        }
        k if k >= 4096 => v.iter_mut().for_each(|b| *b = (k - 4096) as u8),
        k => {
            let p = (k - 16) as usize;
            if p / 8 < len {
                v[p / 8] = 1 << (p % 8);
            }
        }
    }
    v
}

pub fn kind_name(kind: u64) -> String {
    match kind {
        0 => "pattern".into(),
        1 => "zeros".into(),
        2 => "0xff".into(),
        3 => "pattern2".into(),
        4 => "pattern,last=0".into(),
        5 => "pattern,first=0".into(),
        k if k & (1 << 27) != 0 => format!("pattern, half {} of word {} {:#x}", (k >> 16) & 1, (k >> 20) & 0x1f, k & 0xffff),
        k if k & (1 << 26) != 0 => format!("counting from {}", k & 255),
        k if k & (1 << 25) != 0 => format!("pattern, words {} and {} {:#x}", (k >> 12) & 0x3f, (k >> 6) & 0x3f, WORDS[(k & 0x3f) as usize]),
        k if k & (1 << 24) != 0 => format!("bits {} and {}", (k >> 12) & 0xfff, k & 0xfff),
        k if k >= 8192 => format!("byte[{}]={}", (k - 8192) / 256, (k - 8192) % 256),
        k if k >= 4096 => format!("all {}", k - 4096),
        k => format!("bit {}", k - 16),
    }
}

/// Field indices of a numeric parameter set.
pub const OUT: usize = 0;
pub const KLEN: usize = 1;
pub const KKIND: usize = 2;
pub const SLEN: usize = 3;
pub const SKIND: usize = 4;
pub const PLEN: usize = 5;
pub const PKIND: usize = 6;
pub const FANOUT: usize = 7;
pub const DEPTH: usize = 8;
pub const LEAF: usize = 9;
pub const NOFF: usize = 10;
pub const NDEPTH: usize = 11;
pub const INNER: usize = 12;
pub const LAST: usize = 13;
pub const NP: usize = 14;
pub const FIELD: [&str; NP] = ["hash_length", "key_len", "key", "salt_len", "salt", "personal_len", "personal", "fanout", "max_depth", "max_leaf_length", "node_offset", "node_depth", "inner_hash_length", "last_node"];

pub const DEFAULT: [u64; NP] = [32, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0];
pub const BUSY: [u64; NP] = [23, 21, 0, 7, 3, 6, 0, 0x9c, 0xa5, 0x87654321, 0xfedcba987654, 0xb6, 19, 1];
pub const MAXED: [u64; NP] = [32, 32, 2, 8, 2, 8, 2, 255, 255, 0xffffffff, 0xffffffffffff, 255, 32, 1];
/// Busy, but unkeyed.
pub const BUSYU: [u64; NP] = [23, 0, 0, 7, 3, 6, 0, 0x9c, 0xa5, 0x87654321, 0xfedcba987654, 0xb6, 19, 1];

/// All fields set, to zeros or the defaults: neighbours of this set differ from it in one bit of one field.
pub const PLAIN: [u64; NP] = [32, 0, 1, 8, 1, 8, 1, 1, 1, 0, 0, 0, 0, 0];

/// (field, change) pairs: byte strings get that kind, numbers are xored. The result is legal for PLAIN and for BUSYU.
pub fn neighbours(keyed: bool) -> Vec<(u64, u64)> {
    let mut v = vec![(OUT, 48), (OUT, 49), (FANOUT, 1), (FANOUT, 128), (DEPTH, 2), (DEPTH, 128), (LEAF, 1), (LEAF, 1 << 31), (NOFF, 1), (NOFF, 1 << 31), (NOFF, 1 << 32), (NOFF, 1 << 47),
        (NDEPTH, 1), (NDEPTH, 128), (INNER, 1), (INNER, 16), (LAST, 1)];
    for f in [SKIND, PKIND] {
        v.extend([16, 16 + 31, 16 + 32, 16 + 63, 8192 + 256 * 7 + 255].map(|x| (f, x)));
    }
    if keyed {
        v.extend([16, 16 + 127, 16 + 128, 16 + 255, 8192 + 256 * 31 + 255].map(|x| (KKIND, x)));
        v.extend([(KLEN, 32), (KLEN, 1), (KLEN, 31)]);
    }
    v.into_iter().map(|(f, x)| (f as u64, x)).collect()
}

pub fn neighbour(base: &[u64; NP], f: u64, x: u64) -> [u64; NP] {
    let mut p = *base;
    match f as usize {
        OUT => p[OUT] = if x == 48 { 16 } else { 1 },
        KKIND | SKIND | PKIND => p[f as usize] = x,
        f => p[f] ^= x,
    }
    p
}

pub fn rp(c: &[u64]) -> RP {
    RP {
        out: c[OUT] as u8,
        key: bytes(c[KKIND], c[KLEN] as usize),
        salt: bytes(c[SKIND], c[SLEN] as usize),
        personal: bytes(c[PKIND], c[PLEN] as usize),
        fanout: c[FANOUT] as u8,
        depth: c[DEPTH] as u8,
        leaf: c[LEAF] as u32,
        noff: c[NOFF],
        ndepth: c[NDEPTH] as u8,
        inner: c[INNER] as u8,
        last: c[LAST] != 0,
    }
}

pub const NSETTERS: usize = 11;

/// All setters.
pub fn set_all(p: &mut Params, r: &RP) {
    (0..NSETTERS).for_each(|i| set(p, r, i));
}

pub fn set(p: &mut Params, r: &RP, i: usize) {
    match i {
        0 => p.hash_length(r.out as usize),
        1 => p.key(&r.key),
        2 => p.salt(&r.salt),
        3 => p.personal(&r.personal),
        4 => p.fanout(r.fanout),
        5 => p.max_depth(r.depth),
        6 => p.max_leaf_length(r.leaf),
        7 => p.node_offset(r.noff),
        8 => p.node_depth(r.ndepth),
        9 => p.inner_hash_length(r.inner as usize),
        _ => p.last_node(r.last),
    };
}

/// Order number -> permutation of the setters: 0 forward, 1 reverse, 2..13 rotations, 13+11*i+j: i, j first.
pub fn order(n: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..NSETTERS).collect();
    match n {
        0 => {}
        1 => v.reverse(),
        n if n < 13 => v.rotate_left(n as usize - 1),
        n => {
            let (i, j) = ((n as usize - 13) / NSETTERS, (n as usize - 13) % NSETTERS);
            v.retain(|&x| x != i && x != j);
            v.insert(0, j);
            if i != j {
                v.insert(0, i);
            }
        }
    }
    v
}

pub fn build(r: &RP, ord: u64) -> Params {
    let mut p = Params::new();
    for i in order(ord) {
        set(&mut p, r, i);
    }
    p
}

/// Only the setters whose value is not the default.
pub fn build_min(r: &RP) -> Params {
    let d = RP::default();
    let mut p = Params::new();
    let need = [
        r.out != d.out, !r.key.is_empty(), !r.salt.is_empty(), !r.personal.is_empty(), r.fanout != 1, r.depth != 1,
        r.leaf != 0, r.noff != 0, r.ndepth != 0, r.inner != 0, r.last,
    ];
    for i in 0..NSETTERS {
        if need[i] {
            set(&mut p, r, i);
        }
    }
    p
}

pub fn describe(c: &[u64]) -> String {
    let mut s = String::new();
    for i in 0..NP {
        if c[i] != DEFAULT[i] {
            if i == KKIND || i == SKIND || i == PKIND {
                s += &format!("{}={} ", FIELD[i], kind_name(c[i]));
            } else {
                s += &format!("{}={:#x} ", FIELD[i], c[i]);
            }
        }
    }
    if s.is_empty() {
        s = "default ".into();
    }
    s
}

/// Small table of parameter kinds for lane shapes. Bit 3: force the portable implementation (states only).
pub const NKINDS: u64 = 8;
pub fn pk(id: u64) -> RP {
    let mut c = DEFAULT;
    match id & 7 {
        0 => {}
        1 => {
            c[KLEN] = 32;
        }
        2 => {
            c[OUT] = 17;
            c[LAST] = 1;
        }
        3 => c = BUSYU,
        4 => {
            c[KLEN] = 1;
            c[KKIND] = 1;
            c[OUT] = 1;
        }
        5 => c = MAXED,
        6 => {
            c[NOFF] = 7;
            c[FANOUT] = 8;
            c[DEPTH] = 2;
            c[INNER] = 32;
            c[LAST] = 1;
        }
        _ => c = BUSY,
    }
    rp(&c)
}
pub fn pk_keyed(id: u64) -> bool {
    matches!(id & 7, 1 | 4 | 5 | 7)
}

pub fn pk_state(id: u64) -> State {
    let mut s = build_min(&pk(id)).to_state();
    if id & 8 != 0 {
        crate::bm::force_portable(&mut s);
    }
    s
}
