//! The reference model: BLAKE2s and BLAKE2sp transcribed from RFC 7693 and the BLAKE2 paper, with no
//! buffering, no SIMD and no sharing with the code under test. `run.py` compares it with Python's
//! hashlib (and a second, pure-Python transcription for the tree mode) in every run.

use alloc::{vec, vec::Vec};

pub const IV: [u32; 8] = [
    0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19,
];
pub const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
/// (a, b, c, d) of the eight G applications of a round.
pub const LANES: [[usize; 4]; 8] = [
    [0, 4, 8, 12],
    [1, 5, 9, 13],
    [2, 6, 10, 14],
    [3, 7, 11, 15],
    [0, 5, 10, 15],
    [1, 6, 11, 12],
    [2, 7, 8, 13],
    [3, 4, 9, 14],
];

pub fn compress(h: &mut [u32; 8], block: &[u8; 64], t: u64, last: bool, last_node: bool) {
    let mut m = [0u32; 16];
    for i in 0..16 {
        m[i] = block[4 * i] as u32
            | (block[4 * i + 1] as u32) << 8
            | (block[4 * i + 2] as u32) << 16
            | (block[4 * i + 3] as u32) << 24;
    }
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= t as u32;
    v[13] ^= (t >> 32) as u32;
    if last {
        v[14] = !v[14];
    }
    if last_node {
        v[15] = !v[15];
    }
    for s in &SIGMA {
        for (i, &[a, b, c, d]) in LANES.iter().enumerate() {
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(m[s[2 * i]]);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(12);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(m[s[2 * i + 1]]);
            v[d] = (v[d] ^ v[a]).rotate_right(8);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(7);
        }
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RP {
    pub out: u8,
    pub key: Vec<u8>,
    pub salt: Vec<u8>,
    pub personal: Vec<u8>,
    pub fanout: u8,
    pub depth: u8,
    pub leaf: u32,
    pub noff: u64,
    pub ndepth: u8,
    pub inner: u8,
    pub last: bool,
}

impl Default for RP {
    fn default() -> Self {
        RP { out: 32, key: vec![], salt: vec![], personal: vec![], fanout: 1, depth: 1, leaf: 0, noff: 0, ndepth: 0, inner: 0, last: false }
    }
}

impl RP {
    /// The 32-byte parameter block, byte by byte as in the BLAKE2 paper, table 2.1.
    pub fn block(&self) -> [u8; 32] {
        let mut p = [0u8; 32];
        p[0] = self.out;
        p[1] = self.key.len() as u8;
        p[2] = self.fanout;
        p[3] = self.depth;
        p[4..8].copy_from_slice(&self.leaf.to_le_bytes());
        p[8..14].copy_from_slice(&self.noff.to_le_bytes()[..6]);
        p[14] = self.ndepth;
        p[15] = self.inner;
        p[16..16 + self.salt.len()].copy_from_slice(&self.salt);
        p[24..24 + self.personal.len()].copy_from_slice(&self.personal);
        p
    }
    pub fn h0(&self) -> [u32; 8] {
        let p = self.block();
        let mut h = IV;
        for i in 0..8 {
            h[i] ^= u32::from_le_bytes([p[4 * i], p[4 * i + 1], p[4 * i + 2], p[4 * i + 3]]);
        }
        h
    }
    pub fn state(&self) -> RS {
        let mut s = RS { h: self.h0(), t: 0, pending: Vec::with_capacity(128) };
        if !self.key.is_empty() {
            let mut k = [0u8; 64];
            k[..self.key.len()].copy_from_slice(&self.key);
            s.absorb(&k);
        }
        s
    }
    pub fn hash(&self, msg: &[u8]) -> Vec<u8> {
        let mut s = self.state();
        s.absorb(msg);
        s.digest(self.out as usize, self.last)
    }
}

/// Incremental reference state; `pending` holds at most one block.
#[derive(Clone)]
pub struct RS {
    pub h: [u32; 8],
    pub t: u64,
    pub pending: Vec<u8>,
}

impl RS {
    pub fn absorb(&mut self, mut msg: &[u8]) {
        while !msg.is_empty() {
            if self.pending.len() == 64 {
                let mut b = [0u8; 64];
                b.copy_from_slice(&self.pending);
                self.t += 64;
                compress(&mut self.h, &b, self.t, false, false);
                self.pending.clear();
            }
            let take = (64 - self.pending.len()).min(msg.len());
            self.pending.extend_from_slice(&msg[..take]);
            msg = &msg[take..];
        }
    }
    pub fn digest(&self, out: usize, last_node: bool) -> Vec<u8> {
        let mut b = [0u8; 64];
        b[..self.pending.len()].copy_from_slice(&self.pending);
        let mut h = self.h;
        compress(&mut h, &b, self.t + self.pending.len() as u64, true, last_node);
        let mut o = Vec::with_capacity(32);
        for w in &h {
            o.extend_from_slice(&w.to_le_bytes());
        }
        o.truncate(out);
        o
    }
}

pub fn sp_leaf_params(out: u8, key: &[u8], i: usize) -> RP {
    RP { out, key: key.to_vec(), fanout: 8, depth: 2, leaf: 0, noff: i as u64, ndepth: 0, inner: 32, last: i == 7, ..RP::default() }
}

/// Root digest from the eight 32-byte leaf digests.
pub fn sp_root(out: u8, keylen: usize, leaves: &[Vec<u8>]) -> Vec<u8> {
    let rp = RP { out, key: vec![0; keylen], fanout: 8, depth: 2, leaf: 0, noff: 0, ndepth: 1, inner: 32, last: true, ..RP::default() };
    // The root's parameter block has the key length, but no key block is hashed.
    let mut s = RS { h: rp.h0(), t: 0, pending: vec![] };
    for l in leaves {
        s.absorb(l);
    }
    s.digest(out as usize, true)
}

pub fn blake2sp(out: u8, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let leaves: Vec<Vec<u8>> = (0..8)
        .map(|i| {
            let mut s = sp_leaf_params(out, key, i).state();
            for c in msg.chunks(64).skip(i).step_by(8) {
                s.absorb(c);
            }
            s.digest(32, i == 7)
        })
        .collect();
    sp_root(out, key.len(), &leaves)
}

/// Digests of all prefixes data[..n], n in 0..=data.len().
pub fn prefix_table(p: &RP, data: &[u8]) -> Vec<Vec<u8>> {
    let mut s = p.state();
    let mut t = vec![s.digest(p.out as usize, p.last)];
    for b in data {
        s.absorb(core::slice::from_ref(b));
        t.push(s.digest(p.out as usize, p.last));
    }
    t
}

pub fn sp_prefix_table(out: u8, key: &[u8], data: &[u8]) -> Vec<Vec<u8>> {
    let mut ls: Vec<RS> = (0..8).map(|i| sp_leaf_params(out, key, i).state()).collect();
    let mut ds: Vec<Vec<u8>> = ls.iter().enumerate().map(|(i, s)| s.digest(32, i == 7)).collect();
    let mut t = vec![sp_root(out, key.len(), &ds)];
    for (n, b) in data.iter().enumerate() {
        let i = (n / 64) % 8;
        ls[i].absorb(core::slice::from_ref(b));
        ds[i] = ls[i].digest(32, i == 7);
        t.push(sp_root(out, key.len(), &ds));
    }
    t
}
