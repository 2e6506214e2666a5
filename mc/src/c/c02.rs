//! C02: parameter block. Case: 14 parameter numbers, via (0 Params::last_node, 1 set_last_node), order, msglen.
use crate::ctx::{Check, Cx};
use crate::p::{self, *};

pub struct C02;

fn classes(th: bool) -> Vec<Vec<u64>> {
    let mut v: Vec<Vec<u64>> = vec![
        vec![1, 2, 16, 31, 32],
        vec![0, 1, 4, 31, 32],
        vec![0, 1, 2, 4],
        vec![0, 1, 3, 4, 5, 7, 8],
        vec![0, 1, 2, 3],
        vec![0, 1, 3, 4, 5, 7, 8],
        vec![0, 1, 2, 3],
        vec![0, 1, 2, 127, 128, 255],
        vec![1, 2, 127, 128, 255],
        vec![0, 1, 0xff, 0x100, 0x8000, 0xffff, 0x10000, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff],
        vec![0, 1, 0xff, 0x100, 0xffff, 0x10000, 0x80000000, 0xffffffff, 0x100000000, 0xffffffffff, 0x10000000000, 0x800000000000, 0xffffffffffff],
        vec![0, 1, 2, 127, 128, 255],
        vec![0, 1, 31, 32],
        vec![0, 1],
    ];
    if th {
        v[OUT] = (1..=32).collect();
        v[KLEN] = (0..=32).collect();
        v[SLEN] = (0..=8).collect();
        v[PLEN] = (0..=8).collect();
        v[INNER] = (0..=32).collect();
    }
    v
}

impl Check for C02 {
    fn enumerate(&self, th: bool, emit: &mut dyn FnMut(&[u64]) -> bool) {
        let msgs: &[u64] = &[0, 1, 64, 65, 129];
        let go = |c: &[u64; NP], via: u64, ord: u64, n: u64, emit: &mut dyn FnMut(&[u64]) -> bool| {
            let mut v = c.to_vec();
            v.extend_from_slice(&[via, ord, n]);
            emit(&v)
        };
        let bases = [DEFAULT, BUSY, MAXED, BUSYU];
        // Whole domain of each single parameter, over several bases.
        for b in &bases {
            for f in 0..NP {
                let dom: Vec<u64> = match f {
                    OUT => (1..=32).collect(),
                    KLEN => (0..=32).collect(),
                    SLEN | PLEN => (0..=8).collect(),
                    KKIND => (0..=5).chain(16..16 + 256).chain(4096..4096 + 256).collect(),
                    SKIND | PKIND => (0..=5).chain(16..16 + 64).chain(4096..4096 + 256).chain(8192..8192 + 8 * 256).collect(),
                    FANOUT | NDEPTH => (0..=255).collect(),
                    DEPTH => (1..=255).collect(),
                    LEAF => {
                        let mut v: Vec<u64> = (0..32).map(|i| 1 << i).collect();
                        v.extend((0..32).map(|i| 0xffffffffu64 ^ (1 << i)));
                        v.extend((0..=32).map(|i| ((1u64 << i) - 1) as u64));
                        v.extend(0..=if th { 70000 } else { 1100 });
                        v
                    }
                    NOFF => {
                        let mut v: Vec<u64> = (0..48).map(|i| 1 << i).collect();
                        v.extend((0..48).map(|i| 0xffffffffffffu64 ^ (1 << i)));
                        v.extend((0..=48).map(|i| (1u64 << i) - 1));
                        for i in 0..48u64 {
                            for j in 0..i {
                                v.push(1 << i | 1 << j);
                            }
                        }
                        v.extend(0..=if th { 70000 } else { 1100 });
                        v
                    }
                    INNER => (0..=32).collect(),
                    _ => vec![0, 1],
                };
                for x in dom {
                    let mut c = *b;
                    c[f] = x;
                    // Kinds need a non-zero length to mean anything.
                    if f == KKIND && c[KLEN] == 0 {
                        c[KLEN] = 32;
                    }
                    if f == SKIND && c[SLEN] == 0 {
                        c[SLEN] = 8;
                    }
                    if f == PKIND && c[PLEN] == 0 {
                        c[PLEN] = 8;
                    }
                    for &n in msgs {
                        for via in 0..2 {
                            if !go(&c, via, 0, n, emit) {
                                return;
                            }
                        }
                    }
                }
            }
        }
        // All values of every 16 bits of the wide parameters.
        for b in if th { &bases[..] } else { &bases[..1] } {
            for x in 0..65536u64 {
                for (f, len, halves) in [(LEAF, LEAF, 2), (NOFF, NOFF, 3), (SKIND, SLEN, 4), (PKIND, PLEN, 4)] {
                    for h in 0..halves {
                        let mut c = *b;
                        c[f] = x << (16 * h) | (b[f] & !(0xffff << (16 * h)));
                        if f != len {
                            c[f] = 1 << 27 | (h / 2) << 20 | (h % 2) << 16 | x;
                            c[len] = 8;
                        }
                        if !go(&c, 0, 0, 65, emit) {
                            return;
                        }
                    }
                }
            }
        }
        for i in 0..32u64 {
            for j in 0..i {
                let mut c = DEFAULT;
                c[LEAF] = 1 << i | 1 << j;
                if !go(&c, 0, 0, 65, emit) {
                    return;
                }
            }
        }
        // All pairs of class values of every two parameters, over several bases.
        let cl = classes(th);
        for b in &bases {
            for f in 0..NP {
                for g in 0..f {
                    for &x in &cl[f] {
                        for &y in &cl[g] {
                            let mut c = *b;
                            c[f] = x;
                            c[g] = y;
                            for &n in &[0u64, 65] {
                                if !go(&c, 0, 0, n, emit) {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
        // All triples.
        let small = classes(false);
        for b in &bases {
            for f in 0..NP {
                for g in 0..f {
                    for e in 0..g {
                        for &x in &small[f] {
                            for &y in &small[g] {
                                for &z in &small[e] {
                                    let mut c = *b;
                                    c[f] = x;
                                    c[g] = y;
                                    c[e] = z;
                                    if !go(&c, 0, 0, 65, emit) {
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        // All quadruples (quick: of the extreme values).
        let four: Vec<Vec<u64>> = if th { small } else { small.iter().map(|v| if v.len() > 3 { vec![v[0], v[v.len() / 2], v[v.len() - 1]] } else { v.clone() }).collect() };
        for b in &bases[..2] {
            for f in 0..NP {
                for g in 0..f {
                    for e in 0..g {
                        for d in 0..e {
                            for &x in &four[f] {
                                for &y in &four[g] {
                                    for &z in &four[e] {
                                        for &w in &four[d] {
                                            let mut c = *b;
                                            c[f] = x;
                                            c[g] = y;
                                            c[e] = z;
                                            c[d] = w;
                                            if !go(&c, 0, 0, 3, emit) {
                                                return;
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        // All assignments of two values.
        for (x, y) in [(DEFAULT, BUSY), (DEFAULT, MAXED), (BUSY, MAXED)] {
            for m in 0..1u64 << NP {
                let c: [u64; NP] = std::array::from_fn(|i| if m >> i & 1 != 0 { y[i] } else { x[i] });
                for &n in &[0u64, 64] {
                    for via in 0..2 {
                        if !go(&c, via, if via == 1 { 999 } else { 0 }, n, emit) {
                            return;
                        }
                    }
                }
            }
        }
        // Setter orders, and setting only what differs from the default (order 999).
        for b in &bases {
            for o in (0..13 + 121).chain([999]) {
                for &n in msgs {
                    for via in 0..2 {
                        if !go(b, via, o, n, emit) {
                            return;
                        }
                    }
                }
            }
        }
    }

    fn run(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        let r = rp(c);
        let (via, ord, n) = (c[NP], c[NP + 1], c[NP + 2] as usize);
        let msg = bytes(3, n);
        let h = cx.op("hash with parameters", || {
            let mut b = r.clone();
            if via == 1 {
                b.last = !r.last;
            }
            let p = if ord == 999 { build_min(&b) } else { build(&b, ord) };
            let mut s = p.to_state();
            if via == 1 {
                s.set_last_node(r.last);
            }
            s.update(&msg).finalize()
        })?;
        let want = r.hash(&msg);
        cx.eq("digest", h.as_bytes(), &want)
    }

    fn describe(&self, c: &[u64]) -> String {
        format!("{}via {} order {} message length {}", p::describe(c), c[NP], c[NP + 1], c[NP + 2])
    }
}
