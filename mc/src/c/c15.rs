//! C15: the comparison's instruction sequence. Case: [impl, len]: all difference patterns of that length are traced,
//! one instruction at a time, and the sequences compared.
//! impl: 0 Hash == [u8], 1 Hash == Hash, 2 Hash != [u8], 3 Hash != Hash.
use crate::c::c14::forge;
use crate::ctx::{hash64, Check, Cx};
use crate::step;
use blake2s_simd::Hash;
use std::hint::black_box;

pub struct C15;

#[inline(never)]
fn slice_eq(a: &Hash, b: &[u8]) -> bool {
    *a == *b
}
#[inline(never)]
fn hash_eq(a: &Hash, b: &Hash) -> bool {
    *a == *b
}
#[inline(never)]
fn slice_ne(a: &Hash, b: &[u8]) -> bool {
    *a != *b
}
#[inline(never)]
fn hash_ne(a: &Hash, b: &Hash) -> bool {
    *a != *b
}

/// Difference patterns: the xor of the two values.
fn patterns(n: usize, th: bool) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut one = |f: &dyn Fn(usize) -> u8| v.push((0..n).map(f).collect::<Vec<u8>>());
    for x in [1u8, 0x80, 0xff, 0x10] {
        for p in 0..n {
            one(&|i| if i == p { x } else { 0 });
            one(&|i| if i <= p { x } else { 0 });
            one(&|i| if i >= p { x } else { 0 });
            one(&|i| if i != p { x } else { 0 });
        }
    }
    for p in 0..n {
        for q in 0..p {
            if !th && q + 1 != p && q != 0 && p != n - 1 {
                continue;
            }
            one(&|i| if i == p { 1 } else if i == q { if th { 0x80 } else { 1 } } else { 0 });
            if th {
                one(&|i| if i == p || i == q { 1 } else { 0 });
                for r in 0..q {
                    one(&|i| if i == p || i == q || i == r { 1 } else { 0 });
                }
            }
        }
    }
    v.retain(|d| d.iter().any(|&x| x != 0));
    v.sort();
    v.dedup();
    v
}

impl Check for C15 {
    fn enumerate(&self, _th: bool, emit: &mut dyn FnMut(&[u64]) -> bool) {
        for n in (1..=32).rev() {
            for f in 0..4 {
                if !emit(&[f, n]) {
                    return;
                }
            }
        }
    }
    fn run(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        step::install();
        let n = c[1] as usize;
        let bases: Vec<Vec<u8>> = (0..3).map(|k| match k {
            0 => crate::p::bytes(3, n),
            1 => vec![0; n],
            _ => vec![0xff; n],
        }).collect();
        let mut pats = patterns(n, cx.thorough);
        pats.insert(0, vec![0; n]);
        // Fixed places: only the bytes differ between executions.
        let mut slot = Box::new([[0u8; 64]; 2]);
        let mut hs: Vec<Option<Hash>> = vec![None, None];
        // First trace and its values, for pairs that differ and for equal ones.
        let mut first: [Option<(u64, u64, String)>; 2] = [None, None];
        for (bi, base) in bases.iter().enumerate() {
            for d in &pats {
                if bi > 0 && d.iter().filter(|x| **x != 0).count() > 1 && !cx.thorough {
                    continue;
                }
                let other: Vec<u8> = base.iter().zip(d).map(|(a, b)| a ^ b).collect();
                slot[0][..n].copy_from_slice(base);
                slot[1][..n].copy_from_slice(&other);
                hs[0] = forge(base, 0)?;
                hs[1] = forge(&other, 0)?;
                let (Some(a), Some(b)) = (&hs[0], &hs[1]) else {
                    cx.note("values that could not be forged", 1);
                    continue;
                };
                let sl = &slot[1][..n];
                let differ = d.iter().any(|&x| x != 0);
                let ((r, k, h), what) = match c[0] {
                    0 => (cx.op("==", || step::traced(None, None, || black_box(slice_eq(black_box(a), black_box(sl)))))?, "Hash == [u8]"),
                    1 => (cx.op("==", || step::traced(None, None, || black_box(hash_eq(black_box(a), black_box(b)))))?, "Hash == Hash"),
                    2 => (cx.op("!=", || step::traced(None, None, || black_box(slice_ne(black_box(a), black_box(sl)))))?, "Hash != [u8]"),
                    _ => (cx.op("!=", || step::traced(None, None, || black_box(hash_ne(black_box(a), black_box(b)))))?, "Hash != Hash"),
                };
                let r = r.map_err(|_| format!("{} panicked", what))?;
                if r != ((c[0] < 2) != differ) {
                    return Err(format!("{} gave {} for a difference {:02x?}", what, r, d));
                }
                cx.traces += 1;
                cx.note("instructions traced", k);
                cx.outcomes.insert(hash64(&[c[0], c[1], h, k]));
                let desc = format!("{:02x?} vs {:02x?}", base, other);
                match &first[differ as usize] {
                    None => first[differ as usize] = Some((k, h, desc)),
                    Some((k0, h0, d0)) => {
                        if *k0 != k || *h0 != h {
                            return Err(format!("{} of {} bytes runs {} instructions for {} but {} (or others) for {}", what, n, k0, d0, k, desc));
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn describe(&self, c: &[u64]) -> String {
        format!("{} of {} bytes", ["Hash == [u8]", "Hash == Hash", "Hash != [u8]", "Hash != Hash"][c[0] as usize], c[1])
    }
}
