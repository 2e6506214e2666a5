//! The back ends, which the library shows in its doc-hidden `benchmarks` module. Where a change of the tree has taken one
//! away or given it another signature, run.py builds with the feature no_NAME: the reference stands in, and nothing is
//! decided about that back end by itself (only through the public interface; the evidence says so).
#![allow(dead_code, unused_imports, unused_variables)]
use crate::refm;
use blake2s_simd::{blake2sp, State};

type H = [u32; 8];
type B = [u8; 64];

#[cfg(not(feature = "no_words"))]
pub use blake2s_simd::AlignedWords8;
#[cfg(feature = "no_words")]
#[derive(Copy, Clone)]
#[repr(C, align(32))]
pub struct AlignedWords8(pub [u32; 8]);

const _: () = {
    assert!(core::mem::size_of::<AlignedWords8>() == 32 && core::mem::align_of::<AlignedWords8>() == 32);
    const W: AlignedWords8 = AlignedWords8([1; 8]);
    const C: [AlignedWords8; 2] = [W; 2];
    assert!(C[1].0[7] == 1);
};

pub unsafe fn compress_portable(h: &mut H, m: &B, t: u64, lb: u32, ln: u32) {
    #[cfg(not(feature = "no_compress_portable"))]
    #[allow(unused_unsafe)]
    unsafe {
        blake2s_simd::benchmarks::compress_portable(h, m, t, lb, ln);
    }
    #[cfg(feature = "no_compress_portable")]
    refm::compress(h, m, t, lb != 0, ln != 0);
}

macro_rules! eight {
    ($f:ident, $no:literal) => {
        #[rustfmt::skip]
        #[allow(clippy::too_many_arguments)]
        pub unsafe fn $f(
            h0: &mut H, h1: &mut H, h2: &mut H, h3: &mut H, h4: &mut H, h5: &mut H, h6: &mut H, h7: &mut H,
            m0: &B, m1: &B, m2: &B, m3: &B, m4: &B, m5: &B, m6: &B, m7: &B,
            t0: u64, t1: u64, t2: u64, t3: u64, t4: u64, t5: u64, t6: u64, t7: u64,
            b0: u32, b1: u32, b2: u32, b3: u32, b4: u32, b5: u32, b6: u32, b7: u32,
            n0: u32, n1: u32, n2: u32, n3: u32, n4: u32, n5: u32, n6: u32, n7: u32,
        ) {
            #[cfg(not(feature = $no))]
            #[allow(unused_unsafe)]
            unsafe {
                blake2s_simd::benchmarks::$f(
                    h0, h1, h2, h3, h4, h5, h6, h7, m0, m1, m2, m3, m4, m5, m6, m7, t0, t1, t2, t3, t4, t5, t6, t7,
                    b0, b1, b2, b3, b4, b5, b6, b7, n0, n1, n2, n3, n4, n5, n6, n7,
                );
            }
            #[cfg(feature = $no)]
            {
                let l: [(&mut H, &B, u64, u32, u32); 8] = [
                    (h0, m0, t0, b0, n0), (h1, m1, t1, b1, n1), (h2, m2, t2, b2, n2), (h3, m3, t3, b3, n3),
                    (h4, m4, t4, b4, n4), (h5, m5, t5, b5, n5), (h6, m6, t6, b6, n6), (h7, m7, t7, b7, n7),
                ];
                for (h, m, t, b, n) in l {
                    refm::compress(h, m, t, b != 0, n != 0);
                }
            }
        }
    };
}
eight!(compress8_portable, "no_compress8_portable");

pub fn force_portable(s: &mut State) {
    #[cfg(not(feature = "no_force_portable"))]
    #[allow(unused_unsafe)]
    unsafe {
        let _ = blake2s_simd::benchmarks::force_portable(s);
    }
}

pub fn force_portable_blake2sp(s: &mut blake2sp::State) {
    #[cfg(not(feature = "no_force_portable_blake2sp"))]
    #[allow(unused_unsafe)]
    unsafe {
        let _ = blake2s_simd::benchmarks::force_portable_blake2sp(s);
    }
}

#[cfg(any(target_arch = "x86_64", target_arch = "x86"))]
pub use x86::*;
#[cfg(any(target_arch = "x86_64", target_arch = "x86"))]
mod x86 {
    use super::*;
    #[cfg(target_arch = "x86")]
    use core::arch::x86::{__m128i, __m256i};
    #[cfg(target_arch = "x86_64")]
    use core::arch::x86_64::{__m128i, __m256i};

    eight!(compress8_avx2, "no_compress8_avx2");

    pub unsafe fn compress_sse41(h: &mut H, m: &B, t: u64, lb: u32, ln: u32) {
        #[cfg(not(feature = "no_compress_sse41"))]
        blake2s_simd::benchmarks::compress_sse41(h, m, t, lb, ln);
        #[cfg(feature = "no_compress_sse41")]
        refm::compress(h, m, t, lb != 0, ln != 0);
    }

    /// The reference on transposed words; w: count low and high, last block, last node.
    unsafe fn transposed(n: usize, h: *mut u32, stride: usize, m: impl Fn(usize) -> B, w: [*const u32; 4]) {
        for i in 0..n {
            let mut x = [0; 8];
            for j in 0..8 {
                x[j] = *h.add(stride * j + i);
            }
            let t = *w[0].add(i) as u64 | (*w[1].add(i) as u64) << 32;
            refm::compress(&mut x, &m(i), t, *w[2].add(i) != 0, *w[3].add(i) != 0);
            for j in 0..8 {
                *h.add(stride * j + i) = x[j];
            }
        }
    }

    #[target_feature(enable = "sse4.1")]
    pub unsafe fn compress4_transposed_sse41(h: &mut [__m128i; 8], m0: &B, m1: &B, m2: &B, m3: &B, cl: __m128i, ch: __m128i, lb: __m128i, ln: __m128i) {
        #[cfg(not(feature = "no_compress4_transposed_sse41"))]
        blake2s_simd::benchmarks::compress4_transposed_sse41(h, m0, m1, m2, m3, cl, ch, lb, ln);
        #[cfg(feature = "no_compress4_transposed_sse41")]
        transposed(4, h as *mut _ as *mut u32, 4, |i| *[m0, m1, m2, m3][i], [&cl as *const _ as *const u32, &ch as *const _ as *const u32, &lb as *const _ as *const u32, &ln as *const _ as *const u32]);
    }

    #[target_feature(enable = "avx2")]
    pub unsafe fn compress8_transposed_all_avx2(h: &mut [__m256i; 8], m: &[__m256i; 16], cl: __m256i, ch: __m256i, lb: __m256i, ln: __m256i) {
        #[cfg(not(feature = "no_compress8_transposed_all_avx2"))]
        blake2s_simd::benchmarks::compress8_transposed_all_avx2(h, m, cl, ch, lb, ln);
        #[cfg(feature = "no_compress8_transposed_all_avx2")]
        {
            let p = m as *const _ as *const u32;
            let block = |i: usize| {
                let mut b = [0; 64];
                for j in 0..16 {
                    b[4 * j..4 * j + 4].copy_from_slice(&(*p.add(8 * j + i)).to_le_bytes());
                }
                b
            };
            transposed(8, h as *mut _ as *mut u32, 8, block, [&cl as *const _ as *const u32, &ch as *const _ as *const u32, &lb as *const _ as *const u32, &ln as *const _ as *const u32]);
        }
    }

    type W = AlignedWords8;
    #[allow(clippy::too_many_arguments)]
    #[rustfmt::skip]
    pub unsafe fn compress8_vectorized_avx2(h: &mut [W; 8], m0: &B, m1: &B, m2: &B, m3: &B, m4: &B, m5: &B, m6: &B, m7: &B, cl: &W, ch: &W, lb: &W, ln: &W) {
        #[cfg(not(feature = "no_compress8_vectorized_avx2"))]
        blake2s_simd::benchmarks::compress8_vectorized_avx2(h, m0, m1, m2, m3, m4, m5, m6, m7, cl, ch, lb, ln);
        #[cfg(feature = "no_compress8_vectorized_avx2")]
        transposed(8, h as *mut _ as *mut u32, 8, |i| *[m0, m1, m2, m3, m4, m5, m6, m7][i], [cl.0.as_ptr(), ch.0.as_ptr(), lb.0.as_ptr(), ln.0.as_ptr()]);
    }
}
