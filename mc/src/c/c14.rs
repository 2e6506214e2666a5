//! C14: Hash values. Cases:
//!  [0, out]                 length, as_ref, hex, copies; fewer/more bytes compare unequal
//!  [1, out, pos, xor]       slice differing in one byte; the same for two Hash values
//!  [2, out, out2]           hashes of different lengths with a common prefix
//!  [3, out, pos, pos2, kind] differing in two bytes
//!  [5, out, shift]          slices of gigabytes
//!  [4, content]             hex of every byte value
use crate::ctx::{hex, Check, Cx};
use crate::refm::RP;
use blake2s_simd::{Hash, Params};

pub struct C14;

/// A real Hash with chosen bytes: the digest bytes of a Hash are found through as_bytes() and overwritten.
/// `tail` varies whatever else the value holds. None if the bytes are not stored in the value.
pub fn forge(bytes: &[u8], tail: u8) -> Result<Option<Hash>, String> {
    let mut p = Params::new();
    p.hash_length(bytes.len());
    let mut h = Box::new(p.to_state().update(&[tail]).finalize());
    let base = &*h as *const Hash as usize;
    let (at, n) = (h.as_bytes().as_ptr() as usize, h.as_bytes().len());
    if n != bytes.len() {
        return Err(format!("the Hash has {} bytes, asked for {}", n, bytes.len()));
    }
    if at < base || at + n > base + std::mem::size_of::<Hash>() {
        return Ok(None);
    }
    let q = &mut *h as *mut Hash as *mut u8;
    unsafe {
        for (i, b) in bytes.iter().enumerate() {
            std::ptr::write_volatile(q.add(at - base + i), *b);
        }
    }
    Ok(if h.as_bytes() == bytes { Some(*h) } else { None })
}

fn content(out: usize) -> Vec<u8> {
    crate::p::bytes(3, out)
}

impl C14 {
    /// Both directions and both impls; `b` has its own length.
    fn compare(&self, a: &[u8], b: &[u8], cx: &mut Cx) -> Result<(), String> {
        let want = a == b;
        let Some(ha) = forge(a, 0)? else {
            cx.note("values that could not be forged", 1);
            return Ok(());
        };
        let r = cx.op("Hash == [u8]", || ha == *b)?;
        cx.traces += 1;
        if r != want {
            return Err(format!("Hash({}) == slice {} gave {}", hex(a), hex(b), r));
        }
        if cx.op("Hash != [u8]", || ha != *b)? == want {
            return Err(format!("Hash({}) != slice {} gave {}", hex(a), hex(b), want));
        }
        if (1..=32).contains(&b.len()) {
            // Equal or different in what lies beyond the digest bytes.
            for tail in 0..2 {
                let Some(hb) = forge(b, tail)? else { continue };
                for (x, y) in [(&ha, &hb), (&hb, &ha)] {
                    let r = cx.op("Hash == Hash", || x == y)?;
                    cx.traces += 1;
                    if r != want {
                        return Err(format!("Hash({}) == Hash({}) gave {}", hex(x.as_bytes()), hex(y.as_bytes()), r));
                    }
                    if cx.op("Hash != Hash", || x != y)? == want {
                        return Err(format!("Hash({}) != Hash({}) gave {}", hex(x.as_bytes()), hex(y.as_bytes()), want));
                    }
                }
            }
        }
        cx.outcome(&[want as u8]);
        Ok(())
    }

    fn text(&self, bytes: &[u8], cx: &mut Cx) -> Result<(), String> {
        let Some(h) = forge(bytes, 0)? else {
            cx.note("values that could not be forged", 1);
            return Ok(());
        };
        self.text_of(h, bytes, cx)
    }

    fn text_of(&self, h: Hash, bytes: &[u8], cx: &mut Cx) -> Result<(), String> {
        cx.eq("as_bytes", h.as_bytes(), bytes)?;
        cx.eq("as_ref", h.as_ref(), bytes)?;
        let s = cx.op("to_hex", || h.to_hex())?;
        cx.eq("to_hex", s.as_bytes(), hex(bytes).as_bytes())?;
        let c = h;
        let c2 = cx.op("clone", || h.clone())?;
        cx.eq("copy", c.as_bytes(), bytes)?;
        cx.eq("clone", c2.as_bytes(), bytes)?;
        Ok(())
    }
}

impl Check for C14 {
    fn enumerate(&self, th: bool, emit: &mut dyn FnMut(&[u64]) -> bool) {
        for o in 1..=32u64 {
            if !emit(&[0, o]) {
                return;
            }
            for p in 0..o {
                for x in 0..256 {
                    if !emit(&[1, o, p, x]) {
                        return;
                    }
                }
                for q in 0..p {
                    for k in 0..if th { 256 } else { 16 } {
                        if !emit(&[3, o, p, q, k]) {
                            return;
                        }
                    }
                }
            }
            for o2 in (0..=70).chain((256..=300).map(|x| x)).chain([512 + o, 1024 + o, 65536 + o, 131072 + o]) {
                if !emit(&[2, o, o2]) {
                    return;
                }
            }
        }
        for o in 1..=32 {
            for shift in [24, 31, 32, 33] {
                if !emit(&[5, o, shift]) {
                    return;
                }
            }
        }
        for v in 0..256 {
            for o in 1..=32 {
                if !emit(&[4, v, o]) {
                    return;
                }
            }
        }
    }
    fn run(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        let o = c[1] as usize;
        match c[0] {
            0 => {
                // From every source of hashes: real digests with their length.
                let m = crate::p::bytes(0, 100);
                let h = cx.op("hash", || Params::new().hash_length(o).to_state().update(&m).finalize())?;
                let w = RP { out: o as u8, ..RP::default() }.hash(&m);
                self.text_of(h, &w, cx)?;
                let h = cx.op("hash", || blake2s_simd::blake2sp::Params::new().hash_length(o).to_state().update(&m).finalize())?;
                cx.eq("blake2sp digest bytes", h.as_bytes(), &crate::refm::blake2sp(o as u8, &[], &m))?;
                self.text(&content(o), cx)?;
                self.text(&w, cx)?;
                self.compare(&w, &w, cx)
            }
            1 => {
                let a = content(o);
                let mut b = a.clone();
                b[c[2] as usize] ^= c[3] as u8;
                self.compare(&a, &b, cx)
            }
            2 => {
                // Common prefix, other length; extended with zeros, and with the pattern.
                let a = content(o);
                let n = c[2] as usize;
                let mut b = crate::p::bytes(3, n);
                self.compare(&a, &b, cx)?;
                for x in b.iter_mut().skip(o) {
                    *x = 0;
                }
                self.compare(&a, &b, cx)?;
                let z = vec![0u8; o];
                self.compare(&z, &vec![0u8; n], cx)?;
                let mut z1 = z.clone();
                z1[o - 1] = 1;
                self.compare(&z1, &vec![0u8; n], cx)
            }
            3 => {
                // Two bytes differ: the same difference (an xor accumulator cancels), complementary ones (a sum cancels).
                let a = content(o);
                let (p, q, k) = (c[2] as usize, c[3] as usize, c[4] as usize);
                let pairs: [(u8, u8); 16] = [
                    (1, 1), (0xff, 0xff), (0x80, 0x80), (0x0f, 0x0f), (0xf0, 0xf0), (1, 0xff), (0xff, 1), (0x55, 0x55), (0xaa, 0x55), (2, 2), (4, 4), (8, 8), (16, 16), (32, 32), (64, 64), (3, 0xfd),
                ];
                let (x, y) = if k < 16 { pairs[k] } else { (k as u8, k as u8) };
                let mut b = a.clone();
                b[p] ^= x;
                b[q] ^= y;
                self.compare(&a, &b, cx)?;
                let mut b = a.clone();
                b[p] = b[p].wrapping_add(x);
                b[q] = b[q].wrapping_sub(x);
                self.compare(&a, &b, cx)?;
                let mut b = a.clone();
                b.swap(p, q);
                self.compare(&a, &b, cx)
            }
            5 => {
                // Slices of gigabytes that begin with the digest; the rest is untouched zero pages.
                let n = (1usize << c[2]) + o;
                let a = content(o);
                unsafe {
                    let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
                    if p as isize == -1 {
                        cx.note("slices that could not be mapped", 1);
                        return Ok(());
                    }
                    let b = std::slice::from_raw_parts_mut(p as *mut u8, n);
                    b[..o].copy_from_slice(&a);
                    let Some(h) = forge(&a, 0)? else { return Ok(()) };
                    let r = cx.op("Hash == [u8]", || (h == b[..o], h == b[..n], h == b[o..n], h == b[..n - o]))?;
                    cx.traces += 4;
                    libc::munmap(p, n);
                    if r != (true, false, false, false) {
                        return Err(format!("Hash({}) == slice of {} bytes: {:?} for the digest alone, followed by zeros, zeros, digest and zeros", hex(&a), n, r));
                    }
                    Ok(())
                }
            }
            _ => {
                let mut v = vec![c[1] as u8; c[2] as usize];
                let n = v.len();
                self.text(&v, cx)?;
                v[n / 2] = v[n / 2].wrapping_add(1);
                self.text(&v, cx)?;
                self.compare(&v, &vec![c[1] as u8; n], cx)
            }
        }
    }
    fn describe(&self, c: &[u64]) -> String {
        match c[0] {
            0 => format!("Hash of {} bytes: accessors", c[1]),
            1 => format!("Hash of {} bytes against one with byte {} xor {:#x}", c[1], c[2], c[3]),
            2 => format!("Hash of {} bytes against {} bytes", c[1], c[2]),
            3 => format!("Hash of {} bytes, bytes {} and {} differ (pattern {})", c[1], c[2], c[3], c[4]),
            5 => format!("Hash of {} bytes against 2^{} bytes more", c[1], c[2]),
            _ => format!("Hash of {} bytes {:#04x}: hex", c[2], c[1]),
        }
    }
}
