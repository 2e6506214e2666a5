//! C16: Debug text. Case: [object, keylen, out, last, n, secret, stage]: two values that differ only in secrets
//! (secret 0: key bytes; 1: message contents; 2: both) must print alike.
use crate::ctx::{Check, Cx};
use crate::p::bytes;
use blake2s_simd::{blake2sp, Params, State};
use std::fmt::Debug;

pub struct C16;

// Debug of a type that may not implement it (autoref specialization), so that a Debug added later is covered.
struct Show<'a, T>(&'a T);
trait Fallback {
    fn texts(&self) -> Vec<String> {
        vec![]
    }
}
impl<'a, T> Fallback for &Show<'a, T> {}
impl<'a, T: Debug> Show<'a, T> {
    fn texts(&self) -> Vec<String> {
        vec![format!("{:?}", self.0), format!("{:#?}", self.0), format!("{:x?}", self.0), format!("{:300?}", self.0), format!("{:X?}", self.0), format!("{:#x?}", self.0), format!("{:+08?}", self.0), format!("{:.1?}", self.0)]
    }
}

const KEYKINDS: [u64; 4] = [0, 1, 2, 3];

fn params(c: &[u64], keykind: u64) -> Params {
    let mut p = Params::new();
    p.hash_length(c[2] as usize).key(&bytes(keykind, c[1] as usize)).last_node(c[3] != 0);
    p
}

fn texts(c: &[u64], keykind: u64, msgkind: u64) -> Vec<String> {
    let n = c[4] as usize;
    let msg = bytes(msgkind, n);
    let (a, b) = msg.split_at(n / 3);
    let s2 = |fin: bool| -> State {
        let mut s = params(c, keykind).to_state();
        s.update(a);
        if fin {
            s.finalize();
        }
        s.update(b);
        s
    };
    match c[0] {
        0 => {
            let mut s = s2(c[6] & 1 == 1);
            if c[6] & 2 == 2 {
                s.finalize();
            }
            (&Show(&s)).texts()
        }
        1 => {
            let mut p = blake2sp::Params::new();
            p.hash_length(c[2] as usize).key(&bytes(keykind, c[1] as usize));
            let mut s = p.to_state();
            s.update(a);
            if c[6] & 1 == 1 {
                s.finalize();
            }
            s.update(b);
            if c[6] & 2 == 2 {
                s.finalize();
            }
            (&Show(&s)).texts()
        }
        2 => {
            let mut p = blake2sp::Params::new();
            p.hash_length(c[2] as usize).key(&bytes(keykind, c[1] as usize));
            (&Show(&p)).texts()
        }
        3 => {
            let p = params(c, keykind);
            (&Show(&p)).texts()
        }
        _ => {
            // States that went through update8 and finalize8.
            let mut v: Vec<State> = (0..8).map(|_| s2(false)).collect();
            crate::c::c07::up8(&mut v, &[&msg; 8]);
            if c[6] & 1 == 1 {
                crate::c::c07::fin8(&mut v);
            }
            v.iter().flat_map(|s| (&Show(s)).texts()).collect()
        }
    }
}

impl Check for C16 {
    fn enumerate(&self, th: bool, emit: &mut dyn FnMut(&[u64]) -> bool) {
        let lens: Vec<u64> = if th { (0..=1300).collect() } else { (0..=200).chain([447, 448, 449, 511, 512, 513, 960, 961, 1023, 1024, 1025, 1100, 1537, 2048]).collect() };
        for obj in 0..5 {
            for k in [0u64, 1, 2, 4, 8, 16, 31, 32] {
                for &n in &lens {
                    if (obj == 2 || obj == 3) && n > 0 {
                        break;
                    }
                    for (o, l) in [(32, 0), (17, 1)] {
                        for sec in 0..3 {
                            for st in 0..4 {
                                if (k == 0 && sec != 1) || (n == 0 && sec == 1) {
                                    continue;
                                }
                                if !emit(&[obj, k, o, l, n, sec, st]) {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
            // Every key length.
            for k in 1..=32 {
                for o in 1..=32 {
                    if !emit(&[obj, k, o, 0, 0, 0, 0]) || !emit(&[obj, k, o, 1, 70, 2, 0]) {
                        return;
                    }
                }
            }
        }
    }
    fn run(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        let base = cx.op("Debug", || texts(c, 0, 0))?;
        for t in &base {
            cx.outcome(t.as_bytes());
        }
        for kk in KEYKINDS {
            for mk in [0u64, 1, 2, 3, 4, 5] {
                if (c[5] == 0 && mk != 0) || (c[5] == 1 && kk != 0) {
                    continue;
                }
                let t = cx.op("Debug", || texts(c, kk, mk))?;
                cx.traces += 1;
                if t != base {
                    let i = (0..t.len().min(base.len())).find(|&i| t[i] != base[i]).unwrap_or(0);
                    return Err(format!("Debug text depends on secrets: {:?} against {:?}", base.get(i), t.get(i)));
                }
            }
        }
        Ok(())
    }
    fn describe(&self, c: &[u64]) -> String {
        format!(
            "Debug of {} key length {} out {} last {} bytes hashed {} secrets {} stage {}",
            ["blake2s::State", "blake2sp::State", "blake2sp::Params", "blake2s::Params", "states after update8"][c[0] as usize], c[1], c[2], c[3], c[4], ["key", "message", "both"][c[5] as usize], c[6]
        )
    }
}
