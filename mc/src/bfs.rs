//! Explicit-state breadth-first search over the concrete states of a hashing object. The canonical form of a
//! state is the object's raw bytes (after zeroing the memory and the stack it is built on, so that padding
//! does not count) together with the number of bytes fed in and the flag the model knows of. A state is
//! re-created by replaying the operations that first reached it; every operation is then checked against the model.

use crate::ctx::{data, hash64, Cx};
use std::collections::{HashMap, VecDeque};
use std::mem::MaybeUninit;

pub const U: u64 = 0; // update(arg)
pub const W: u64 = 1; // io::Write::write
pub const F: u64 = 2; // finalize
pub const L: u64 = 3; // set_last_node
pub const CC: u64 = 4; // continue with a clone
pub const CO: u64 = 5; // clone, use the clone, continue with the original
pub const WV: u64 = 6; // write_vectored of two halves
pub const WA: u64 = 7; // write_all
pub const FL: u64 = 8; // flush
pub const CF: u64 = 9; // clone_from onto another object (0 fresh, 1 used, 2 used and keyed), continue with that

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Digest,
    Count,
}

/// The model: bytes absorbed so far, and the last-node flag.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct M {
    pub n: usize,
    pub last: bool,
}

pub trait Sys {
    type S;
    const TAG: u64;
    fn init(cfg: &[u64]) -> (Self::S, M);
    fn update(s: &mut Self::S, b: &[u8]);
    fn finalize(s: &mut Self::S) -> Vec<u8>;
    fn count(s: &Self::S) -> u64;
    fn set_last(_s: &mut Self::S, _b: bool) {
        unreachable!()
    }
    fn try_clone(_s: &Self::S) -> Option<Self::S> {
        None
    }
    fn clone_from(_s: &Self::S, _onto: &mut Self::S) {
        unreachable!()
    }
    fn write(s: &mut Self::S, b: &[u8]) -> Result<usize, String>;
    fn write_vectored(s: &mut Self::S, b: &[u8], c: &[u8]) -> Result<usize, String>;
    fn write_all(s: &mut Self::S, b: &[u8]) -> Result<(), String>;
    fn flush(s: &mut Self::S) -> Result<(), String>;
    fn want(cx: &mut Cx, cfg: &[u64], m: M) -> Vec<u8>;
}

pub const OFF: usize = 0;

#[inline(never)]
fn paint_stack() {
    let mut a = MaybeUninit::<[u8; 24 << 10]>::uninit();
    unsafe {
        std::ptr::write_bytes(a.as_mut_ptr(), 0, 1);
        std::arch::asm!("/* {0} */", in(reg) a.as_mut_ptr());
    }
}

/// A box with zeroed padding.
fn place<T>(f: impl FnOnce() -> T) -> Box<MaybeUninit<T>> {
    let mut b: Box<MaybeUninit<T>> = Box::new(MaybeUninit::zeroed());
    b.write(f());
    b
}

struct Obj<T>(Box<MaybeUninit<T>>);
impl<T> Obj<T> {
    fn get(&mut self) -> &mut T {
        unsafe { self.0.assume_init_mut() }
    }
    fn key(&self, m: M) -> u128 {
        let n = std::mem::size_of::<T>();
        let p = self.0.as_ptr() as *const u8;
        let (mut a, mut b) = (hash64(&[m.n as u64, m.last as u64]), 0x1234_5678_9abc_def1u64);
        let mut i = 0;
        while i < n {
            let mut w = [0u8; 8];
            for j in 0..8.min(n - i) {
                w[j] = unsafe { std::ptr::read_volatile(p.add(i + j)) };
            }
            let x = u64::from_le_bytes(w);
            a = (a ^ x).wrapping_mul(0xff51afd7ed558ccd);
            a ^= a >> 32;
            b = (b.rotate_left(23) ^ x).wrapping_mul(0xc4ceb9fe1a85ec53);
            b ^= b >> 29;
            i += 8;
        }
        (a as u128) << 64 | b as u128
    }
}
impl<T> Drop for Obj<T> {
    fn drop(&mut self) {
        unsafe { self.0.assume_init_drop() }
    }
}

fn clone_of<Y: Sys>(s: &Y::S) -> Y::S {
    Y::try_clone(s).expect("no clone")
}

/// Apply one operation and check what it reports. Returns the new model state.
fn apply<Y: Sys>(o: &mut Obj<Y::S>, cfg: &[u64], m: M, op: u64, arg: u64, mode: Mode, check: bool, cx: &mut Cx) -> Result<M, String> {
    let a = arg as usize;
    let d = data();
    let mut m2 = m;
    match op {
        U => {
            let b = &d[OFF + m.n..OFF + m.n + a];
            cx.op("update", || Y::update(o.get(), b))?;
            m2.n += a;
        }
        W | WV => {
            let b = &d[OFF + m.n..OFF + m.n + a];
            let r = if op == W {
                cx.op("write", || Y::write(o.get(), b))?
            } else {
                let (x, y) = b.split_at(a / 2);
                cx.op("write_vectored", || Y::write_vectored(o.get(), x, y))?
            };
            let k = r?;
            if k > a {
                return Err(format!("write of {} bytes reported {}", a, k));
            }
            m2.n += k;
        }
        WA => {
            let b = &d[OFF + m.n..OFF + m.n + a];
            cx.op("write_all", || Y::write_all(o.get(), b))??;
            m2.n += a;
        }
        FL => cx.op("flush", || Y::flush(o.get()))??,
        F => {
            let h = cx.op("finalize", || Y::finalize(o.get()))?;
            if check && mode == Mode::Digest {
                let w = Y::want(cx, cfg, m);
                cx.eq("finalize", &h, &w)?;
            }
        }
        L => {
            cx.op("set_last_node", || Y::set_last(o.get(), arg != 0))?;
            m2.last = arg != 0;
        }
        CC => {
            let c = cx.op("clone", || clone_of::<Y>(o.get()))?;
            let nb = place(|| c);
            *o = Obj(nb);
        }
        CF => {
            let mut c = Y::init(&[[0, 0, 32][a], [32, 17, 32][a], 0, 0, 0]).0;
            cx.op("update", || Y::update(&mut c, &d[70_000..70_000 + [0, 130, 37][a]]))?;
            cx.op("clone_from", || Y::clone_from(o.get(), &mut c))?;
            *o = Obj(place(|| c));
        }
        CO => {
            let mut c = cx.op("clone", || clone_of::<Y>(o.get()))?;
            let b = &d[OFF + m.n..OFF + m.n + a];
            let h = cx.op("update and finalize a clone", || {
                Y::update(&mut c, b);
                Y::finalize(&mut c)
            })?;
            if check && mode == Mode::Digest {
                let w = Y::want(cx, cfg, M { n: m.n + a, last: m.last });
                cx.eq("the clone's digest", &h, &w)?;
            }
            if check && mode == Mode::Count {
                let k = cx.op("count", || Y::count(&c))?;
                count_eq(cx, k, (m.n + a) as u64)?;
            }
        }
        _ => return Err(format!("bad op {}", op)),
    }
    Ok(m2)
}

fn count_eq(cx: &mut Cx, got: u64, want: u64) -> Result<(), String> {
    cx.traces += 1;
    cx.outcome(&got.to_le_bytes());
    if got != want {
        return Err(format!("count() is {}, {} bytes were fed in", got, want));
    }
    Ok(())
}

fn observe<Y: Sys>(o: &mut Obj<Y::S>, cfg: &[u64], m: M, mode: Mode, cx: &mut Cx) -> Result<(), String> {
    match mode {
        Mode::Digest => {
            let w = Y::want(cx, cfg, m);
            let h = cx.op("finalize", || Y::finalize(o.get()))?;
            cx.eq("finalize", &h, &w)?;
            let h = cx.op("finalize", || Y::finalize(o.get()))?;
            cx.eq("second finalize", &h, &w)
        }
        Mode::Count => {
            let k = cx.op("count", || Y::count(o.get()))?;
            count_eq(cx, k, m.n as u64)
        }
    }
}

/// Replay of a history, checking after every operation. case = [TAG, cfg(5), (op, arg)*].
pub fn run_history<Y: Sys>(cfg: &[u64], ops: &[u64], mode: Mode, cx: &mut Cx) -> Result<(), String> {
    // Observation by finalize is itself an operation, so observe only at the end.
    let (mut o, mut m) = build::<Y>(cfg, &[], cx)?;
    for c in ops.chunks(2) {
        m = apply::<Y>(&mut o, cfg, m, c[0], c[1], mode, true, cx)?;
    }
    observe::<Y>(&mut o, cfg, m, mode, cx)
}

fn build<Y: Sys>(cfg: &[u64], ops: &[(u64, u64)], cx: &mut Cx) -> Result<(Obj<Y::S>, M), String> {
    paint_stack();
    let mut m = M { n: 0, last: false };
    let b = cx.op("construct", || {
        place(|| {
            let (s, mm) = Y::init(cfg);
            m = mm;
            s
        })
    })?;
    let mut o = Obj(b);
    for &(op, arg) in ops {
        m = apply::<Y>(&mut o, cfg, m, op, arg, Mode::Digest, false, cx)?;
    }
    Ok((o, m))
}

pub struct Opts<'a> {
    /// Operations enabled in a state with n bytes absorbed.
    pub ops: &'a dyn Fn(usize, &mut Vec<(u64, u64)>),
    /// Operations checked in every state, whose results are not explored further.
    pub leaf_ops: &'a dyn Fn(usize, &mut Vec<(u64, u64)>),
    pub max_depth: usize,
    pub max_states: usize,
}

pub fn bfs<Y: Sys>(cfg: &[u64], mode: Mode, opts: &Opts, cx: &mut Cx) {
    let mut seen: HashMap<u128, ()> = HashMap::new();
    let mut q: VecDeque<Vec<(u64, u64)>> = VecDeque::new();
    let case = |h: &[(u64, u64)]| -> Vec<u64> {
        let mut c = vec![Y::TAG];
        c.extend_from_slice(cfg);
        for &(a, b) in h {
            c.push(a);
            c.push(b);
        }
        c
    };
    macro_rules! fail {
        ($h:expr, $m:expr) => {{
            let c = case($h);
            let msg = format!("{}: {}", describe(&c), $m);
            cx.violation(&c, msg);
        }};
    }
    cx.set_case(&case(&[]));
    match build::<Y>(cfg, &[], cx) {
        Err(e) => fail!(&[], e),
        Ok((mut o, m)) => {
            let k = o.key(m);
            if let Err(e) = observe::<Y>(&mut o, cfg, m, mode, cx) {
                fail!(&[], e);
            }
            seen.insert(k, ());
            cx.states += 1;
            q.push_back(vec![]);
        }
    }
    let (mut ops, mut leafs) = (vec![], vec![]);
    let mut deepest = 0;
    while let Some(h) = q.pop_front() {
        let n0: usize = {
            let mut m = 0;
            for &(op, a) in &h {
                if matches!(op, U | W | WA) {
                    m += a as usize;
                }
            }
            m
        };
        ops.clear();
        leafs.clear();
        if h.len() < opts.max_depth {
            (opts.ops)(n0, &mut ops);
        }
        (opts.leaf_ops)(n0, &mut leafs);
        let nexp = ops.len();
        ops.extend_from_slice(&leafs);
        for (i, &(op, arg)) in ops.iter().enumerate() {
            if cx.stopped() {
                return;
            }
            let mut h2 = h.clone();
            h2.push((op, arg));
            cx.set_case(&case(&h2));
            let (mut o, m) = match build::<Y>(cfg, &h, cx) {
                Ok(x) => x,
                Err(e) => {
                    fail!(&h, e);
                    continue;
                }
            };
            let m2 = match apply::<Y>(&mut o, cfg, m, op, arg, mode, true, cx) {
                Ok(m2) => m2,
                Err(e) => {
                    fail!(&h2, e);
                    continue;
                }
            };
            let k = o.key(m2);
            let fresh = i < nexp && !seen.contains_key(&k);
            if let Err(e) = observe::<Y>(&mut o, cfg, m2, mode, cx) {
                fail!(&h2, e);
                continue;
            }
            if fresh {
                if seen.len() >= opts.max_states {
                    cx.note("state cap reached (new states not expanded)", 1);
                    continue;
                }
                seen.insert(k, ());
                cx.states += 1;
                deepest = deepest.max(h2.len());
                let c = case(&h2);
                cx.sample(|| describe(&c));
                q.push_back(h2);
            }
        }
    }
    let d = cx.notes.entry("deepest shortest history (operations), summed over configurations".into()).or_insert(0);
    *d += deepest as u64;
    cx.note("configurations searched to a fixpoint or the depth bound", 1);
}

pub fn describe(c: &[u64]) -> String {
    let mut s = format!(
        "{} key {} out {} last {} {}:",
        if c[0] == 0 { "blake2s" } else { "blake2sp" },
        c[1],
        c[2],
        c[3],
        if c[4] == 1 { "forced portable" } else { "default" }
    );
    for x in c[6..].chunks(2) {
        let name = ["update", "write", "finalize", "set_last_node", "use clone", "clone+update", "write_vectored", "write_all", "flush", "use clone_from onto"][x[0] as usize];
        s += &format!(" {}({})", name, x[1]);
    }
    s
}
