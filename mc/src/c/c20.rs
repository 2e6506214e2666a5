//! C20: the instructions executed and the memory addresses touched by hashing do not depend on secrets.
//! Case: [op, n, group]: one operation on inputs of n bytes is run one instruction at a time for all-zero key and
//! message, and then for every content of the group, always at the same places in memory.
use crate::bm;
use crate::c::c07::{fin8, up8};
use crate::c::c08::h8;
use crate::c::c09::exact;
use crate::ctx::{hash64, Check, Cx};
use crate::p::{self, bytes};
use crate::step;
use blake2s_simd::{blake2s, blake2sp, Hash, Params, State};
use std::hint::black_box;

pub struct C20;

const OPS: [&str; 15] = [
    "blake2s", "keyed State", "keyed State, all parameters, portable", "blake2sp", "keyed blake2sp::State", "keyed blake2sp::State, portable", "update8/finalize8, keyed", "hash8, equal lengths",
    "hash8, different lengths", "hash4_exact, keyed", "hash8_exact, keyed", "State, portable", "io::Write and clone, keyed",
    "parameters keyed again and cloned", "blake2sp parameters keyed again and cloned",
];
const MAXN: usize = 16_500;

#[repr(C, align(64))]
struct Bufs {
    key: [u8; 64],
    msg: [[u8; MAXN]; 8],
    out: [u8; 1024],
}

fn keyed(op: u64) -> bool {
    matches!(op, 1 | 2 | 4 | 5 | 6 | 9 | 10 | 12..=14)
}
fn lanes(op: u64) -> usize {
    match op {
        6..=8 | 10 => 8,
        9 => 4,
        _ => 1,
    }
}

fn put(out: &mut [u8], o: &mut usize, h: &Hash) {
    let b = h.as_bytes();
    out[*o..*o + b.len()].copy_from_slice(b);
    *o += b.len();
}

#[inline(never)]
fn op(k: u64, n: usize, key: &[u8], msg: &[[u8; MAXN]; 8], out: &mut [u8; 1024]) -> usize {
    let mut o = 0;
    let m = |l: usize| &msg[l][..n];
    let key = &key[..32];
    match k {
        0 => put(out, &mut o, &blake2s(m(0))),
        1 | 2 | 11 | 12 => {
            let mut p = Params::new();
            match k {
                1 | 12 => {
                    p.key(key);
                }
                2 => {
                    p.hash_length(20).key(&key[..7]).salt(b"saltsalt").personal(b"personal").fanout(3).max_depth(4).max_leaf_length(77).node_offset(9).node_depth(2).inner_hash_length(32).last_node(true);
                }
                _ => {}
            }
            let mut s = p.to_state();
            if k == 2 || k == 11 {
                bm::force_portable(&mut s);
            }
            let (x, y) = m(0).split_at(n / 3);
            if k == 12 {
                #[cfg(feature = "std")]
                std::io::Write::write_all(&mut s, x).unwrap();
                #[cfg(not(feature = "std"))]
                s.update(x);
                let mut t = s.clone();
                t.update(y);
                put(out, &mut o, &t.finalize());
            } else {
                s.update(x);
                put(out, &mut o, &s.finalize());
                s.update(y);
            }
            put(out, &mut o, &s.finalize());
        }
        3 => put(out, &mut o, &blake2sp::blake2sp(m(0))),
        4 | 5 => {
            let mut p = blake2sp::Params::new();
            p.key(key);
            let mut s = p.to_state();
            if k == 5 {
                bm::force_portable_blake2sp(&mut s);
            }
            let (x, y) = m(0).split_at(n / 3);
            s.update(x).update(y);
            put(out, &mut o, &s.finalize());
        }
        6 => {
            let mut p = Params::new();
            p.key(key);
            let mut st: [State; 8] = std::array::from_fn(|_| p.to_state());
            let ins: [&[u8]; 8] = std::array::from_fn(|l| m(l));
            up8(&mut st, &ins);
            up8(&mut st, &ins);
            for h in &fin8(&mut st) {
                put(out, &mut o, h);
            }
        }
        7 | 8 => {
            let p: [Params; 8] = std::array::from_fn(|_| Params::new());
            let ins: [&[u8]; 8] = std::array::from_fn(|l| if k == 7 { m(l) } else { &msg[l][..n + l] });
            for h in &h8(&p, &ins) {
                put(out, &mut o, h);
            }
        }
        9 => {
            let mut p = Params::new();
            p.key(key);
            for h in &blake2s_simd::hash4_exact(&p, m(0), m(1), m(2), m(3)) {
                put(out, &mut o, h);
            }
        }
        13 => {
            let mut p = Params::new();
            p.key(&[0x55; 32]).key(key).salt(&[3; 5]);
            let (mut a, mut q) = (p.to_state(), p.clone());
            q.key(key).key(&key[..16]).key(key);
            a.update(m(0)).set_last_node(true);
            put(out, &mut o, &a.finalize());
            put(out, &mut o, &q.to_state().update(m(0)).finalize());
            put(out, &mut o, &a.finalize());
        }
        14 => {
            let mut p = blake2sp::Params::new();
            p.key(&[0x55; 32]).key(key).hash_length(20);
            let mut q = p.clone();
            q.key(key).key(&key[..16]).key(key);
            put(out, &mut o, &p.to_state().update(m(0)).finalize());
            put(out, &mut o, &q.to_state().update(m(0)).finalize());
        }
        _ => {
            let mut p = Params::new();
            p.key(key);
            for h in &blake2s_simd::hash8_exact(&p, m(0), m(1), m(2), m(3), m(4), m(5), m(6), m(7)) {
                put(out, &mut o, h);
            }
        }
    }
    o
}

/// (key kind, message kind, mode). Modes: 0 every lane has the message, 1 only lane 3 (others a pattern), 2 only the
/// last lane, 3 the message's first 64 bytes repeated, 4 first block zero, 5 last 64 bytes zero, 6 another place in each lane.
fn contents(op: u64, n: u64, th: bool) -> Vec<(u64, u64, u64)> {
    let mut v = vec![];
    let heavy = lanes(op) > 1 || n > 300;
    if n > 2200 {
        // Long ones: nothing of one page or several at once is a special case.
        v.extend((0..6).map(|mk| (0, mk, 0)));
        v.extend([(0, 2, 3), (0, 3, 4), (0, 3, 5), (0, 4096 + 255, 0), (0, 8192 + 256 * (n - 1) + 1, 0), (0, 8192 + 256 * (n / 2) + 0x80, 0)]);
        if keyed(op) {
            v.extend([(3, 0, 0), (1, 1, 0)]);
        }
        if lanes(op) > 1 {
            v.extend([(0, 3, 1), (0, 3, 2)]);
        }
        return v;
    }
    // Without std (and without target features) everything is portable, and so traced with std as well.
    let few = !th && !cfg!(feature = "std");
    for mk in 0..6 {
        for kk in if keyed(op) { 0..6u64 } else { 0..1 } {
            if th || (kk == 0 || mk == 0) && !few || kk == mk || kk + 1 == mk {
                v.push((kk, mk, 0));
            }
        }
        for mode in 1..7 {
            if th || (lanes(op) > 1 || (3..6).contains(&mode)) && (!few || (mk + mode) % 3 == 0) {
                v.push((0, mk, mode));
            }
        }
    }
    if keyed(op) {
        for i in (0..256).step_by(if th { 1 } else if few { 63 } else if heavy { 31 } else { 9 }) {
            v.push((16 + i, 0, 0));
            if th {
                v.push((16 + i, 1, 0));
            }
        }
        for x in (0..256).step_by(if th { 1 } else if few { 101 } else { 51 }) {
            v.push((4096 + x, 1, 0));
        }
    }
    // Every byte value somewhere (thorough: everywhere).
    for x in (0..256).step_by(if th { 1 } else if few || n < 64 { 128 } else { 64 }) {
        v.push((0, 1 << 26 | x, 0));
    }
    if keyed(op) {
        for x in (0..256).step_by(if th { 1 } else { 32 }) {
            v.push((1 << 26 | x, 0, 0));
        }
    }
    let step = match (th, heavy) {
        (true, false) => 1,
        (true, true) => 13,
        (false, false) if !few => 7,
        _ if few => (n / 5).max(1) | 1,
        _ => (n / 12).max(1) | 1,
    };
    for pos in (0..n).step_by(step as usize) {
        for x in [1u64, 0x80] {
            v.push((0, 8192 + 256 * pos + x, if lanes(op) > 1 { pos % 3 } else { 0 }));
        }
    }
    for x in (0..256).step_by(if th { 1 } else if few { 85 } else { 43 }) {
        v.push((1, 4096 + x, 0));
    }
    v
}

const GROUP: usize = 16;

fn fill(b: &mut Bufs, c: (u64, u64, u64), op: u64, n: usize) {
    b.key[..32].copy_from_slice(&bytes(c.0, 32));
    let len = n + 8;
    let m = bytes(c.1, len);
    for l in 0..8 {
        let x = &mut b.msg[l][..len];
        let other = &crate::ctx::data()[5000 + 3000 * l..5000 + 3000 * l + len];
        match c.2 {
            1 if lanes(op) > 1 && l != 3 => x.copy_from_slice(other),
            2 if lanes(op) > 1 && l + 1 != lanes(op) => x.copy_from_slice(other),
            3 => (0..len).for_each(|i| x[i] = m[i % 64]),
            4 => {
                x.copy_from_slice(&m);
                x[..len.min(64)].iter_mut().for_each(|y| *y = 0);
            }
            5 => {
                x.copy_from_slice(&m);
                x[n.saturating_sub(64)..].iter_mut().for_each(|y| *y = 0);
            }
            6 => (0..len).for_each(|i| x[i] = m[(i + 9 * l) % len]),
            _ => x.copy_from_slice(&m),
        }
    }
}

thread_local! {
    static BUFS: std::cell::RefCell<Box<Bufs>> = std::cell::RefCell::new(Box::new(Bufs { key: [0; 64], msg: [[0; MAXN]; 8], out: [0; 1024] }));
}

type Trace = (u64, u64, u64);

/// What a forked copy of the process reports.
const LOGMAX: usize = 6 << 20;
#[repr(C)]
struct Sh {
    done: u64,
    t: Trace,
    panicked: u64,
    n: u64,
    log: [u64; LOGMAX],
}
thread_local! {
    static SH: std::cell::Cell<*mut Sh> = const { std::cell::Cell::new(std::ptr::null_mut()) };
}
fn sh() -> &'static mut Sh {
    SH.with(|s| unsafe {
        if s.get().is_null() {
            let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Sh>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(p as isize != -1);
            s.set(p as *mut Sh);
        }
        &mut *s.get()
    })
}

/// A trace made in a copy of this process, so that whatever the operation remembers is the same before every one.
fn forked(b: &mut Bufs, x: (u64, u64, u64), k: u64, n: usize, log: Option<&mut Vec<u64>>) -> Result<Trace, String> {
    let s = sh();
    s.done = 0;
    s.panicked = 0;
    s.n = 0;
    fill(b, x, k, n);
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::alarm(100);
            let mut v = Vec::with_capacity(if log.is_some() { LOGMAX } else { 0 });
            match trace(b, k, n, log.is_some().then_some(&mut v)) {
                Ok(t) => s.t = t,
                Err(_) => s.panicked = 1,
            }
            let m = v.len().min(LOGMAX);
            s.log[..m].copy_from_slice(&v[..m]);
            s.n = m as u64;
            s.done = 1;
            libc::_exit(0);
        }
        let mut st = 0;
        if pid < 0 || libc::waitpid(pid, &mut st, 0) != pid {
            println!("HARNESS fork failed");
            libc::_exit(72);
        }
        if st != 0 || s.done != 1 {
            return Err(format!("{} of {} bytes ended with status {:#x}", OPS[k as usize], n, st));
        }
    }
    if s.panicked != 0 {
        return Err(format!("{} panicked", OPS[k as usize]));
    }
    if let Some(l) = log {
        l.extend_from_slice(&s.log[..s.n as usize]);
    }
    Ok(s.t)
}

#[inline(never)]
fn trace(b: &mut Bufs, k: u64, n: usize, log: Option<&mut Vec<u64>>) -> Result<Trace, String> {
    let Bufs { key, msg, out } = b;
    let (r, count, hash) = step::traced(None, log, || op(black_box(k), black_box(n), black_box(&key[..]), black_box(msg), black_box(out)));
    r.map_err(|_| format!("{} panicked", OPS[k as usize]))?;
    let (a, known) = step::addresses();
    Ok((count, hash, hash64(&[a, known])))
}

impl Check for C20 {
    fn enumerate(&self, th: bool, emit: &mut dyn FnMut(&[u64]) -> bool) {
        for op in 0..OPS.len() as u64 {
            let ns: &[u64] = match (op, th) {
                (0, false) => &[0, 1, 64, 65, 130, 4161],
                (1, false) => &[0, 70, 130],
                (2, false) => &[70],
                (3, false) => &[0, 65, 600, 1100, 8300],
                (4, false) => &[0, 1100],
                (5, false) => &[600],
                (6, false) => &[0, 66, 130],
                (7, false) => &[64, 130],
                (8, false) => &[66],
                (9 | 10, false) => &[64, 128],
                (13, _) => &[3, 70],
                (14, _) => &[30],
                (_, false) => &[130],
                (3..=5, true) => &[0, 1, 65, 448, 449, 512, 600, 960, 961, 1100, 1600, 2100, 4300, 8300, 16_400],
                (6..=8, true) => &[0, 1, 63, 64, 65, 66, 128, 130, 192, 200, 320, 4161],
                (9 | 10, true) => &[64, 128, 192, 320],
                (0, true) => &[0, 1, 2, 63, 64, 65, 70, 127, 128, 129, 130, 192, 300, 1100, 4161, 16_400],
                (_, true) => &[0, 1, 2, 63, 64, 65, 70, 127, 128, 129, 130, 192, 300, 1100, 4161],
            };
            for &n in ns {
                for g in 0..contents(op, n, th).len().div_ceil(GROUP) as u64 {
                    if !emit(&[op, n, g, th as u64]) {
                        return;
                    }
                }
            }
        }
    }
    fn run(&self, c: &[u64], cx: &mut Cx) -> Result<(), String> {
        step::install();
        let (k, n) = (c[0], c[1] as usize);
        let all = contents(k, c[1], c[3] == 1);
        let group = &all[c[2] as usize * GROUP..((c[2] as usize + 1) * GROUP).min(all.len())];
        BUFS.with(|b| {
            let b = &mut **b.borrow_mut();
            let base = (1, 1, 0);
            fill(b, base, k, n);
            // Once without tracing: what is done only the first time is not about secrets.
            cx.op(OPS[k as usize], || op(k, n, &b.key[..], &b.msg, &mut b.out))?;
            cx.op(OPS[k as usize], || trace(b, k, n, None))??;
            let want = cx.op(OPS[k as usize], || forked(b, base, k, n, None))??;
            cx.note("instructions traced", want.0);
            cx.outcome(&want.1.to_le_bytes());
            for &x in group {
                let got = cx.op(OPS[k as usize], || forked(b, x, k, n, None))??;
                cx.traces += 1;
                cx.note("instructions traced", got.0);
                if got == want {
                    continue;
                }
                // Again, with a log of both.
                let (mut l1, mut l2) = (vec![], vec![]);
                let again = forked(b, x, k, n, Some(&mut l1))?;
                let again0 = forked(b, base, k, n, Some(&mut l2))?;
                if again0 != want || again != got {
                    cx.note("unsteady traces", 1);
                    // Not a function of the contents alone: no verdict.
                    continue;
                }
                let i = (0..l1.len().min(l2.len())).find(|&i| l1[i] != l2[i]).unwrap_or(0);
                return Err(format!(
                    "{} for key {} and message {} (mode {}) {} than for zeros, first at instruction {} (+{:#x})",
                    OPS[k as usize],
                    p::kind_name(x.0),
                    p::kind_name(x.1),
                    x.2,
                    if got.1 != want.1 { format!("executes other instructions ({} of them, {})", got.0, want.0) } else { "touches other memory addresses".into() },
                    i / 2,
                    l1.get(i & !1).copied().unwrap_or(0).wrapping_sub(step::base())
                ));
            }
            Ok(())
        })
    }
    fn describe(&self, c: &[u64]) -> String {
        format!("{} of {} bytes, contents {}..", OPS[c[0] as usize], c[1], c[2] as usize * GROUP)
    }
}
