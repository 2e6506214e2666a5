//! C17, more than one preemption: which shared memory do the operations write, and every schedule of two threads whose
//! switches lie at accesses to it.
//! A run of thread B commutes with one of thread A as long as neither touches memory that the other writes, so that
//! schedules only differ in the order of such accesses. `mc races TIER OUT SHARD NSHARDS TABLE`: first every operation is
//! executed by both threads one instruction at a time and the addresses of all its memory operands are collected. For
//! what one thread writes and the other accesses: A stops before its i-th access and B runs to its j-th, then A goes on
//! to the end (thorough: or to its k-th from there, then B to the end) and the other after it; all i, j (k), all pairs of
//! operations (quick: a quarter of them where the process has not used the library before, cold; all of them warm). Afterwards all operations once more.
use crate::c::c17::{op, op_name, op_want, BIG, OPS, OUT};
use crate::ctx::hex;
use crate::step;
use std::cell::Cell;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

const LOGMAX: usize = 1 << 21;

#[repr(C)]
struct Sh {
    n: [u64; 2],
    code: u64, // 0 fine, 1 A wrong, 2 B wrong, 3 A panicked, 4 B panicked, 5 unknown, 6 wrong afterwards
    which: u64,
    blocked: u64,
    b_ended: u64, // before its switch
    a_ended: u64,
    got: [u8; 32],
    points: u64,
    scheds: u64,
    waits: u64,
    late: u64,
    at: [u64; 3],
    steps: u64,
    msg_len: u64,
    msg: [u8; 400],
    log: [[(u64, u64, u64); LOGMAX]; 2],
}

static mut SH: *mut Sh = std::ptr::null_mut();
static mut CONF: Vec<(u64, u64)> = vec![];
static mut WANT: [Vec<Vec<u8>>; 2] = [vec![], vec![]];
static mut CHILD: bool = false;
static mut KB: usize = 0;
static mut J: u64 = 0;
static mut K: Option<u64> = None;
static mut BOUND: u64 = 2;
static mut END: Option<std::time::Instant> = None;
static TURN: AtomicU64 = AtomicU64::new(0);
static BSTEPS: AtomicU64 = AtomicU64::new(0);
static BDONE: AtomicBool = AtomicBool::new(false);

thread_local! {
    static ROLE: Cell<usize> = const { Cell::new(0) };
    static HIT: Cell<bool> = const { Cell::new(false) };
    static PTS: Cell<u64> = const { Cell::new(0) };
}

fn sh() -> &'static mut Sh {
    unsafe { &mut *SH }
}

/// Repeated accesses of the same kind are logged once in a row.
fn log_acc(a: u64, size: u64, w: bool) {
    let r = ROLE.with(|r| r.get());
    let s = sh();
    let n = s.n[r] as usize;
    if n < LOGMAX {
        s.log[r][n] = (a, size, w as u64);
        s.n[r] += 1;
    }
}

fn hit_acc(a: u64, size: u64, _w: bool) {
    unsafe {
        if (*(&raw const CONF)).iter().any(|&(x, n)| a < x + n && x < a + size) {
            HIT.with(|h| h.set(true));
        }
    }
}

fn wait(cond: impl Fn() -> bool, ms: u64) -> bool {
    let t = std::time::Instant::now();
    let mut n = 0u32;
    while !cond() {
        if t.elapsed().as_millis() as u64 > ms {
            return false;
        }
        n += 1;
        if n < 50 {
            unsafe { libc::sched_yield() };
        } else {
            std::thread::sleep(std::time::Duration::from_micros(20));
        }
    }
    true
}

/// As wait, but only gives up when B does not get on, or after seconds.
fn wait_steps(cond: impl Fn() -> bool) -> bool {
    for _ in 0..20 {
        let n = BSTEPS.load(SeqCst);
        if wait(&cond, 200) {
            return true;
        }
        if BSTEPS.load(SeqCst) == n {
            break;
        }
    }
    cond()
}

fn spawn(f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void) -> libc::pthread_t {
    unsafe {
        let mut t: libc::pthread_t = std::mem::zeroed();
        if libc::pthread_create(&mut t, std::ptr::null(), f, std::ptr::null_mut()) != 0 {
            libc::_exit(9);
        }
        t
    }
}

fn judge(k: usize, who: usize, r: std::thread::Result<usize>, out: &[u8; OUT]) -> u64 {
    unsafe {
        let w = &(&(*(&raw const WANT)))[who][k];
        let bad = match r {
            Err(_) => 3 + who as u64,
            Ok(n) if out[..n] == w[..] => 0,
            Ok(_) => 1 + who as u64,
        };
        if bad != 0 && sh().code == 0 {
            sh().code = bad;
            sh().which = k as u64;
            sh().got.copy_from_slice(&out[..32]);
        }
        bad
    }
}

extern "C" fn profile_b(_: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        ROLE.with(|r| r.set(1));
        let mut out = [0u8; OUT];
        let (r, n, _) = step::traced_with(None, Some(log_acc), None, || op(KB, 1, &mut out));
        sh().steps += n;
        judge(KB, 1, r, &out);
    }
    std::ptr::null_mut()
}

/// Both threads' accesses of operation k, B first or A first, in a copy of this process.
fn profile(k: usize, b_first: bool, acc: &mut [BTreeSet<(u64, u64, bool)>; 2]) -> Result<(), String> {
    unsafe {
        let s = sh();
        s.n = [0, 0];
        s.code = 0;
        KB = k;
        let pid = libc::fork();
        if pid == 0 {
            libc::alarm(100);
            for turn in 0..2 {
                if (turn == 0) == b_first {
                    libc::pthread_join(spawn(profile_b), std::ptr::null_mut());
                } else {
                    let mut out = [0u8; OUT];
                    let (r, n, _) = step::traced_with(None, Some(log_acc), None, || op(k, 0, &mut out));
                    sh().steps += n;
                    judge(k, 0, r, &out);
                }
            }
            libc::_exit(0);
        }
        let mut st = 0;
        if pid < 0 || libc::waitpid(pid, &mut st, 0) != pid {
            println!("HARNESS fork failed");
            libc::_exit(72);
        }
        if st != 0 || s.code != 0 {
            return Err(format!("{} single-stepped by two threads one after the other: status {:#x}, code {}, first bytes {}", op_name(k), st, s.code, hex(&s.got)));
        }
        for r in 0..2 {
            if s.n[r] as usize >= LOGMAX {
                println!("HARNESS access log too small");
                libc::_exit(72);
            }
            acc[r].extend(s.log[r][..s.n[r] as usize].iter().map(|&(a, n, w)| (a, n, w != 0)));
        }
        Ok(())
    }
}

fn conflicts(acc: &[BTreeSet<(u64, u64, bool)>; 2]) -> Vec<(u64, u64)> {
    let mut v = vec![];
    for r in 0..2 {
        let other: Vec<(u64, u64)> = acc[1 - r].iter().map(|x| (x.0, x.1)).collect();
        let longest = other.iter().map(|x| x.1).max().unwrap_or(0);
        for &(a, n, w) in &acc[r] {
            if w {
                let i = other.partition_point(|x| x.0 + longest <= a);
                if other[i..].iter().take_while(|x| x.0 < a + n).any(|x| x.0 + x.1 > a) {
                    v.push((a, n));
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn hook_b(n: u64) -> bool {
    unsafe {
        BSTEPS.store(n, SeqCst);
        if !HIT.with(|h| h.replace(false)) {
            return false;
        }
        let p = PTS.with(|p| p.replace(p.get() + 1));
        if p < J {
            return false;
        }
        TURN.store(0, SeqCst);
        wait(|| TURN.load(SeqCst) == 1, 300);
        true
    }
}

extern "C" fn thread_b(_: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        // Made inside A's trap handler.
        let mut set: libc::sigset_t = std::mem::zeroed();
        libc::sigaddset(&mut set, libc::SIGTRAP);
        libc::pthread_sigmask(libc::SIG_UNBLOCK, &set, std::ptr::null_mut());
        let mut out = [0u8; OUT];
        let (r, _, _) = step::traced_with(Some(hook_b), Some(hit_acc), None, || op(KB, 1, &mut out));
        judge(KB, 1, r, &out);
        if PTS.with(|p| p.get()) <= J {
            sh().b_ended = 1;
        }
        BDONE.store(true, SeqCst);
        TURN.store(0, SeqCst);
    }
    std::ptr::null_mut()
}

fn hook_a(_n: u64) -> bool {
    unsafe {
        if !HIT.with(|h| h.replace(false)) {
            return false;
        }
        if CHILD {
            // The third switch.
            let p = PTS.with(|p| p.replace(p.get() + 1));
            if Some(p) == K {
                TURN.store(1, SeqCst);
                sh().a_ended = 0;
                if !wait(|| BDONE.load(SeqCst), 200) {
                    sh().blocked = 1;
                }
                return true;
            }
            return false;
        }
        if sh().msg_len != 0 {
            return true;
        }
        sh().points += 1;
        let i = sh().points;
        let mut j = 0;
        'j: loop {
            let mut k = None;
            loop {
                if std::time::Instant::now() > (*(&raw const END)).unwrap() || crate::ctx::late() {
                    sh().late += 1;
                    return true;
                }
                let s = sh();
                s.code = 0;
                s.blocked = 0;
                s.b_ended = 0;
                s.a_ended = 1;
                s.scheds += 1;
                let pid = libc::fork();
                if pid == 0 {
                    CHILD = true;
                    libc::alarm(30);
                    J = j;
                    K = k;
                    PTS.with(|p| p.set(0));
                    TURN.store(1, SeqCst);
                    spawn(thread_b);
                    if !wait_steps(|| TURN.load(SeqCst) == 0) {
                        s.blocked = 1;
                    }
                    return K.is_none();
                }
                let mut st = 0;
                if pid < 0 || libc::waitpid(pid, &mut st, 0) != pid {
                    println!("HARNESS fork failed");
                    libc::_exit(72);
                }
                s.waits += s.blocked;
                let what = if libc::WIFSIGNALED(st) {
                    if libc::WTERMSIG(st) == libc::SIGALRM { "does not end".to_string() } else { format!("ended with signal {}", libc::WTERMSIG(st)) }
                } else {
                    match (libc::WEXITSTATUS(st), s.code) {
                        (0, 0) => String::new(),
                        (0, c) => format!(
                            "{}, first bytes {}",
                            match c {
                                1 => "A's result is wrong".to_string(),
                                2 => "B's result is wrong".to_string(),
                                3 => "A panicked".to_string(),
                                4 => "B panicked".to_string(),
                                _ => format!("afterwards {} is wrong", op_name(s.which as usize % (OPS.len() + BIG.len()))),
                            },
                            hex(&s.got)
                        ),
                        (70 | 71, _) => "crashed".to_string(),
                        (e, _) => {
                            println!("HARNESS child exit {}", e);
                            libc::_exit(72);
                        }
                    }
                };
                if !what.is_empty() {
                    let w = format!(
                        "A stopped before its access {} to shared memory, B before its access {}, A went on {}: {}",
                        i,
                        j + 1,
                        if let Some(k) = k { format!("to its access {} from there, then B to the end", k + 1) } else { "to its end, then B".into() },
                        what
                    );
                    s.at = [i, j, k.map_or(0, |k| k + 1)];
                    s.msg_len = w.len().min(400) as u64;
                    s.msg[..s.msg_len as usize].copy_from_slice(&w.as_bytes()[..s.msg_len as usize]);
                    return true;
                }
                if s.b_ended == 1 || s.blocked == 1 && k.is_none() {
                    break 'j;
                }
                if BOUND < 3 || k.is_some() && s.a_ended == 1 || s.blocked == 1 {
                    break;
                }
                k = Some(k.map_or(0, |k| k + 1));
            }
            j += 1;
        }
        false
    }
}

/// What forked copies do after thread A's operation.
pub fn afterwards() -> Option<usize> {
    for who in 0..2 {
        for k in 0..OPS.len() {
            let mut out = [0u8; OUT];
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| op(k, who, &mut out)));
            let w = unsafe { &(&(*(&raw const WANT)))[who][k] };
            if !matches!(r, Ok(n) if out[..n] == w[..]) {
                return Some(k);
            }
        }
    }
    None
}

pub fn set_wants() {
    unsafe {
        let n = OPS.len() + BIG.len();
        WANT = [(0..n).map(|k| op_want(k, 0)).collect(), (0..n).map(|k| op_want(k, 1)).collect()];
    }
}

fn pair(ka: usize) {
    unsafe {
        let mut out = [0u8; OUT];
        let (r, n, _) = step::traced_with(Some(hook_a), Some(hit_acc), None, || op(ka, 0, &mut out));
        let s = sh();
        if CHILD {
            judge(ka, 0, r, &out);
            TURN.store(1, SeqCst);
            if !wait(|| BDONE.load(SeqCst), 20_000) {
                libc::pause();
            }
            if s.code == 0 {
                if let Some(k) = afterwards() {
                    s.code = 6;
                    s.which = k as u64;
                }
            }
            libc::_exit(0);
        }
        s.steps += n;
        s.code = 0;
        if s.msg_len == 0 && judge(ka, 0, r, &out) != 0 {
            let w = "wrong without any other thread";
            s.msg_len = w.len() as u64;
            s.msg[..w.len()].copy_from_slice(w.as_bytes());
        }
    }
}

pub fn races(thorough: bool, shard: u64, nshards: u64, table: &str) -> crate::ctx::Merged {
    step::install();
    assert!(step::load(table) > 0, "empty table");
    let mut m = crate::ctx::Merged { states: 0, transitions: 0, traces: 0, outcomes: 0, viol: vec![], samples: vec![], notes: Default::default() };
    unsafe {
        SH = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Sh>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as *mut Sh;
        assert!(SH as isize != -1);
        set_wants();
        BOUND = if thorough { 3 } else { 2 };
        let budget = if thorough { 900 } else { 80 };
        for cold in [true, false] {
            if !cold {
                for k in 0..OPS.len() {
                    op(k, 0, &mut [0u8; OUT]);
                }
            }
            END = Some(std::time::Instant::now() + std::time::Duration::from_secs(budget / 2));
            let mut acc: [BTreeSet<(u64, u64, bool)>; 2] = Default::default();
            // The larger operations only when warm.
            let n = OPS.len() + if cold { 0 } else { BIG.len() };
            for k in 0..n {
                for b_first in [false, true] {
                    if let Err(e) = profile(k, b_first, &mut acc) {
                        m.viol.push(crate::ctx::Violation { case: vec![2, cold as u64, k as u64], msg: e });
                        return m;
                    }
                }
            }
            CONF = conflicts(&acc);
            let name = if cold { "first use" } else { "warm" };
            if shard == 0 {
                m.transitions += sh().steps;
                m.notes.insert(format!("{}: different accesses of A", name), acc[0].len() as u64);
                m.notes.insert(format!("{}: different accesses of B", name), acc[1].len() as u64);
                m.notes.insert(format!("{}: places that one thread writes and the other accesses", name), (*(&raw const CONF)).len() as u64);
                m.samples.push(format!("{}: {} instructions, {} different accesses, {} places are written by one thread and accessed by the other", name, sh().steps, acc[0].len() + acc[1].len(), (*(&raw const CONF)).len()));
            }
            if (*(&raw const CONF)).is_empty() {
                continue;
            }
            for d in 0..n {
                if cold && !thorough && ![0, 1, 5].contains(&d) {
                    continue;
                }
                for ka in 0..n {
                    if (d * n + ka) as u64 % nshards != shard {
                        continue;
                    }
                    KB = (ka + d) % n;
                    let s = sh();
                    s.steps = 0;
                    s.points = 0;
                    s.scheds = 0;
                    s.waits = 0;
                    s.late = 0;
                    s.msg_len = 0;
                    // In a copy, so that every pair starts alike.
                    let pid = libc::fork();
                    if pid == 0 {
                        pair(ka);
                        libc::_exit(0);
                    }
                    let mut st = 0;
                    libc::waitpid(pid, &mut st, 0);
                    m.states += s.points;
                    m.transitions += s.steps;
                    m.traces += 2 * s.scheds;
                    *m.notes.entry(format!("{}: schedules", name)).or_insert(0) += s.scheds;
                    *m.notes.entry(format!("{}: waits of one thread for the other", name)).or_insert(0) += s.waits;
                    *m.notes.entry(format!("{}: pairs out of time", name)).or_insert(0) += s.late;
                    let msg = if st != 0 { format!("ended with status {:#x}", st) } else { String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).to_string() };
                    if !msg.is_empty() {
                        m.viol.push(crate::ctx::Violation {
                            case: vec![3, cold as u64, ka as u64, KB as u64, s.at[0], s.at[1], s.at[2]],
                            msg: format!("{}: thread A in {}, B in {}: {}", name, op_name(ka), op_name(KB), msg),
                        });
                        return m;
                    }
                }
            }
        }
    }
    m.outcomes = OPS.len() as u64 * 2;
    m
}
