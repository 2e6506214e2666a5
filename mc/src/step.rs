//! Single-stepping of code on the calling thread with the trap flag.
use std::arch::asm;
use std::cell::Cell;

#[derive(Clone, Copy)]
pub struct Step {
    pub on: bool,
    pub count: u64,
    pub hash: u64,
    /// Called after every instruction with its number. True: stop stepping.
    pub hook: Option<fn(u64) -> bool>,
    pub log: *mut Vec<u64>,
    /// Hash of the addresses of all memory operands, where the table knows them.
    pub addrs: u64,
    pub known: u64,
    /// Called before every instruction for each of its memory operands with address, size (at most) and whether it may be written.
    pub acc: Option<fn(u64, u64, bool)>,
}

/// Memory operands of a loaded object's instructions, from a table made by run.py.
struct Object {
    lo: u64,
    hi: u64,
    /// By offset: 1 + index of the first operand, or 0.
    at: Vec<u32>,
    /// Base, index (0..15, 16 none, 17 the object's own address), scale, more operands follow, displacement, 1 written 2 repeated.
    ops: Vec<(u8, u8, u8, bool, i64, u8)>,
}
static OBJECTS: std::sync::OnceLock<Vec<Object>> = std::sync::OnceLock::new();

const REGS: [libc::c_int; 16] = [
    libc::REG_RAX, libc::REG_RCX, libc::REG_RDX, libc::REG_RBX, libc::REG_RSP, libc::REG_RBP, libc::REG_RSI, libc::REG_RDI, libc::REG_R8, libc::REG_R9, libc::REG_R10,
    libc::REG_R11, libc::REG_R12, libc::REG_R13, libc::REG_R14, libc::REG_R15,
];

/// Lines: "O path" starts an object; "offset base index scale displacement" one operand of an instruction,
/// with a sixth number: 1 may be written, 2 repeated.
pub fn load(file: &str) -> usize {
    let text = std::fs::read_to_string(file).expect("address table");
    let mut bases: Vec<(String, u64)> = vec![];
    unsafe extern "C" fn each(i: *mut libc::dl_phdr_info, _n: libc::size_t, v: *mut libc::c_void) -> libc::c_int {
        let n = std::ffi::CStr::from_ptr((*i).dlpi_name).to_string_lossy().to_string();
        (*(v as *mut Vec<(String, u64)>)).push((n, (*i).dlpi_addr));
        0
    }
    unsafe { libc::dl_iterate_phdr(Some(each), &mut bases as *mut _ as *mut libc::c_void) };
    let mut v: Vec<Object> = vec![];
    let mut total = 0;
    for l in text.lines() {
        if let Some(p) = l.strip_prefix("O ") {
            let want = if p == "-" { "" } else { p };
            let b = bases.iter().find(|(n, _)| n == want || (!want.is_empty() && n.rsplit('/').next() == want.rsplit('/').next())).map_or(u64::MAX / 2, |x| x.1);
            v.push(Object { lo: b, hi: b, at: vec![], ops: vec![] });
            continue;
        }
        let w: Vec<i64> = l.split(' ').map(|x| x.parse().expect("number")).collect();
        let o = v.last_mut().expect("object");
        let off = w[0] as usize;
        if o.at.len() <= off {
            o.at.resize(off + 4096, 0);
        }
        if o.at[off] == 0 {
            o.at[off] = o.ops.len() as u32 + 1;
        } else {
            o.ops.last_mut().unwrap().3 = true;
        }
        o.ops.push((w[1] as u8, w[2] as u8, w[3] as u8, false, w[4], w.get(5).map_or(0, |x| *x as u8)));
        total += 1;
    }
    for o in &mut v {
        o.hi = o.lo + o.at.len() as u64;
    }
    let _ = OBJECTS.set(v);
    total
}

/// Where the program itself is loaded.
pub fn base() -> u64 {
    OBJECTS.get().and_then(|v| v.first()).map_or(0, |o| o.lo)
}

/// Hash of the addresses and number of operands in the last traced run of this thread.
pub fn addresses() -> (u64, u64) {
    ST.with(|s| (s.get().addrs, s.get().known))
}

thread_local! {
    static ST: Cell<Step> = const { Cell::new(Step { on: false, count: 0, hash: 0, hook: None, log: std::ptr::null_mut(), addrs: 0, known: 0, acc: None }) };
}

extern "C" fn on_trap(_sig: libc::c_int, _info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let mut s = ST.with(|s| s.get());
    if !s.on {
        crate::sig::report_crash(crate::ctx::MY_SLOT.with(|s| s.get()), "SIGTRAP");
    }
    let g = unsafe { &mut (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs };
    let ip = g[libc::REG_RIP as usize] as u64;
    s.count += 1;
    s.hash = (s.hash ^ ip).wrapping_mul(0xff51afd7ed558ccd);
    s.hash ^= s.hash >> 29;
    if let Some(v) = OBJECTS.get() {
        for o in v {
            if ip >= o.lo && ip < o.hi {
                let mut i = o.at[(ip - o.lo) as usize] as usize;
                while i > 0 {
                    let (b, x, sc, more, d, how) = o.ops[i - 1];
                    let r = |n: u8| if n < 16 { g[REGS[n as usize] as usize] as u64 } else if n == 17 { o.lo } else { 0 };
                    let a = r(b).wrapping_add(r(x).wrapping_mul(sc as u64)).wrapping_add(d as u64);
                    s.known += 1;
                    s.addrs = (s.addrs ^ a).wrapping_mul(0xff51afd7ed558ccd);
                    s.addrs ^= s.addrs >> 31;
                    if let Some(f) = s.acc {
                        f(a, if how & 2 != 0 { (8 * g[libc::REG_RCX as usize] as u64).max(64) } else { 64 }, how & 1 != 0);
                    }
                    i = if more { i + 1 } else { 0 };
                }
                break;
            }
        }
    }
    ST.with(|c| c.set(s));
    if !s.log.is_null() {
        unsafe {
            (*s.log).push(ip);
            (*s.log).push(s.addrs);
        }
    }
    if let Some(h) = s.hook {
        if h(s.count) {
            g[libc::REG_EFL as usize] &= !0x100;
        }
    }
}

pub fn install() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as extern "C" fn(libc::c_int, *mut libc::siginfo_t, *mut libc::c_void) as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
}

/// Run f one instruction at a time; returns what it returned, the number of instructions and a hash of their addresses.
#[inline(never)]
pub fn traced<R>(hook: Option<fn(u64) -> bool>, log: Option<&mut Vec<u64>>, f: impl FnOnce() -> R) -> (std::thread::Result<R>, u64, u64) {
    traced_with(hook, None, log, f)
}

#[inline(never)]
pub fn traced_with<R>(hook: Option<fn(u64) -> bool>, acc: Option<fn(u64, u64, bool)>, log: Option<&mut Vec<u64>>, f: impl FnOnce() -> R) -> (std::thread::Result<R>, u64, u64) {
    let log = log.map_or(std::ptr::null_mut(), |l| l as *mut _);
    ST.with(|s| s.set(Step { on: true, count: 0, hash: 0, hook, log, addrs: 0, known: 0, acc }));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
        let r = f();
        unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
        r
    }));
    unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
    let mut s = ST.with(|s| s.get());
    let (c, h) = (s.count, s.hash);
    s.on = false;
    ST.with(|x| x.set(s));
    (r, c, h)
}

/// The plainest memory comparison a platform may have, in place of the C library's: its contract allows it to stop at
/// the first difference.
#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut i = 0;
    while i < n {
        let (x, y) = (std::ptr::read_volatile(a.add(i)), std::ptr::read_volatile(b.add(i)));
        if x != y {
            return x as i32 - y as i32;
        }
        i += 1;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    memcmp(a, b, n)
}
