//! Crashes of the code under test are attributed to the case that was running.

use crate::ctx::{MY_SLOT, SLOTS};
use std::sync::atomic::Ordering::Relaxed;

pub fn alt_stack() {
    unsafe {
        let sz = 1 << 16;
        let p = libc::mmap(std::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let st = libc::stack_t { ss_sp: p, ss_flags: 0, ss_size: sz };
        libc::sigaltstack(&st, std::ptr::null_mut());
    }
}

fn put(buf: &mut [u8], n: &mut usize, s: &[u8]) {
    for &b in s {
        if *n < buf.len() {
            buf[*n] = b;
            *n += 1;
        }
    }
}

fn put_num(buf: &mut [u8], n: &mut usize, mut v: u64) {
    let mut t = [0u8; 20];
    let mut i = 20;
    loop {
        i -= 1;
        t[i] = b'0' + (v % 10) as u8;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    put(buf, n, &t[i..]);
}

/// Async-signal-safe. Ends the process: 70 for a crash inside the code under test, 71 for any other.
pub fn report_crash(slot: usize, what: &str) -> ! {
    let mut buf = [0u8; 8192];
    let mut n = 0;
    let in_call = slot < SLOTS.len() && SLOTS[slot].in_call.load(Relaxed);
    put(&mut buf, &mut n, if in_call { b"\nCRASH " } else { b"\nHARNESS-CRASH " });
    put(&mut buf, &mut n, what.as_bytes());
    put(&mut buf, &mut n, b" case=");
    if slot < SLOTS.len() {
        let s = &SLOTS[slot];
        for i in 0..s.len.load(Relaxed) {
            if i > 0 {
                put(&mut buf, &mut n, b",");
            }
            put_num(&mut buf, &mut n, s.case[i].load(Relaxed));
        }
    }
    put(&mut buf, &mut n, b"\n");
    unsafe {
        libc::write(1, buf.as_ptr() as *const libc::c_void, n);
        libc::_exit(if in_call { 70 } else { 71 });
    }
}

extern "C" fn on_crash(sig: libc::c_int, _info: *mut libc::siginfo_t, _uc: *mut libc::c_void) {
    let what = match sig {
        libc::SIGSEGV => "SIGSEGV",
        libc::SIGBUS => "SIGBUS",
        libc::SIGILL => "SIGILL",
        libc::SIGFPE => "SIGFPE",
        libc::SIGTRAP => "SIGTRAP",
        libc::SIGABRT => "SIGABRT",
        _ => "signal",
    };
    report_crash(MY_SLOT.with(|s| s.get()), what);
}

pub fn install() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_crash as extern "C" fn(libc::c_int, *mut libc::siginfo_t, *mut libc::c_void) as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP, libc::SIGABRT] {
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
    alt_stack();
}
