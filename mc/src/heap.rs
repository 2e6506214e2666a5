//! The C library's allocator may be in the middle of its work when another thread is let in at some instruction, which
//! a process with one thread does not protect itself against. Processes that do such things (`mc steps`, `mc races`)
//! therefore use the one below, which is consistent at every instruction: a counter that only grows.
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

const SIZE: usize = 64 << 30;
static ON: AtomicBool = AtomicBool::new(false);
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);

extern "C" {
    fn __libc_malloc(n: usize) -> *mut u8;
    fn __libc_calloc(n: usize, m: usize) -> *mut u8;
    fn __libc_realloc(p: *mut u8, n: usize) -> *mut u8;
    fn __libc_memalign(a: usize, n: usize) -> *mut u8;
    fn __libc_free(p: *mut u8);
}

/// From now on nothing is freed.
pub fn simple() {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p as isize != -1, "no room for the heap");
        BASE.store(p as usize, SeqCst);
        NEXT.store(p as usize, SeqCst);
        ON.store(true, SeqCst);
    }
}

/// Bytes taken so far.
pub fn used() -> u64 {
    (NEXT.load(SeqCst) - BASE.load(SeqCst)) as u64
}

fn take(align: usize, n: usize) -> *mut u8 {
    let align = align.max(16);
    // The size lies before the block.
    let room = (n + 16 + 15) / 16 * 16 + align;
    let p = NEXT.fetch_add(room, SeqCst);
    if p + room > BASE.load(SeqCst) + SIZE {
        return std::ptr::null_mut();
    }
    let a = (p + 16 + align - 1) / align * align;
    unsafe { *((a - 8) as *mut usize) = n };
    a as *mut u8
}

fn ours(p: *mut u8) -> bool {
    let b = BASE.load(SeqCst);
    b != 0 && p as usize >= b && (p as usize) < b + SIZE
}

#[no_mangle]
pub unsafe extern "C" fn malloc(n: usize) -> *mut u8 {
    if ON.load(SeqCst) { take(16, n) } else { __libc_malloc(n) }
}
#[no_mangle]
pub unsafe extern "C" fn calloc(n: usize, m: usize) -> *mut u8 {
    if !ON.load(SeqCst) {
        return __libc_calloc(n, m);
    }
    // Fresh pages are zero.
    n.checked_mul(m).map_or(std::ptr::null_mut(), |x| take(16, x))
}
#[no_mangle]
pub unsafe extern "C" fn realloc(p: *mut u8, n: usize) -> *mut u8 {
    if p.is_null() {
        return malloc(n);
    }
    if !ours(p) {
        if !ON.load(SeqCst) {
            return __libc_realloc(p, n);
        }
        let q = take(16, n);
        std::ptr::copy_nonoverlapping(p, q, n.min(malloc_usable_size_of_libc(p)));
        return q;
    }
    let old = *((p as usize - 8) as *const usize);
    let q = take(16, n);
    if !q.is_null() {
        std::ptr::copy_nonoverlapping(p, q, old.min(n));
    }
    q
}
/// The chunk's size field, as glibc lays it out.
unsafe fn malloc_usable_size_of_libc(p: *mut u8) -> usize {
    let s = *((p as usize - 8) as *const usize);
    let overhead = if s & 2 != 0 { 16 } else { 8 };
    (s & !7) - overhead
}
#[no_mangle]
pub unsafe extern "C" fn free(p: *mut u8) {
    // What the C library gave out before is left alone as well.
    if !p.is_null() && !ON.load(SeqCst) {
        __libc_free(p)
    }
}
#[no_mangle]
pub unsafe extern "C" fn memalign(a: usize, n: usize) -> *mut u8 {
    if ON.load(SeqCst) { take(a, n) } else { __libc_memalign(a, n) }
}
#[no_mangle]
pub unsafe extern "C" fn aligned_alloc(a: usize, n: usize) -> *mut u8 {
    memalign(a, n)
}
#[no_mangle]
pub unsafe extern "C" fn posix_memalign(out: *mut *mut u8, a: usize, n: usize) -> i32 {
    let p = memalign(a, n);
    if p.is_null() {
        return libc::ENOMEM;
    }
    *out = p;
    0
}
