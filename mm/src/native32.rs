//! No operating system library: 32-bit Linux system calls only.
use core::alloc::{GlobalAlloc, Layout};
use core::arch::{asm, global_asm};

global_asm!(".globl _start", "_start:", "mov eax, esp", "and esp, -16", "sub esp, 12", "push eax", "call rust_start", "ud2");

unsafe fn sys3(n: u32, a: u32, b: u32, c: u32) -> i32 {
    let r: i32;
    asm!("int 0x80", inlateout("eax") n as i32 => r, in("ebx") a, in("ecx") b, in("edx") c);
    r
}
pub fn put(s: &str) {
    unsafe {
        sys3(4, 1, s.as_ptr() as u32, s.len() as u32);
    }
}
pub fn exit(c: i32) -> ! {
    unsafe {
        sys3(1, c as u32, 0, 0);
    }
    loop {}
}

const HEAP: usize = 64 << 20;
struct Bump;
#[repr(align(64))]
struct Arena(#[allow(dead_code)] [u8; HEAP]);
static mut ARENA: core::mem::MaybeUninit<Arena> = core::mem::MaybeUninit::uninit();
static mut USED: usize = 0;
/// Forget all allocations (between cases).
pub fn mark() -> usize {
    unsafe { USED }
}
pub fn release(m: usize) {
    unsafe { USED = m }
}
unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let s = (USED + l.align() - 1) & !(l.align() - 1);
        if s + l.size() > HEAP {
            return core::ptr::null_mut();
        }
        USED = s + l.size();
        (&raw mut ARENA as *mut u8).add(s)
    }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
}
#[global_allocator]
static A: Bump = Bump;

#[panic_handler]
fn panic(i: &core::panic::PanicInfo) -> ! {
    put("\nPANIC ");
    put(&alloc::format!("{}", i));
    put("\n");
    exit(1)
}

fn num(p: *const u8) -> u32 {
    let mut n = 0;
    unsafe {
        let mut q = p;
        while *q != 0 {
            n = n * 10 + (*q - b'0') as u32;
            q = q.add(1);
        }
    }
    n
}

#[no_mangle]
unsafe extern "C" fn rust_start(sp: *const u32) -> ! {
    let argc = *sp;
    if argc < 4 {
        exit(2);
    }
    let arg = |i: usize| *sp.add(1 + i) as *const u8;
    let mut only = alloc::vec::Vec::new();
    for i in 4..argc as usize {
        only.push(num(arg(i)));
    }
    exit(crate::suite::main(num(arg(1)), num(arg(2)), num(arg(3)), &only, &mut crate::suite::Tape::Compute))
}
