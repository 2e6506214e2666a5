//! A copy of this program in which every `cpuid` instruction was replaced by `ud2` (same length) runs as if on a
//! CPU without the features that MM_CPU leaves out: this handler answers in the instruction's place.
use core::arch::asm;

static mut MASK: [u32; 4] = [!0; 4]; // leaf 1 ecx, leaf 7 ebx, leaf 7 ecx, leaf 0x80000001 ecx

/// The one real cpuid: run.py leaves a cpuid alone that follows this no-op.
#[inline(never)]
fn real(leaf: u32, sub: u32) -> [u32; 4] {
    let (a, b, c, d): (u32, u64, u32, u32);
    unsafe {
        asm!("mov {t}, rbx", ".byte 0x0f,0x1f,0x80,0x11,0x22,0x33,0x44", "cpuid", "xchg {t}, rbx", t = out(reg) b,
            inlateout("eax") leaf => a, inlateout("ecx") sub => c, out("edx") d);
    }
    [a, b as u32, c, d]
}

extern "C" fn on_ill(sig: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let g = &mut (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs;
        let ip = g[libc::REG_RIP as usize] as *const u8;
        if *ip != 0x0f || *ip.add(1) != 0x0b {
            libc::signal(sig, libc::SIG_DFL);
            return;
        }
        let (leaf, sub) = (g[libc::REG_RAX as usize] as u32, g[libc::REG_RCX as usize] as u32);
        let mut r = real(leaf, sub);
        if leaf == 1 {
            r[2] &= MASK[0];
        }
        if leaf == 7 && sub == 0 {
            r[1] &= MASK[1];
            r[2] &= MASK[2];
        } else if leaf == 0x8000_0001 {
            r[2] &= MASK[3];
        } else if leaf == 7 && MASK[1] != !0 {
            r = [0; 4];
        }
        g[libc::REG_RAX as usize] = r[0] as i64;
        g[libc::REG_RBX as usize] = r[1] as i64;
        g[libc::REG_RCX as usize] = r[2] as i64;
        g[libc::REG_RDX as usize] = r[3] as i64;
        g[libc::REG_RIP as usize] += 2;
    }
}

/// MM_CPU=a,b,c,d: masks. Prints what the program then sees.
pub fn start() {
    let Ok(v) = std::env::var("MM_CPU") else { return };
    let w: Vec<u32> = v.split(',').map(|x| x.parse().unwrap()).collect();
    unsafe {
        MASK = [w[0], w[1], w[2], w[3]];
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_ill as extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void) as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGILL, &sa, std::ptr::null_mut());
    }
    let f = [is_x86_feature_detected!("ssse3"), is_x86_feature_detected!("sse4.1"), is_x86_feature_detected!("avx"), is_x86_feature_detected!("avx2")];
    crate::put(&format!("FEATURES {}\n", f.iter().map(|x| if *x { '1' } else { '0' }).collect::<String>()));
}
