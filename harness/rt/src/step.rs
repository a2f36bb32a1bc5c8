//! Single-steps this thread (trap flag) and shows every instruction address to a callback.
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::SeqCst};

pub static STEPS: AtomicU64 = AtomicU64::new(0);
static CB: AtomicPtr<()> = AtomicPtr::new(std::ptr::null_mut());

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let uc = &*(ctx as *const libc::ucontext_t);
        let rip = uc.uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
        let n = STEPS.fetch_add(1, SeqCst);
        let cb = CB.load(SeqCst);
        if !cb.is_null() {
            std::mem::transmute::<*mut (), fn(u64, usize)>(cb)(n, rip);
        }
    }
}

/// Runs `f` one instruction at a time; `cb` gets the number of the step and the address of the
/// instruction about to execute.
pub fn single_step<R>(cb: fn(u64, usize), f: impl FnOnce() -> R) -> (R, u64) {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        CB.store(cb as *mut (), SeqCst);
        STEPS.store(0, SeqCst);
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        let r = f();
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        (r, STEPS.load(SeqCst))
    }
}

extern "C" {
    static __executable_start: u8;
    static etext: u8;
}

pub fn in_program(rip: usize) -> bool {
    unsafe { rip >= &__executable_start as *const u8 as usize && rip < &etext as *const u8 as usize }
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Kind {
    Other,
    Cpuid,
    /// VEX or EVEX encoded, in AVX (not AVX2)
    Avx,
    Avx2,
    Avx512,
}

/// Classifies the instruction at `rip` (64-bit code).
pub unsafe fn classify(rip: usize) -> Kind {
    let p = rip as *const u8;
    let b0 = *p;
    if b0 == 0x0f && *p.add(1) == 0xa2 {
        return Kind::Cpuid;
    }
    let (map, l, pp, op) = match b0 {
        0xC5 => (1, (*p.add(1) >> 2) & 1, *p.add(1) & 3, *p.add(2)),
        0xC4 => (*p.add(1) & 0x1f, (*p.add(2) >> 2) & 1, *p.add(2) & 3, *p.add(3)),
        0x62 => return Kind::Avx512,
        _ => return Kind::Other,
    };
    let avx2 = pp == 1
        && match map {
            1 => {
                l == 1
                    && matches!(op, 0x60..=0x6d | 0x70..=0x76 | 0xd1..=0xd5 | 0xd7..=0xdf | 0xe0..=0xe5 | 0xe8..=0xef | 0xf1..=0xf6 | 0xf8..=0xfe)
            }
            2 => {
                (l == 1
                    && matches!(op, 0x00..=0x0b | 0x1c..=0x1e | 0x20..=0x25 | 0x28..=0x2b | 0x30..=0x40 | 0x16 | 0x36))
                    || matches!(op, 0x45..=0x47 | 0x58 | 0x59 | 0x5a | 0x78 | 0x79 | 0x8c | 0x8e | 0x90..=0x93)
            }
            3 => l == 1 && matches!(op, 0x00 | 0x01 | 0x02 | 0x0e | 0x0f | 0x38 | 0x39 | 0x42 | 0x46 | 0x4c),
            _ => false,
        };
    if avx2 {
        return Kind::Avx2;
    }
    // BMI instructions are VEX encoded too, but are not vector instructions
    let bmi = (map == 2 && matches!(op, 0xf2 | 0xf3 | 0xf5 | 0xf6 | 0xf7)) || (map == 3 && op == 0xf0);
    if bmi {
        Kind::Other
    } else {
        Kind::Avx
    }
}
