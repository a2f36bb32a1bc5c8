//! Checking global allocator.
//!
//! While switched on, every block ends (up to its alignment) at the end of a page followed by an
//! inaccessible page; blocks are filled with a pattern, freed pages become inaccessible, and the
//! layout given at release is compared with the one at allocation. Writes into the slack before a
//! block are found when it is released.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};

const PAGE: usize = 4096;
const ARENA: usize = 64 << 30;
const SLOTS: usize = ARENA / PAGE;

pub struct G;

static ON: AtomicBool = AtomicBool::new(false);
static COUNTING: AtomicBool = AtomicBool::new(false);
pub static COUNT: AtomicU64 = AtomicU64::new(0);
pub static RECOUNT: AtomicU64 = AtomicU64::new(0);
static BASE: AtomicUsize = AtomicUsize::new(0);
static META: AtomicPtr<Meta> = AtomicPtr::new(std::ptr::null_mut());
static NEXT: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicI64 = AtomicI64::new(0);
static ERR: AtomicUsize = AtomicUsize::new(0);
static ERR_A: AtomicUsize = AtomicUsize::new(0);
static ERR_B: AtomicUsize = AtomicUsize::new(0);

/// How many guarded allocations are left, the last of which is refused; zero: all are granted.
static LEFT: AtomicI64 = AtomicI64::new(0);
/// Where the size is written that is refused.
static TOLD: AtomicI32 = AtomicI32::new(-1);

/// Lets the guarded allocation that is the `k`-th from now be refused, or none for zero.
pub fn refuse(k: i64) {
    LEFT.store(k, Relaxed);
}
pub fn left() -> i64 {
    LEFT.load(Relaxed)
}
pub fn tell(fd: i32) {
    TOLD.store(fd, Relaxed);
}

#[repr(C)]
#[derive(Clone, Copy)]
struct Meta {
    size: usize,
    align: u32,
    pages: u32,
}

unsafe fn init() {
    if BASE.load(Acquire) != 0 {
        return;
    }
    let p = libc::mmap(
        std::ptr::null_mut(),
        ARENA,
        libc::PROT_NONE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    let m = libc::mmap(
        std::ptr::null_mut(),
        SLOTS * std::mem::size_of::<Meta>(),
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    if p == libc::MAP_FAILED || m == libc::MAP_FAILED {
        libc::abort();
    }
    META.store(m as *mut Meta, Release);
    BASE.store(p as usize, Release);
}

fn error(code: usize, a: usize, b: usize) {
    if ERR.compare_exchange(0, code, AcqRel, Relaxed).is_ok() {
        ERR_A.store(a, Relaxed);
        ERR_B.store(b, Relaxed);
    }
}

unsafe fn galloc(l: Layout) -> *mut u8 {
    init();
    let l = if l.size() == 0 {
        error(4, 0, 0);
        Layout::from_size_align_unchecked(1, l.align())
    } else {
        l
    };
    let pages = l.size().div_ceil(PAGE).max(1);
    if pages > (4 << 30) / PAGE {
        return std::ptr::null_mut();
    }
    let first = NEXT.fetch_add(pages + 1, AcqRel);
    if first + pages + 1 > SLOTS {
        return std::ptr::null_mut();
    }
    let start = BASE.load(Acquire) + first * PAGE;
    if libc::mprotect(start as _, pages * PAGE, libc::PROT_READ | libc::PROT_WRITE) != 0 {
        libc::abort();
    }
    let user = (start + pages * PAGE - l.size()) & !(l.align() - 1);
    let lead = user - start;
    std::ptr::write_bytes(start as *mut u8, 0x5A, lead);
    std::ptr::write_bytes(user as *mut u8, 0xA5, l.size());
    // the slot of the block is that of the page holding its first byte
    let slot = ((user - BASE.load(Acquire)) / PAGE).min(SLOTS - 1);
    *META.load(Acquire).add(slot) =
        Meta { size: l.size(), align: l.align() as u32, pages: pages as u32 };
    LIVE.fetch_add(1, AcqRel);
    user as *mut u8
}

unsafe fn gfree(p: *mut u8, l: Layout) {
    let base = BASE.load(Acquire);
    let slot = (p as usize - base) / PAGE;
    let m = &mut *META.load(Acquire).add(slot);
    if m.pages == 0 {
        error(1, p as usize, l.size());
        return;
    }
    if m.size != l.size() || m.align as usize != l.align() {
        error(2, m.size, l.size());
    }
    let start = base + slot * PAGE;
    let mut q = start as *const u8;
    while q < p as *const u8 {
        if *q != 0x5A {
            error(3, p as usize - q as usize, m.size);
            break;
        }
        q = q.add(1);
    }
    let bytes = m.pages as usize * PAGE;
    m.pages = 0;
    libc::mprotect(start as _, bytes, libc::PROT_NONE);
    libc::madvise(start as _, bytes, libc::MADV_DONTNEED);
    LIVE.fetch_sub(1, AcqRel);
}

/// Blocks of this size and above are reserved only; their pages come with use.
pub const HUGE: usize = 64 << 20;

unsafe fn huge_alloc(n: usize) -> *mut u8 {
    let p = libc::mmap(
        std::ptr::null_mut(),
        n,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    if p == libc::MAP_FAILED { std::ptr::null_mut() } else { p as *mut u8 }
}

/// The largest of these sizes that several blocks can have.
pub fn huge_limit() -> usize {
    for n in [1usize << 41, 1 << 39, 1 << 37, 1 << 35, 1 << 33] {
        unsafe {
            let ps: Vec<_> = (0..8).map(|_| huge_alloc(n)).collect();
            let ok = ps.iter().all(|p| !p.is_null());
            for p in ps.into_iter().filter(|p| !p.is_null()) {
                libc::munmap(p as _, n);
            }
            if ok {
                return n;
            }
        }
    }
    HUGE
}

fn mine(p: *mut u8) -> bool {
    let b = BASE.load(Acquire);
    b != 0 && (p as usize) >= b && (p as usize) < b + ARENA
}

unsafe impl GlobalAlloc for G {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if COUNTING.load(Relaxed) {
            COUNT.fetch_add(1, Relaxed);
        }
        if ON.load(Relaxed) {
            if LEFT.load(Relaxed) > 0 && LEFT.fetch_sub(1, Relaxed) == 1 {
                let n = l.size();
                libc::write(TOLD.load(Relaxed), &n as *const usize as _, 8);
                return std::ptr::null_mut();
            }
            galloc(l)
        } else if l.size() >= HUGE {
            huge_alloc(l.size())
        } else {
            System.alloc(l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() && (l.size() < HUGE || mine(p)) {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if mine(p) {
            gfree(p, l)
        } else if l.size() >= HUGE {
            libc::munmap(p as _, l.size());
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if mine(p) || ON.load(Relaxed) {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            q
        } else if l.size() >= HUGE && n >= HUGE {
            let q = libc::mremap(p as _, l.size(), n, libc::MREMAP_MAYMOVE);
            if q == libc::MAP_FAILED { std::ptr::null_mut() } else { q as *mut u8 }
        } else if l.size() >= HUGE || n >= HUGE {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            q
        } else {
            if COUNTING.load(Relaxed) {
                RECOUNT.fetch_add(1, Relaxed);
            }
            System.realloc(p, l, n)
        }
    }
}

struct Off;
impl Drop for Off {
    fn drop(&mut self) {
        ON.store(false, Relaxed);
    }
}

/// Runs `f` with guarded allocation.
pub fn guarded<R>(f: impl FnOnce() -> R) -> R {
    if LIVE.load(Relaxed) == 0 {
        NEXT.store(0, Relaxed);
    }
    ON.store(true, Relaxed);
    let _off = Off;
    f()
}

/// Runs `f` with ordinary allocation, inside `guarded`.
pub fn unguarded<R>(f: impl FnOnce() -> R) -> R {
    let was = ON.swap(false, Relaxed);
    let r = f();
    ON.store(was, Relaxed);
    r
}

pub fn live() -> i64 {
    LIVE.load(Relaxed)
}

/// An error noticed by the allocator since the last call.
pub fn take_error() -> Option<String> {
    let (a, b) = (ERR_A.load(Relaxed), ERR_B.load(Relaxed));
    match ERR.swap(0, Relaxed) {
        0 => None,
        1 => Some("memory block released twice or not at its start".into()),
        2 => Some(format!("memory block of {a} bytes released as {b} bytes (or other alignment)")),
        4 => Some("allocation of zero bytes".into()),
        _ => Some(format!("write {a} bytes before the start of a block of {b} bytes")),
    }
}

/// Runs `f` and counts the allocations and the reallocations it makes.
pub fn count<R>(f: impl FnOnce() -> R) -> (R, u64, u64) {
    let (a, b) = (COUNT.load(Relaxed), RECOUNT.load(Relaxed));
    COUNTING.store(true, Relaxed);
    let r = f();
    COUNTING.store(false, Relaxed);
    (r, COUNT.load(Relaxed) - a, RECOUNT.load(Relaxed) - b)
}
