//! The heap of the simulated expansion process: addresses are decided by the run, and every allocation of
//! simulated code is a possible point of preemption.

use dbsim::interpose::IN_SIM;
use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};

pub struct Arena;

const SIZE: usize = 1 << 34;
const CLASSES: usize = 48;

static LOCK: AtomicBool = AtomicBool::new(false);
static BASE: AtomicUsize = AtomicUsize::new(0);
static USED: AtomicUsize = AtomicUsize::new(0);
/// Addresses grow downwards.
pub static DOWN: AtomicBool = AtomicBool::new(false);
/// Freed blocks are not used again.
pub static FRESH: AtomicBool = AtomicBool::new(false);
static mut FREE: [*mut u8; CLASSES] = [std::ptr::null_mut(); CLASSES];
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static mut ON_ALLOC: fn() = || {};

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

fn class(size: usize) -> usize {
    (usize::BITS - (size.max(16) - 1).leading_zeros()) as usize
}

unsafe fn take(l: Layout) -> *mut u8 {
    let c = class(l.size().max(l.align()));
    while LOCK.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
        std::hint::spin_loop();
    }
    let mut base = BASE.load(Ordering::Relaxed);
    if base == 0 {
        // The same place in every process: addresses are part of the run.
        let want = 0x6000_0000_0000usize as *mut u8;
        let p = mmap(want, SIZE, 3, 0x2 | 0x20 | 0x4000, -1, 0);
        if p as isize == -1 {
            LOCK.store(false, Ordering::Release);
            return std::ptr::null_mut();
        }
        base = p as usize;
        BASE.store(base, Ordering::Relaxed);
    }
    let p = if !FREE[c].is_null() {
        let p = FREE[c];
        FREE[c] = *(p as *mut *mut u8);
        p
    } else {
        let sz = 1usize << c;
        let mut u = USED.load(Ordering::Relaxed);
        u = (u + sz - 1) & !(sz - 1);
        if u + 2 * sz > SIZE {
            LOCK.store(false, Ordering::Release);
            return std::ptr::null_mut();
        }
        USED.store(u + sz, Ordering::Relaxed);
        if DOWN.load(Ordering::Relaxed) {
            (base + SIZE - u - sz) as *mut u8
        } else {
            (base + u) as *mut u8
        }
    };
    LOCK.store(false, Ordering::Release);
    p
}

unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if IN_SIM.try_with(|c| c.get()).unwrap_or(false) {
            ALLOCS.fetch_add(1, Ordering::Relaxed);
            let f = ON_ALLOC;
            f();
        }
        take(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if FRESH.load(Ordering::Relaxed) {
            return;
        }
        let c = class(l.size().max(l.align()));
        while LOCK.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
            std::hint::spin_loop();
        }
        *(p as *mut *mut u8) = FREE[c];
        FREE[c] = p;
        LOCK.store(false, Ordering::Release);
    }
}
